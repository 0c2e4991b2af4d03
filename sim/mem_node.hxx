// nodes that take their memory from a resource
#ifndef SIM_MEM_NODE_HXX_
#define SIM_MEM_NODE_HXX_
#include "nodes.hxx"
#include "mem.hxx"
namespace mem {
    template <typename N> struct NodeForeign {
        static Res* get(const N& n, Res* r) {
            if (Res* x = other(n.get_allocator(), r)) return x;
            return in(n, r);
        }
        template <typename C> static Res* map(const C& c, Res* r) {
            if (Res* x = other(c.get_allocator(), r)) return x;
            for (const auto& e : c) { if (Res* x = get(e.first, r)) return x; if (Res* x = get(e.second, r)) return x; }
            return nullptr;
        }
        template <typename C> static Res* seq(const C& c, Res* r) {
            if (Res* x = other(c.get_allocator(), r)) return x;
            for (const auto& e : c) if (Res* x = get(e, r)) return x;
            return nullptr;
        }
        template <typename Tr> static Res* in(const cxon::json::basic_node<Tr>& n, Res* r) {
            if (n.template is<typename N::object>()) return map(n.template get<typename N::object>(), r);
            if (n.template is<typename N::array>()) return seq(n.template get<typename N::array>(), r);
            if (n.template is<typename N::string>()) return other(n.template get<typename N::string>().get_allocator(), r);
            return nullptr;
        }
        template <typename Tr> static Res* in(const cxon::cbor::basic_node<Tr>& n, Res* r) {
            if (n.template is<typename N::map>()) return map(n.template get<typename N::map>(), r);
            if (n.template is<typename N::array>()) return seq(n.template get<typename N::array>(), r);
            if (n.template is<typename N::text>()) return other(n.template get<typename N::text>().get_allocator(), r);
            if (n.template is<typename N::bytes>()) return other(n.template get<typename N::bytes>().get_allocator(), r);
            if (n.template is<typename N::tag>()) return get(n.template get<typename N::tag>().value, r);
            return nullptr;
        }
    };
    static const char* const LONG = "a text that does not fit where short ones do";
    template <typename M, typename N> void put(M& m, N&& k, N&& v) { nodes::put(m, std::move(k), std::move(v)); }
    template <typename N> struct NodeEdit {
        typedef typename N::allocator_type A;
        static void go(unsigned what, N& n, const N& o) {
            A const a = n.get_allocator();
            switch (what % 12) {
                case 0: n = LONG; break;
                case 1: n.template imbue<typename N::array>().push_back(o); break;
                case 2: n.template imbue<typename N::array>().emplace_back(LONG); break;
                case 3: n = N(o, a); break;
                case 4: n = std::int8_t(what); break;
                case 5: n.reset(); break;
                case 6: part(n, o); break;
                case 7: insert(n, N(LONG, a), N(o, a)); break;
                case 8: text(n) += LONG; break;
                case 9: n = nullptr; n = o; break;
                case 10: tag(n, N(o, a)); break;
                case 11: { N t(a); t.swap(n); n = std::move(t); break; }
            }
        }
        template <typename Tr> static typename cxon::json::basic_node<Tr>::string& text(cxon::json::basic_node<Tr>& n) { return n.template imbue<typename N::string>(); }
        template <typename Tr> static typename cxon::cbor::basic_node<Tr>::text& text(cxon::cbor::basic_node<Tr>& n) { return n.template imbue<typename N::text>(); }
        template <typename Tr> static void insert(cxon::json::basic_node<Tr>& n, N&& k, N&& v) { put(n.template imbue<typename N::object>(), std::move(k), std::move(v)); }
        template <typename Tr> static void insert(cxon::cbor::basic_node<Tr>& n, N&& k, N&& v) { put(n.template imbue<typename N::map>(), std::move(k), std::move(v)); }
        template <typename Tr> static void tag(cxon::json::basic_node<Tr>& n, N&& v) { n = std::move(v); }
        template <typename Tr> static void tag(cxon::cbor::basic_node<Tr>& n, N&& v) { n = typename N::tag(7, std::move(v)); }
        template <typename Tr> static void part(cxon::json::basic_node<Tr>& n, const N& o) {
            if (o.template is<typename N::object>()) n = o.template get<typename N::object>();
            else if (o.template is<typename N::array>()) n = o.template get<typename N::array>();
            else if (o.template is<typename N::string>()) n = o.template get<typename N::string>();
        }
        template <typename Tr> static void part(cxon::cbor::basic_node<Tr>& n, const N& o) {
            if (o.template is<typename N::map>()) n = o.template get<typename N::map>();
            else if (o.template is<typename N::array>()) n = o.template get<typename N::array>();
            else if (o.template is<typename N::text>()) n = o.template get<typename N::text>();
            else if (o.template is<typename N::bytes>()) n = o.template get<typename N::bytes>();
            else if (o.template is<typename N::tag>()) n = o.template get<typename N::tag>();
        }
    };
#   define MEM_NODE(...)\
        template <> struct Foreign<__VA_ARGS__> : NodeForeign<__VA_ARGS__> {};\
        template <> struct Edit<__VA_ARGS__> : NodeEdit<__VA_ARGS__> {};
}
#endif
