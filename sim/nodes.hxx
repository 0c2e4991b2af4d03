// polymorphic nodes <-> model values
#ifndef SIM_NODES_HXX_
#define SIM_NODES_HXX_

// before zoo.hxx: its templates have to find the overloads that install the depth guard
#include "cxon/json.hxx"
#include "cxon/cxcf.hxx"
#include "cxon/cbor.hxx"
#include "cxon/lib/node.ordered.hxx"
#include "zoo.hxx"

namespace nodes {

    using sim::Val; using sim::Fmt;

    // equality of contents: numbers by value (a node read from text keeps no trace of how it was stored)
    inline bool num_eq(const Val& a, const Val& b) {
        long double const x = a.num(), y = b.num();
        return (x != x && y != y) || x == y;
    }
    inline bool isnum(const Val& v) { return v.k == Val::INT || v.k == Val::REAL; }
    // exact: kinds and signs of zero count too
    inline bool val_eq(const Val& a, const Val& b, bool ordered, bool exact = false) {
        if (isnum(a) && isnum(b)) {
            if (exact && a.k != b.k) return false;
            if (exact && a.k == Val::REAL && std::signbit(a.d) != std::signbit(b.d) && a.d == a.d) return false;
            return num_eq(a, b);
        }
        if (a.k != b.k || a.a.size() != b.a.size()) return false;
        switch (a.k) {
            case Val::ARR: case Val::TAG:
                if (a.k == Val::TAG && a.u != b.u) return false;
                for (size_t i = 0; i != a.a.size(); ++i) if (!val_eq(a.a[i], b.a[i], ordered, exact)) return false;
                return true;
            case Val::MAP: {
                if (ordered) { for (size_t i = 0; i != a.a.size(); ++i) if (!val_eq(a.a[i], b.a[i], ordered, exact)) return false; return true; }
                std::vector<bool> used(b.a.size() / 2);
                for (size_t i = 0; i + 1 < a.a.size(); i += 2) {
                    bool hit = false;
                    for (size_t j = 0; j + 1 < b.a.size() && !hit; j += 2)
                        if (!used[j / 2] && val_eq(a.a[i], b.a[j], ordered, exact) && val_eq(a.a[i + 1], b.a[j + 1], ordered, exact)) used[j / 2] = hit = true;
                    if (!hit) return false;
                }
                return true;
            }
            case Val::BOOL: return a.b == b.b;
            case Val::STR: case Val::BYTES: return a.s == b.s;
            case Val::SIMPLE: return a.u == b.u;
            default: return true;
        }
    }

    template <typename M, typename K, typename V> void put(M& m, K&& k, V&& v) { m.emplace(std::move(k), std::move(v)); }
    template <typename E, typename A, typename K, typename V> void put(std::vector<E, A>& m, K&& k, V&& v) { m.emplace_back(std::move(k), std::move(v)); }

    template <typename Tr> Val to(const cxon::json::basic_node<Tr>& n) {
        typedef cxon::json::basic_node<Tr> N; using cxon::json::node_kind;
        switch (n.kind()) {
            case node_kind::object: { Val v = Val::map(); for (const auto& e : n.template get<typename N::object>()) { v.a.push_back(to(e.first)); v.a.push_back(to(e.second)); } return v; }
            case node_kind::array: { Val v = Val::arr(); for (const auto& e : n.template get<typename N::array>()) v.a.push_back(to(e)); return v; }
            case node_kind::string: { const auto& s = n.template get<typename N::string>(); return Val::str(std::string(s.data(), s.size())); }
            case node_kind::real: return Val::real(n.template get<typename N::real>());
            case node_kind::sint: return Val::sint(n.template get<typename N::sint>());
            case node_kind::uint: return Val::uint(n.template get<typename N::uint>());
            case node_kind::boolean: return Val::boolean(n.template get<typename N::boolean>());
            case node_kind::null: return Val::null();
        }
        return Val::undef();
    }
    template <typename Tr> Val to(const cxon::cbor::basic_node<Tr>& n) {
        typedef cxon::cbor::basic_node<Tr> N; using cxon::cbor::node_kind;
        switch (n.kind()) {
            case node_kind::map: { Val v = Val::map(); for (const auto& e : n.template get<typename N::map>()) { v.a.push_back(to(e.first)); v.a.push_back(to(e.second)); } return v; }
            case node_kind::array: { Val v = Val::arr(); for (const auto& e : n.template get<typename N::array>()) v.a.push_back(to(e)); return v; }
            case node_kind::tag: return Val::tag(n.template get<typename N::tag>().tag, to(n.template get<typename N::tag>().value));
            case node_kind::bytes: { std::string s; for (auto c : n.template get<typename N::bytes>()) s += (char)c; return Val::bytes(s); }
            case node_kind::text: { const auto& s = n.template get<typename N::text>(); return Val::str(std::string(s.data(), s.size())); }
            case node_kind::real: return Val::real(n.template get<typename N::real>());
            case node_kind::sint: return Val::sint(n.template get<typename N::sint>());
            case node_kind::uint: return Val::uint(n.template get<typename N::uint>());
            case node_kind::simple: return Val::simple(n.template get<typename N::simple>().value);
            case node_kind::boolean: return Val::boolean(n.template get<typename N::boolean>());
            case node_kind::null: return Val::null();
            case node_kind::undefined: return Val::undef();
        }
        return Val::undef();
    }
    // false: the node cannot represent it
    template <typename Tr> bool from(cxon::json::basic_node<Tr>& n, const Val& v) {
        typedef cxon::json::basic_node<Tr> N;
        switch (v.k) {
            case Val::UNDEF: case Val::NUL: n.template imbue<typename N::null>(); return true;
            case Val::BOOL: n.template imbue<typename N::boolean>() = v.b; return true;
            case Val::INT:
                if (v.b) { if (v.u > (uint64_t)std::numeric_limits<long long>::max()) return false; n.template imbue<typename N::sint>() = -1 - (long long)v.u; }
                else n.template imbue<typename N::uint>() = v.u;
                return true;
            case Val::REAL: n.template imbue<typename N::real>() = (double)v.d; return true;
            case Val::STR: n.template imbue<typename N::string>().assign(v.s.data(), v.s.size()); return true;
            case Val::ARR: { auto& a = n.template imbue<typename N::array>(); a.clear(); for (const auto& e : v.a) { a.emplace_back(); if (!from(a.back(), e)) return false; } return true; }
            case Val::MAP: { auto& o = n.template imbue<typename N::object>(); o.clear(); for (size_t i = 0; i + 1 < v.a.size(); i += 2) { N k, x; if (!from(k, v.a[i]) || !from(x, v.a[i + 1])) return false; put(o, std::move(k), std::move(x)); } return true; }
            default: return false;
        }
    }
    template <typename Tr> bool from(cxon::cbor::basic_node<Tr>& n, const Val& v) {
        typedef cxon::cbor::basic_node<Tr> N;
        switch (v.k) {
            case Val::UNDEF: n.template imbue<typename N::undefined>(); return true;
            case Val::NUL: n.template imbue<typename N::null>(); return true;
            case Val::BOOL: n.template imbue<typename N::boolean>() = v.b; return true;
            case Val::SIMPLE: n.template imbue<typename N::simple>() = typename N::simple((unsigned char)v.u); return true;
            case Val::INT:
                if (v.b) { if (v.u > (uint64_t)std::numeric_limits<long long>::max()) return false; n.template imbue<typename N::sint>() = -1 - (long long)v.u; }
                else n.template imbue<typename N::uint>() = v.u;
                return true;
            case Val::REAL: n.template imbue<typename N::real>() = (double)v.d; return true;
            case Val::STR: n.template imbue<typename N::text>().assign(v.s.data(), v.s.size()); return true;
            case Val::BYTES: { auto& b = n.template imbue<typename N::bytes>(); b.assign(v.s.begin(), v.s.end()); return true; }
            case Val::TAG: { N x; if (!from(x, v.a[0])) return false; auto& t = n.template imbue<typename N::tag>(); t.tag = v.u; t.value = std::move(x); return true; }
            case Val::ARR: { auto& a = n.template imbue<typename N::array>(); a.clear(); for (const auto& e : v.a) { a.emplace_back(); if (!from(a.back(), e)) return false; } return true; }
            case Val::MAP: { auto& o = n.template imbue<typename N::map>(); o.clear(); for (size_t i = 0; i + 1 < v.a.size(); i += 2) { N k, x; if (!from(k, v.a[i]) || !from(x, v.a[i + 1])) return false; put(o, std::move(k), std::move(x)); } return true; }
        }
        return false;
    }

    template <typename N> struct is_cbor : std::false_type {};
    template <typename Tr> struct is_cbor<cxon::cbor::basic_node<Tr>> : std::true_type {};

    template <typename N, bool Ordered> struct TrNode {
        static sim::GenOpt opt(Fmt f, unsigned d) { sim::GenOpt o; o.f = f; o.depth = d; o.json_node = !is_cbor<N>::value; o.cbor_node = is_cbor<N>::value && f == sim::F_CBOR; o.real_specials = f == sim::F_CBOR; return o; }
        static void gen(sim::Sim& s, N& n, unsigned d) { Val v = sim::gen_val(s, opt(zoo::gen_fmt == sim::F_CXCF ? sim::F_CXCN : zoo::gen_fmt, d)); N x; if (from(x, v)) n = std::move(x); }
        static Val to(const N& n, Fmt) { return nodes::to(n); }
        static bool eq(const N& a, const N& b) { return val_eq(nodes::to(a), nodes::to(b), Ordered, false); }
        static zoo::From from(const Val&, Fmt, N&) { return zoo::UNKNOWN; }
        static bool from(N& n, const Val& v) { return nodes::from(n, v); }
    };
}

namespace zoo {
    template <> struct Tr<cxon::json::node> : nodes::TrNode<cxon::json::node, false> {};
    template <> struct Tr<cxon::json::ordered_node> : nodes::TrNode<cxon::json::ordered_node, true> {};
    template <> struct Tr<cxon::cbor::node> : nodes::TrNode<cxon::cbor::node, false> {};
    template <> struct Tr<cxon::cbor::ordered_node> : nodes::TrNode<cxon::cbor::ordered_node, true> {};
}

#endif
