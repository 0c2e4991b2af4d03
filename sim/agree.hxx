// equality, order and hash of nodes with a history, and indexes of them
#ifndef SIM_AGREE_HXX_
#define SIM_AGREE_HXX_

namespace sim { class Sim; }
namespace agree {
    struct Kind { const char* name; void (*run)(sim::Sim&, const char* name); Kind* next; };
    extern Kind* kinds;
}

#ifndef AGREE_NO_LIB

#include "hist.hxx"
#include <cmath>
#include <map>
#include <set>
#include <sstream>
#include <unordered_map>
#include <unordered_set>

namespace agree {

    using sim::Sim; using sim::Val; using sim::fmt;

    // what the nodes have to agree with: kind and content, found out without comparing or hashing a node
    template <typename N> struct Same;
    template <typename N> bool same(const N& a, const N& b) { return Same<N>::is(a, b); }
    template <typename N, typename A> bool same_list(const A& a, const A& b) {
        if (a.size() != b.size()) return false;
        auto j = b.begin(); for (auto i = a.begin(); i != a.end(); ++i, ++j) if (!same<N>(*i, *j)) return false;
        return true;
    }
    template <typename N, typename M> bool same_map(const M& a, const M& b, bool ordered) {
        if (a.size() != b.size()) return false;
        if (ordered) { auto j = b.begin(); for (auto i = a.begin(); i != a.end(); ++i, ++j) if (!same<N>(i->first, j->first) || !same<N>(i->second, j->second)) return false; return true; }
        for (const auto& e : a) { bool hit = false; for (const auto& f : b) if (same<N>(e.first, f.first) && same<N>(e.second, f.second)) hit = true; if (!hit) return false; }
        return true;
    }
    template <typename M> struct is_ordered : std::false_type {};
    template <typename E, typename A> struct is_ordered<std::vector<E, A>> : std::true_type {};
    template <typename Tr> struct Same<cxon::json::basic_node<Tr>> {
        typedef cxon::json::basic_node<Tr> N; typedef typename N::object Map;
        static bool is(const N& a, const N& b) {
            using cxon::json::node_kind;
            if (a.kind() != b.kind()) return false;
            switch (a.kind()) {
                case node_kind::object: return same_map<N>(a.template get<Map>(), b.template get<Map>(), is_ordered<Map>::value);
                case node_kind::array: return same_list<N>(a.template get<typename N::array>(), b.template get<typename N::array>());
                case node_kind::string: { const auto &x = a.template get<typename N::string>(), &y = b.template get<typename N::string>(); return x.size() == y.size() && memcmp(x.data(), y.data(), x.size()) == 0; }
                case node_kind::real: return a.template get<typename N::real>() == b.template get<typename N::real>();
                case node_kind::sint: return a.template get<typename N::sint>() == b.template get<typename N::sint>();
                case node_kind::uint: return a.template get<typename N::uint>() == b.template get<typename N::uint>();
                case node_kind::boolean: return a.template get<typename N::boolean>() == b.template get<typename N::boolean>();
                case node_kind::null: return true;
            }
            return false;
        }
    };
    template <typename Tr> struct Same<cxon::cbor::basic_node<Tr>> {
        typedef cxon::cbor::basic_node<Tr> N; typedef typename N::map Map;
        static bool is(const N& a, const N& b) {
            using cxon::cbor::node_kind;
            if (a.kind() != b.kind()) return false;
            switch (a.kind()) {
                case node_kind::map: return same_map<N>(a.template get<Map>(), b.template get<Map>(), is_ordered<Map>::value);
                case node_kind::array: return same_list<N>(a.template get<typename N::array>(), b.template get<typename N::array>());
                case node_kind::tag: return a.template get<typename N::tag>().tag == b.template get<typename N::tag>().tag && is(a.template get<typename N::tag>().value, b.template get<typename N::tag>().value);
                case node_kind::bytes: { const auto &x = a.template get<typename N::bytes>(), &y = b.template get<typename N::bytes>(); return x.size() == y.size() && (x.empty() || memcmp(x.data(), y.data(), x.size()) == 0); }
                case node_kind::text: { const auto &x = a.template get<typename N::text>(), &y = b.template get<typename N::text>(); return x.size() == y.size() && memcmp(x.data(), y.data(), x.size()) == 0; }
                case node_kind::real: return a.template get<typename N::real>() == b.template get<typename N::real>();
                case node_kind::sint: return a.template get<typename N::sint>() == b.template get<typename N::sint>();
                case node_kind::uint: return a.template get<typename N::uint>() == b.template get<typename N::uint>();
                case node_kind::simple: return a.template get<typename N::simple>().value == b.template get<typename N::simple>().value;
                case node_kind::boolean: return a.template get<typename N::boolean>() == b.template get<typename N::boolean>();
                case node_kind::null: case node_kind::undefined: return true;
            }
            return false;
        }
    };

    inline bool has_nan(const Val& v) { if (v.k == Val::REAL && v.d != v.d) return true; for (const auto& e : v.a) if (has_nan(e)) return true; return false; }
    inline size_t weight(const Val& v) { size_t n = 1; for (const auto& e : v.a) n += weight(e); return n; }

    template <typename N, bool C = nodes::is_cbor<N>::value> struct Near;   // changes of a leaf
    template <typename N> struct Near<N, false> {
        typedef typename N::object Map; typedef typename N::string Str;
        static N* tagged(N&) { return nullptr; }
        static bool other(Sim&, N&) { return false; }
        static void word(Sim& s, N& n) { if (s.draw(2)) n.template imbue<typename N::null>(); else n.template imbue<typename N::boolean>() = s.draw(2); }
        static void other_text(Sim&, N& n) { n.template imbue<typename N::null>(); }
    };
    template <typename N> struct Near<N, true> {
        typedef typename N::map Map; typedef typename N::text Str;
        static N* tagged(N& n) { auto t = n.template get_if<typename N::tag>(); return t ? &t->value : nullptr; }
        static bool other(Sim& s, N& n) {
            if (auto t = n.template get_if<typename N::tag>()) { if (s.draw(3)) t->tag += s.draw(2) ? 1 : -1; else { N x = t->value; n = std::move(x); } return true; }
            if (auto b = n.template get_if<typename N::bytes>()) {
                switch (s.draw(4)) {
                    case 0: { std::string const t(b->begin(), b->end()); n.template imbue<Str>().assign(t.data(), t.size()); break; }
                    case 1: b->push_back(0); break;
                    case 2: if (!b->empty()) b->pop_back(); break;
                    default: if (!b->empty()) (*b)[s.draw((uint32_t)b->size())] ^= 1u << s.draw(8);
                }
                return true;
            }
            if (auto q = n.template get_if<typename N::simple>()) { unsigned char const v = q->value; if (s.draw(2)) q->value = (unsigned char)(v ^ 1); else n.template imbue<typename N::uint>() = v; return true; }
            return false;
        }
        static void word(Sim& s, N& n) {
            switch (s.draw(4)) {
                case 0: n.template imbue<typename N::null>(); break;
                case 1: n.template imbue<typename N::undefined>(); break;
                case 2: n.template imbue<typename N::simple>() = typename N::simple((unsigned char)s.draw(4)); break;
                default: n.template imbue<typename N::boolean>() = s.draw(2);
            }
        }
        static void other_text(Sim&, N& n) { std::string const t(n.template get<Str>().data(), n.template get<Str>().size()); auto& b = n.template imbue<typename N::bytes>(); b.assign(t.begin(), t.end()); }
    };

    template <typename N, bool Ordered> struct Agree {
        static const bool C = nodes::is_cbor<N>::value;
        typedef Near<N> Nr; typedef typename Nr::Map Map; typedef typename Nr::Str Str; typedef typename N::array Arr;
        typedef typename N::real Real; typedef typename N::sint Sint; typedef typename N::uint Uint;
        static const int SLOTS = 5;
        Sim& s; const char* name; std::string what; bool fails;
        N sl[SLOTS];
        std::vector<N> in; std::set<N> set; std::unordered_set<N> uset; std::map<N, unsigned> map; std::unordered_map<N, unsigned, cxon::hash<N>> umap;  // the indexes, and what is in them

        Agree(Sim& s, const char* name) : s(s), name(name), fails(false) {}
        [[noreturn]] void bad(const char* cls, const std::string& m) { s.fail((std::string(cls) + ": " + name).c_str(), "%s: %s", what.c_str(), m.c_str()); abort(); }
        static std::string show(const N& n) { return fmt("%s (kind %d)", sim::show(nodes::to(n)).c_str(), (int)n.kind()); }

        Val value() {
            sim::GenOpt o; o.f = C ? sim::F_CBOR : sim::F_JSON; o.depth = 1 + s.draw(2); o.json_node = !C; o.cbor_node = C; o.real_specials = false;
            for (int i = 0; i != 8; ++i) { Val v = sim::gen_val(s, o); N t; if (weight(v) < 24 && !has_nan(v) && nodes::from(t, v)) return nodes::to(t); }
            return Val::null();
        }
        static N* child(N& n, unsigned pick) {
            if (auto a = n.template get_if<Arr>()) return a->empty() ? nullptr : &(*a)[pick % a->size()];
            if (auto m = n.template get_if<Map>()) { if (m->empty()) return nullptr; auto it = m->begin(); std::advance(it, pick % m->size()); return &it->second; }
            return Nr::tagged(n);
        }
        // changes n a little: into something that is easily taken for it, for the most part
        void change(N& n) {
            N* p = &n; while (s.draw(4)) { N* const c = child(*p, s.draw(16)); if (!c) break; p = c; }
            if (Nr::other(s, *p)) return;
            if (auto i = p->template get_if<Sint>()) {
                Sint const v = *i;
                switch (s.draw(5)) { case 0: *i = (Sint)((Uint)v + 1); break; case 1: p->template imbue<Uint>() = (Uint)v; break; case 2: p->template imbue<Real>() = (Real)v; break; case 3: *i = (Sint)(0 - (Uint)v); break; default: *i = (Sint)((Uint)v ^ (Uint)1 << s.draw(64)); }
            }
            else if (auto i = p->template get_if<Uint>()) {
                Uint const v = *i;
                switch (s.draw(5)) { case 0: *i = v + 1; break; case 1: p->template imbue<Sint>() = (Sint)v; break; case 2: p->template imbue<Real>() = (Real)v; break; case 3: *i = v - 1; break; default: *i = v ^ (Uint)1 << s.draw(64); }
            }
            else if (auto r = p->template get_if<Real>()) {
                Real const v = *r;
                switch (s.draw(4)) { case 0: *r = -v; break; case 1: *r = std::nextafter(v, s.draw(2) ? (Real)INFINITY : -(Real)INFINITY); break; case 2: if (v > -1e18 && v < 1e18) p->template imbue<Sint>() = (Sint)v; break; default: *r = s.draw(2) ? (Real)-0.0 : (Real)0; }
            }
            else if (auto t = p->template get_if<Str>()) {
                switch (s.draw(5)) { case 0: t->push_back("a\xFF\0z"[s.draw(4)]); break; case 1: if (!t->empty()) t->pop_back(); break; case 2: Nr::other_text(s, *p); break; case 3: t->clear(); break; default: if (!t->empty()) (*t)[s.draw((uint32_t)t->size())] ^= (char)(1u << s.draw(8)); }
            }
            else if (auto a = p->template get_if<Arr>()) {
                switch (s.draw(4)) { case 0: a->emplace_back(); break; case 1: if (!a->empty()) a->pop_back(); break; case 2: if (a->size() > 1) { size_t const q = s.draw((uint32_t)a->size() - 1); std::swap((*a)[q], (*a)[q + 1]); } break; default: if (a->empty()) p->template imbue<Map>(); else a->erase(a->begin()); }
            }
            else if (auto m = p->template get_if<Map>()) {
                switch (s.draw(3)) { case 0: { N k, v; nodes::from(k, Val::str(fmt("%u", s.draw(4)))); nodes::put(*m, std::move(k), std::move(v)); break; } case 1: if (!m->empty()) { auto it = m->begin(); std::advance(it, s.draw((uint32_t)m->size())); m->erase(it); } break; default: if (m->empty()) p->template imbue<Arr>(); }
            }
            else Nr::word(s, *p);
        }

        void pair(const N& a, const N& b) {
            bool const e = same<N>(a, b), eq = a == b, ne = a != b, lt = a < b, gt = b < a;
            s.check();
            auto const both = [&] { return show(a) + " and " + show(b); };
            if (eq != e) bad("equality", both() + (eq ? " are equal" : " are not equal"));
            if (ne == eq) bad("inequality", both() + ": == and != agree");
            if (lt && gt) bad("order", both() + ": each is less than the other");
            if (e && (lt || gt)) bad("order", both() + " have the same content, but one is less");
            if (!e && !lt && !gt) bad("order", both() + " differ, but none is less");
            if (e && std::hash<N>()(a) != std::hash<N>()(b)) bad("hash", both() + " have different hashes");
            if (e && cxon::hash<N>()(a) != cxon::hash<N>()(b)) bad("hash", both() + " have different hashes (cxon)");
            s.probe(e ? "equal nodes" : a.kind() == b.kind() ? "different nodes of a kind" : "nodes of different kinds");
            s.state(((uint64_t)a.kind() * 16 + (uint64_t)b.kind()) * 4 + lt + 2 * gt);
        }
        void triple(const N& a, const N& b, const N& c) { if (a < b && b < c && !(a < c)) bad("order is not transitive", show(a) + ", " + show(b) + ", " + show(c)); }
        struct Content { Agree& h; const N &a, &b; template <typename T> void on() {
            const T& v = b.template get<T>(); bool const e = same<N>(a, b);
            if ((a == v) != e || (v == a) != e) h.bad("equality with a value", show(a) + " and the value of " + show(b));
            if ((a != v) == e || (v != a) == e) h.bad("inequality with a value", show(a) + " and the value of " + show(b));
        } };
        void content(const N& a, const N& b) {
            Content c = { *this, a, b }; hist::Visit<N, Content>::go((int)b.kind(), c);
            if (auto t = const_cast<N&>(b).template get_if<Str>()) if (t->find('\0') == t->npos) { // as a literal
                const char* const l = t->c_str(); bool const e = same<N>(a, b);
                if ((a == l) != e || (l == a) != e || (a != l) == e || (l != a) == e) bad("equality with a literal", show(a) + " and " + show(b));
            }
        }
        int find(const N& n) { for (size_t i = 0; i != in.size(); ++i) if (same<N>(in[i], n)) return (int)i; return -1; }
        void verify(int i) {
            const N& n = sl[i];
            for (int j = 0; j != SLOTS; ++j) { pair(n, sl[j]); pair(sl[j], n); content(n, sl[j]); }
            for (int j = 0; j != SLOTS; ++j) for (int k = 0; k != SLOTS; ++k) { triple(n, sl[j], sl[k]); triple(sl[j], n, sl[k]); triple(sl[j], sl[k], n); }
            for (auto& e : in) { pair(n, e); triple(n, e, in.front()); triple(in.front(), n, e); triple(in.back(), e, n); }
            size_t const q = find(n) < 0 ? 0 : 1;
            if (set.count(n) != q) bad("set", show(n) + (q ? " is in the set and is not found" : " is found in the set, where it is not"));
            if (uset.count(n) != q) bad("unordered_set", show(n) + (q ? " is in the set and is not found" : " is found in the set, where it is not"));
            if (map.count(n) != q) bad("map", show(n) + (q ? " is in the map and is not found" : " is found in the map, where it is not"));
            if (umap.count(n) != q) bad("unordered_map", show(n) + (q ? " is in the map and is not found" : " is found in the map, where it is not"));
        }
        void sizes() {
            if (set.size() != in.size() || uset.size() != in.size() || map.size() != in.size() || umap.size() != in.size()) bad("index", fmt("%zu nodes, but %zu, %zu, %zu and %zu in the indexes", in.size(), set.size(), uset.size(), map.size(), umap.size()));
            for (auto i = set.begin(), j = i; i != set.end(); i = j) if (++j != set.end() && (!(*i < *j) || *j < *i)) bad("set", show(*i) + " before " + show(*j));
        }
        template <typename F> bool exec(F f) {
            s.ops(); s.tick(1); s.ev("%s", what.c_str()); s.context("%s: %s", name, what.c_str());
            bool const arm = fails && s.chance(1, 3);
            if (arm) sim::heap::fail_at(1 + s.draw(s.draw(2) ? 3 : 12));
            bool threw = false;
            { sim::heap::Scope sc; try { f(); } catch (const std::bad_alloc&) { threw = true; } }
            bool const fired = sim::heap::fired(); sim::heap::fail_at(0);
            s.check();
            if (fired) s.fault("allocation failure");
            if (threw && !fired) bad("throws", "bad_alloc, but no allocation failed");
            if (fired && !threw) bad("swallowed", "an allocation failed, and the caller does not know");
            return !threw;
        }
        bool read(N& n, const std::string& d, unsigned how) {
            const char* const b = d.data(), * const e = b + d.size();
            if (C) {
                if (how & 1) { std::istringstream i(d); return !!cxon::from_bytes<cxon::CBOR<>>(n, std::istreambuf_iterator<char>(i), std::istreambuf_iterator<char>()); }
                return !!cxon::from_bytes<cxon::CBOR<>>(n, b, e);
            }
            if (how & 1) { std::istringstream i(d); return !!cxon::from_bytes<cxon::JSON<>>(n, std::istreambuf_iterator<char>(i), std::istreambuf_iterator<char>()); }
            return !!cxon::from_bytes<cxon::JSON<>>(n, b, e);
        }

        void step() {
            int const i = (int)s.draw(SLOTS), j = (int)s.draw(SLOTS); N &a = sl[i], &b = sl[j];
            switch (s.draw(18)) {
                case 0: case 12: { Val const v = value(); what = fmt("%d: new %s", i, sim::show(v).c_str()); N t; nodes::from(t, v); exec([&] { a = std::move(t); }); break; }
                case 1: case 2: { // the value of another, by way of one of its encodings
                    Val const v = nodes::to(b); std::string const d = sim::encode(s, v, C ? sim::F_CBOR : sim::F_JSON, s.draw(2)); unsigned const how = s.draw(4);
                    what = fmt("%d: read from an encoding of %d", i, j); N t; bool ok = false;
                    if (exec([&] { ok = read(t, d, how); }) && ok) a = std::move(t);
                    break; }
                case 3: what = fmt("%d = %d", i, j); exec([&] { a = (const N&)b; }); break;
                case 4: { what = fmt("%d: there and back", i); N t; exec([&] { t = std::move(a); N u(std::move(t)); a = std::move(u); }); break; }
                case 5: { what = fmt("%d and %d exchanged", i, j); exec([&] { std::swap(a, b); }); break; }
                case 6: case 7: case 13: case 14: case 15: case 16: { what = fmt("%d: %d, changed", i, j); N t(b); change(t); while (s.draw(2)) change(t); exec([&] { a = std::move(t); }); break; }
                case 8: case 9: { // into the indexes
                    what = fmt("%d inserted", i); if (find(a) >= 0) { auto const r = set.insert(a).second, q = uset.insert(a).second, p = map.emplace(a, 0u).second, u = umap.emplace(a, 0u).second; if (r || q || p || u) bad("index", show(a) + " is there twice"); break; }
                    if (in.size() > 12) break;
                    in.push_back(a); bool ok = exec([&] { if (!set.insert(a).second) bad("set", show(a) + " is not there and is not inserted"); });
                    ok = exec([&] { if (!uset.insert(a).second) bad("unordered_set", show(a) + " is not there and is not inserted"); }) && ok;
                    ok = exec([&] { if (!map.emplace(a, 1u).second) bad("map", show(a) + " is not there and is not inserted"); }) && ok;
                    ok = exec([&] { if (!umap.emplace(a, 1u).second) bad("unordered_map", show(a) + " is not there and is not inserted"); }) && ok;
                    if (!ok) { set.erase(a); uset.erase(a); map.erase(a); umap.erase(a); in.pop_back(); }
                    break; }
                case 10: { what = fmt("%d erased", i); int const q = find(a); size_t const n = q >= 0;
                    if (set.erase(a) != n || uset.erase(a) != n || map.erase(a) != n || umap.erase(a) != n) bad("index", show(a) + (n ? " is not erased" : " is erased, but was not there"));
                    if (q >= 0) in.erase(in.begin() + q);
                    break; }
                default: if (!in.empty()) { what = fmt("%d: from the index", i); auto const it = set.find(in[s.draw((uint32_t)in.size())]); if (it == set.end()) bad("set", "a node is lost"); exec([&] { a = *it; }); }
            }
            if (has_nan(nodes::to(a)) || weight(nodes::to(a)) > 80) a = N();
            verify(i); sizes();
        }
        static void run(Sim& s, const char* name) {
            Agree h(s, name); h.fails = s.draw(2);
            sim::heap::begin();
            for (int i = 0; i != SLOTS; ++i) { if (i && s.draw(2)) { h.sl[i] = h.sl[s.draw(i)]; h.change(h.sl[i]); } else nodes::from(h.sl[i], h.value()); if (has_nan(nodes::to(h.sl[i]))) h.sl[i] = N(); }
            for (unsigned n = 4 + s.size(30); n; --n) h.step();
            sim::heap::end();
            s.nontrivial = true;
            s.sample(fmt("%s: %s", name, h.fails ? "with allocation failures" : "without failures"));
        }
    };

    template <typename N, bool Ordered> struct Reg : Kind { Reg(const char* n) { name = n; run = Agree<N, Ordered>::run; next = kinds; kinds = this; } };
}

#endif
#endif
