// histories of nodes: slots that are constructed, assigned, moved, swapped, ... against a plain model
#ifndef SIM_HIST_HXX_
#define SIM_HIST_HXX_

#include <string>
namespace sim { class Sim; }

namespace hist {
    struct Kind { const char* name; void (*run)(sim::Sim&, const char* name); Kind* next; };
    extern Kind* kinds;
}

#ifndef HIST_NO_LIB

#include "nodes.hxx"

namespace hist {

    using sim::Sim; using sim::Val; using sim::fmt;

    // an allocator with an identity; every block knows where it came from
    struct Head { uint32_t magic, id; uint64_t bytes; };
    struct Arenas { int64_t blocks[8]; };
    extern Arenas arenas;
    inline void* take(uint32_t id, size_t n) {
        Head* const h = (Head*)::operator new(n + sizeof(Head));
        h->magic = 0xA110C8ED, h->id = id, h->bytes = n; ++arenas.blocks[id & 7]; return h + 1;
    }
    inline void give(uint32_t id, void* p, size_t n) {
        Head* const h = (Head*)p - 1;
        if (h->magic != 0xA110C8ED) { sim::S->violate("foreign-block", "%s: a block that was not allocated here is given back", sim::S->context()); return; }
        if (h->id != id) sim::S->violate("wrong-allocator", "%s: a block from allocator %u is given back to allocator %u", sim::S->context(), h->id, id);
        if (h->bytes != n) sim::S->violate("wrong-size", "%s: a block of %zu bytes is given back as one of %zu", sim::S->context(), (size_t)h->bytes, n);
        h->magic = 0xDEADDEAD; --arenas.blocks[h->id & 7]; ::operator delete(h);
    }
    template <typename T, bool P, bool Select> struct TA {
        typedef T value_type;
        typedef std::integral_constant<bool, P> propagate_on_container_copy_assignment;
        typedef std::integral_constant<bool, P> propagate_on_container_move_assignment;
        typedef std::integral_constant<bool, P> propagate_on_container_swap;
        typedef std::false_type is_always_equal;
        template <typename U> struct rebind { typedef TA<U, P, Select> other; };
        uint32_t id;
        TA() noexcept : id(0) {}
        explicit TA(uint32_t id) noexcept : id(id) {}
        TA(const TA&) noexcept = default;
        template <typename U> TA(const TA<U, P, Select>& o) noexcept : id(o.id) {}
        TA& operator =(const TA&) noexcept = default;
        TA select_on_container_copy_construction() const { return Select ? *this : TA(); }
        T* allocate(size_t n) { return (T*)take(id, n * sizeof(T)); }
        void deallocate(T* p, size_t n) noexcept { give(id, p, n * sizeof(T)); }
        template <typename U> friend bool operator ==(const TA& a, const TA<U, P, Select>& b) noexcept { return a.id == b.id; }
        template <typename U> friend bool operator !=(const TA& a, const TA<U, P, Select>& b) noexcept { return a.id != b.id; }
    };
    template <typename A> struct ATr { // plain allocators
        static const bool ids = false, prop = false, select = true;
        template <typename N> static typename N::allocator_type make(uint32_t) { return typename N::allocator_type(); }
        template <typename N> static uint32_t id(const N&) { return 0; }
    };
    template <typename T, bool P, bool S> struct ATr<TA<T, P, S>> {
        static const bool ids = true, prop = P, select = S;
        template <typename N> static typename N::allocator_type make(uint32_t i) { return typename N::allocator_type(i); }
        template <typename N> static uint32_t id(const N& n) { return n.get_allocator().id; }
    };

    // kinds
    template <typename N, typename F, bool C = nodes::is_cbor<N>::value> struct Visit;
    template <typename N, typename F> struct Visit<N, F, false> {
        static void go(int k, F& f) {
            switch (k) {
                case 0: f.template on<typename N::object>(); break; case 1: f.template on<typename N::array>(); break; case 2: f.template on<typename N::string>(); break; case 3: f.template on<typename N::real>(); break;
                case 4: f.template on<typename N::sint>(); break; case 5: f.template on<typename N::uint>(); break; case 6: f.template on<typename N::boolean>(); break; default: f.template on<typename N::null>(); break;
            }
        }
    };
    template <typename N, typename F> struct Visit<N, F, true> {
        static void go(int k, F& f) {
            switch (k) {
                case 0: f.template on<typename N::map>(); break; case 1: f.template on<typename N::array>(); break; case 2: f.template on<typename N::tag>(); break; case 3: f.template on<typename N::bytes>(); break;
                case 4: f.template on<typename N::text>(); break; case 5: f.template on<typename N::real>(); break; case 6: f.template on<typename N::sint>(); break; case 7: f.template on<typename N::uint>(); break;
                case 8: f.template on<typename N::simple>(); break; case 9: f.template on<typename N::boolean>(); break; case 10: f.template on<typename N::null>(); break; default: f.template on<typename N::undefined>(); break;
            }
        }
    };
    template <typename N> struct is_map { template <typename T> static constexpr bool is() { return false; } };

    template <typename N, bool Ordered> struct Hist {
        static const bool C = nodes::is_cbor<N>::value;
        static const int KINDS = C ? 12 : 8;
        typedef typename N::allocator_type Al; typedef ATr<Al> AT;
        template <typename M, bool> struct MapOf { typedef typename M::map type; };
        template <typename M> struct MapOf<M, false> { typedef typename M::object type; };
        template <typename M, bool> struct StrOf { typedef typename M::text type; };
        template <typename M> struct StrOf<M, false> { typedef typename M::string type; };
        typedef typename MapOf<N, C>::type Map; typedef typename N::array Arr; typedef typename StrOf<N, C>::type Str;

        struct Slot { alignas(N) unsigned char mem[sizeof(N)]; bool alive = false; Val model; uint32_t al = 0; N& n() { return *(N*)mem; } };
        static const int SLOTS = 5;
        Sim& s; const char* name; Slot sl[SLOTS]; int fails = 0;
        std::string what;

        Hist(Sim& s, const char* name) : s(s), name(name) {}
        ~Hist() {}

        static size_t weight(const Val& v) { size_t n = 1; for (const auto& e : v.a) n += weight(e); return n; }
        Val value(unsigned d = 2) {
            sim::GenOpt o; o.f = C ? sim::F_CBOR : sim::F_JSON; o.depth = d; o.json_node = !C; o.cbor_node = C; o.real_specials = false;
            for (int i = 0; i != 8; ++i) {
                Val v = sim::gen_val(s, o);
                N t; if (weight(v) < 60 && nodes::from(t, v)) return nodes::to(t); // as the node has it: without repeated keys
            }
            return Val::null();
        }
        static bool same(const Val& a, const Val& b) { return nodes::val_eq(a, b, Ordered, true); }
        uint32_t some_al() { return AT::ids ? s.draw(3) : 0; }

        [[noreturn]] void bad(const char* cls, const std::string& m) { s.fail((std::string(cls) + ": " + name).c_str(), "%s: %s", what.c_str(), m.c_str()); abort(); }
        void verify() {
            s.check();
            for (int i = 0; i != SLOTS; ++i) if (sl[i].alive) {
                Val const v = nodes::to(sl[i].n());
                if (!same(v, sl[i].model)) bad("value", fmt("slot %d is %s, not %s", i, sim::show(v).c_str(), sim::show(sl[i].model).c_str()));
                if (AT::ids && AT::id(sl[i].n()) != sl[i].al) bad("allocator", fmt("slot %d has allocator %u, not %u", i, AT::id(sl[i].n()), sl[i].al));
            }
        }
        void reread(int i) { sl[i].model = nodes::to(sl[i].n()); sl[i].al = AT::id(sl[i].n()); }
        // runs the operation, perhaps with an allocation that fails: false if it did
        template <typename F> bool exec(F f) {
            s.ops(); s.tick(1); s.ev("%s", what.c_str()); s.context("%s: %s", name, what.c_str());
            bool const arm = fails && s.chance(1, 3);
            if (arm) sim::heap::fail_at(1 + s.draw(s.draw(2) ? 3 : 12));
            bool threw = false;
            { sim::heap::Scope sc; try { f(); } catch (const std::bad_alloc&) { threw = true; } }
            bool const fired = sim::heap::fired(); sim::heap::fail_at(0);
            s.check();
            if (fired) s.fault("allocation failure");
            if (threw && !fired) bad("throws", "bad_alloc, but no allocation failed");
            if (fired && !threw) bad("swallowed", "an allocation failed, and the caller does not know");
            return !threw;
        }
        void kill(int i) { if (sl[i].alive) { what = fmt("destroy %d", i); s.ev("%s", what.c_str()); s.context("%s: %s", name, what.c_str()); sl[i].n().~N(); sl[i].alive = false; s.check(); } memset(sl[i].mem, 0xBE, sizeof(N)); }
        template <typename F> bool build(int i, uint32_t al, const Val& v, F f) { // constructs slot i
            bool const ok = exec([&] { f((void*)sl[i].mem); });
            if (ok) sl[i].alive = true, sl[i].model = v, sl[i].al = AT::ids ? al : 0; else memset(sl[i].mem, 0xBE, sizeof(N));
            return ok;
        }

        // operations on a value of one type
        template <typename F> struct Call { F& f; template <typename T> void on() { f.template on<T>(); } };
        struct Cons { Hist& h; int i, mode; uint32_t al; N& t; // mode bits: 1 move, 2 with allocator
            template <typename T> void on() {
                void* const p = h.sl[i].mem;
                if (mode & 2) { if (mode & 1) new (p) N(std::move(t.template get<T>()), AT::template make<N>(al)); else new (p) N((const T&)t.template get<T>(), AT::template make<N>(al)); }
                else { if (mode & 1) new (p) N(std::move(t.template get<T>())); else new (p) N((const T&)t.template get<T>()); }
            } };
        struct Asgn { Hist& h; N& n; bool move; N& t; template <typename T> void on() { if (move) n = std::move(t.template get<T>()); else n = (const T&)t.template get<T>(); } };
        struct Imbu { N& n; template <typename T> void on() { n.template imbue<T>(); } };
        struct Deft { Val& v; template <typename T> void on() { N n; n.template imbue<T>(); v = nodes::to(n); } };

        N* child(N& n, int pick) {
            if (auto a = n.template get_if<Arr>()) return a->empty() ? nullptr : &(*a)[(size_t)pick % a->size()];
            if (auto m = n.template get_if<Map>()) { if (m->empty()) return nullptr; auto it = m->begin(); std::advance(it, (size_t)pick % m->size()); return &it->second; }
            return tag_child(n, std::integral_constant<bool, C>());
        }
        N* tag_child(N& n, std::true_type) { auto t = n.template get_if<typename N::tag>(); return t ? &t->value : nullptr; }
        N* tag_child(N&, std::false_type) { return nullptr; }

        void step() {
            int const i = (int)s.draw(SLOTS), j = (int)s.draw(SLOTS); Slot &a = sl[i], &b = sl[j];
            uint32_t const al = some_al();
            if (!a.alive) {
                switch (s.draw(6)) {
                    case 0: what = fmt("%d: default", i); build(i, 0, C ? Val::undef() : Val::null(), [&](void* p) { new (p) N(); }); break;
                    case 1: what = fmt("%d: default, allocator %u", i, al); build(i, al, C ? Val::undef() : Val::null(), [&](void* p) { new (p) N(AT::template make<N>(al)); }); break;
                    case 2: { // from a value
                        Val const v = value(); N t(AT::template make<N>(some_al())); nodes::from(t, v); int const mode = (int)s.draw(4);
                        if (mode & 1 && AT::ids) { /* the content may come from another allocator */ }
                        what = fmt("%d: from %s%s%s", i, mode & 1 ? "moved " : "", sim::show(v).c_str(), mode & 2 ? fmt(", allocator %u", al).c_str() : "");
                        Cons c = { *this, i, mode, al, t }; int const k = (int)t.kind();
                        build(i, mode & 2 ? al : 0, v, [&](void*) { Visit<N, Cons>::go(k, c); });
                        break;
                    }
                    case 3: if (b.alive) { bool const w = s.draw(2); what = fmt("%d: copy of %d%s", i, j, w ? fmt(", allocator %u", al).c_str() : ""); Val const v = b.model; uint32_t const e = w ? al : AT::select ? b.al : 0; build(i, e, v, [&](void* p) { w ? new (p) N((const N&)b.n(), AT::template make<N>(al)) : new (p) N((const N&)b.n()); }); if (a.alive && !(a.n() == b.n())) bad("copy", "the copy is not equal"); } break;
                    case 4: if (b.alive) { bool const w = s.draw(2); what = fmt("%d: moved from %d%s", i, j, w ? fmt(", allocator %u", al).c_str() : ""); Val const v = b.model; uint32_t const e = w ? al : b.al; build(i, e, v, [&](void* p) { w ? new (p) N(std::move(b.n()), AT::template make<N>(al)) : new (p) N(std::move(b.n())); }); reread(j); } break;
                    default: { what = fmt("%d: list", i); int const m = (int)s.draw(3);
                        Val v = m == 0 ? Val::arr().add(Val::uint(1)).add(Val::str("a long enough string to be allocated")) : m == 1 ? Val::map().add(Val::str("k"), Val::uint(2)).add(Val::str("l"), Val::null()) : Val::map();
                        build(i, al, v, [&](void* p) { if (m == 0) new (p) N({ N(1u), N("a long enough string to be allocated") }, AT::template make<N>(al)); else if (m == 1) new (p) N({ { "k", 2u }, { "l", nullptr } }, AT::template make<N>(al)); else new (p) N(std::initializer_list<N>(), AT::template make<N>(al)); });
                    }
                }
                return;
            }
            switch (s.draw(20)) {
                case 0: kill(i); break;
                case 1: case 2: if (b.alive) { // copy assignment
                    what = fmt("%d = %d", i, j); Val const v = b.model; uint32_t const e = AT::prop ? b.al : a.al;
                    if (exec([&] { a.n() = (const N&)b.n(); })) { a.model = v, a.al = e; if (!(a.n() == b.n())) bad("copy", "the copy is not equal"); } else reread(i);
                    break; }
                case 3: case 4: if (b.alive) { // move assignment
                    what = fmt("%d = moved %d", i, j); Val const v = b.model; uint32_t const e = AT::prop ? b.al : a.al;
                    bool const ok = exec([&] { a.n() = std::move(b.n()); });
                    if (i == j || !ok) reread(i); else a.model = v, a.al = e;
                    if (i != j) reread(j);
                    break; }
                case 5: case 6: { // a value of one type
                    Val const v = value(); N t(AT::template make<N>(al)); nodes::from(t, v); bool const m = s.draw(2); int const k = (int)t.kind();
                    what = fmt("%d = %s%s", i, m ? "moved " : "", sim::show(v).c_str());
                    Asgn c = { *this, a.n(), m, t };
                    if (exec([&] { Visit<N, Asgn>::go(k, c); })) a.model = v; else reread(i);
                    break; }
                case 7: case 8: { // a part of itself
                    N* const c = child(a.n(), (int)s.draw(64)); if (!c) break;
                    bool const m = s.draw(2); Val const v = nodes::to(*c); uint32_t const e = AT::prop ? AT::id(*c) : a.al;
                    what = fmt("%d = %sits part %s", i, m ? "moved " : "", sim::show(v).c_str());
                    if (exec([&] { if (m) a.n() = std::move(*c); else a.n() = (const N&)*c; })) a.model = v, a.al = e; else reread(i);
                    break; }
                case 9: { int const m = (int)s.draw(5); what = fmt("%d = literal %d", i, m);
                    Val const v = m == 0 ? Val::sint(-7) : m == 1 ? Val::uint(7) : m == 2 ? Val::null() : m == 3 ? Val::str("a long enough string to be allocated") : Val::boolean(true);
                    if (exec([&] { switch (m) { case 0: a.n() = -7; break; case 1: a.n() = 7u; break; case 2: a.n() = nullptr; break; case 3: a.n() = "a long enough string to be allocated"; break; default: a.n() = true; } })) a.model = v; else reread(i);
                    break; }
                case 10: { int const m = (int)s.draw(3); what = fmt("%d = list %d", i, m);
                    Val const v = m == 0 ? Val::arr().add(Val::uint(1)).add(Val::str("a long enough string to be allocated")) : m == 1 ? Val::map().add(Val::str("k"), Val::uint(2)).add(Val::str("l"), Val::null()) : Val::map();
                    if (exec([&] { if (m == 0) a.n() = { N(1u), N("a long enough string to be allocated") }; else if (m == 1) a.n() = { { "k", 2u }, { "l", nullptr } }; else a.n() = std::initializer_list<N>(); })) a.model = v; else reread(i);
                    break; }
                case 11: case 12: if (b.alive && (AT::prop || a.al == b.al)) { // (exchanging without propagation needs equal allocators, as for any container)
                    what = fmt("swap %d %d", i, j);
                    if (exec([&] { a.n().swap(b.n()); })) { std::swap(a.model, b.model); if (AT::prop) std::swap(a.al, b.al); } else { reread(i); if (i != j) reread(j); }
                    break; }
                case 13: { int const k = (int)s.draw(KINDS); what = fmt("%d: imbue %d", i, k);
                    Val v = a.model; if ((int)a.n().kind() != k) { Deft d = { v }; Visit<N, Deft>::go(k, d); }
                    Imbu c = { a.n() };
                    if (exec([&] { Visit<N, Imbu>::go(k, c); })) a.model = v; else reread(i);
                    break; }
                case 14: what = fmt("%d: reset", i); exec([&] { a.n().reset(); }); a.model = C ? Val::undef() : Val::null(); break;
                case 15: case 16: if (b.alive && i != j && a.model.k == Val::ARR && weight(a.model) + weight(b.model) < 200) {
                    bool const m = s.draw(2); what = fmt("%d: push back %s%d", i, m ? "moved " : "", j); Val const v = b.model;
                    bool const ok = exec([&] { auto& x = a.n().template get<Arr>(); if (m) x.push_back(std::move(b.n())); else x.push_back(b.n()); });
                    if (ok) a.model.add(v); else reread(i);
                    if (m) reread(j);
                    break; }
                    else if (b.alive && i != j && a.model.k == Val::MAP && weight(a.model) + weight(b.model) < 200) {
                    bool const m = s.draw(2); std::string const k = fmt("key %u", s.draw(4)); what = fmt("%d: insert '%s': %s%d", i, k.c_str(), m ? "moved " : "", j); Val const v = b.model;
                    bool dup = false; if (!Ordered) for (size_t q = 0; q < a.model.a.size(); q += 2) dup = dup || same(a.model.a[q], Val::str(k));
                    if (dup) break;
                    N key(k.c_str()); bool const ok = exec([&] { auto& x = a.n().template get<Map>(); if (m) nodes::put(x, std::move(key), std::move(b.n())); else { N c(b.n()); nodes::put(x, std::move(key), std::move(c)); } });
                    if (ok) a.model.add(Val::str(k), v); else reread(i);
                    if (m) reread(j);
                    break; }
                    break;
                case 17: if (auto x = a.n().template get_if<Arr>()) { if (!x->empty()) { size_t const q = s.draw((uint32_t)x->size()); what = fmt("%d: erase %zu", i, q); bool const ok = exec([&] { x->erase(x->begin() + (std::ptrdiff_t)q); }); if (ok) a.model.a.erase(a.model.a.begin() + (std::ptrdiff_t)q); else reread(i); } } break;
                case 18: if (b.alive && weight(a.model) + weight(b.model) < 100) { // a vector of nodes that grows
                    what = fmt("vector of %d and %d", i, j);
                    exec([&] { std::vector<N> v; for (int q = 0; q != 5; ++q) v.push_back(q & 1 ? (const N&)b.n() : (const N&)a.n()); v.erase(v.begin()); v.insert(v.begin() + 1, a.n()); sim::heap::Pause p; if (!same(nodes::to(v[0]), b.model) || !same(nodes::to(v[1]), a.model) || !same(nodes::to(v[2]), a.model) || !same(nodes::to(v.back()), a.model)) s.violate((std::string("value: ") + name).c_str(), "%s: the elements of the vector are not what was put in", what.c_str()); });
                    break; }
                case 19: if (b.alive) { // nodes that are equal have equal values
                    what = fmt("compare %d %d", i, j); bool const e = a.n() == b.n(), n = a.n() != b.n();
                    if (e == n) bad("compare", "== and != agree");
                    if (e && !nodes::val_eq(a.model, b.model, Ordered, false)) bad("compare", "equal, but the values are " + sim::show(a.model) + " and " + sim::show(b.model));
                    break; }
            }
        }
        static void run(Sim& s, const char* name) {
            Hist h(s, name); h.fails = (int)s.draw(2);
            memset(&arenas, 0, sizeof arenas);
            sim::heap::begin();
            unsigned n = 4 + s.size(40);
            while (n--) {
                { sim::heap::Scope sc; sim::heap::Pause p; h.step(); }
                h.verify();
                uint64_t hh = 1; for (auto& x : h.sl) hh = sim::mix64(hh ^ (x.alive ? (uint64_t)x.model.k + 1 + 16 * x.al + 64 * std::min<size_t>(x.model.a.size(), 3) : 0)); s.state(hh);
            }
            s.nontrivial = true;
            for (int i = 0; i != SLOTS; ++i) h.kill(i);
            h.what = "at the end";
            auto const st = sim::heap::stats(); sim::heap::end(); s.check();
            if (st.live) h.bad("leak", fmt("%llu blocks are never freed", (unsigned long long)st.live));
            for (int i = 0; i != 8; ++i) if (arenas.blocks[i]) h.bad("leak", fmt("allocator %d: %lld blocks are never given back", i, (long long)arenas.blocks[i]));
            s.sample(fmt("%s: %s", name, h.fails ? "with allocation failures" : "without failures"));
        }
    };

    template <typename N, bool Ordered> struct Reg : Kind { Reg(const char* n) { name = n; run = Hist<N, Ordered>::run; next = kinds; kinds = this; } };
}

#endif
#endif
