// plain pointers: the memory comes from the allocator passed with the call
#include "zoo.hxx"
#include <memory_resource>
#include <set>
#include "cxon/lib/std/string.hxx"
#include "cxon/lib/std/vector.hxx"
#include "mem.hxx"
namespace mem {
    using namespace sim; using namespace zoo;

    // every object is made once and destroyed once
    struct CellError : std::exception { const char* what() const noexcept override { return "cell error"; } };
    struct Cell {
        int v; char* own; // a block of its own, so that objects that are not destroyed leak
        static std::set<const Cell*>* live; static uint64_t fail; static bool fired;
        void born() { heap::Pause p; if (fail && !--fail) { fired = true; throw CellError(); } own = new char[1]; if (live && !live->insert(this).second) S->violate("made twice", "%s: an object is made where one is", S->context()); }
        Cell() : v(0), own() { born(); }
        Cell(const Cell& c) : v(c.v), own() { born(); }
        Cell& operator =(const Cell& c) { if (live && (!live->count(this) || !live->count(&c))) S->violate("not made", "%s: an object that is not there is assigned", S->context()); v = c.v; return *this; }
        ~Cell() { heap::Pause p; if (live && !live->erase(this)) S->violate("destroyed twice", "%s: an object that is not there is destroyed", S->context()); delete[] own; }
    };
    std::set<const Cell*>* Cell::live = nullptr; uint64_t Cell::fail = 0; bool Cell::fired = false;
}
namespace cxon {
    template <typename X, typename II, typename Cx> auto read_value(mem::Cell& c, II& i, II e, Cx& cx) -> enable_for_t<X, JSON> { return read_value<X>(c.v, i, e, cx); }
    template <typename X, typename II, typename Cx> auto read_value(mem::Cell& c, II& i, II e, Cx& cx) -> enable_for_t<X, CBOR> { return read_value<X>(c.v, i, e, cx); }
}
namespace mem {
    // the elements of a target type
    template <typename T> struct El;
    template <> struct El<Cell> { static Val gen(Sim& s) { return Val::sint((int64_t)s.draw(2000) - 1000); } static bool same(const Cell& c, const Val& v) { return c.v == (int)(v.b ? -1 - (int64_t)v.u : (int64_t)v.u); } static bool zero(const Cell& c) { return c.v == 0; } };
    template <> struct El<int> { static Val gen(Sim& s) { return Val::sint((int64_t)s.draw(2000) - 1000); } static bool same(int c, const Val& v) { return c == (int)(v.b ? -1 - (int64_t)v.u : (int64_t)v.u); } static bool zero(int c) { return c == 0; } };
    template <> struct El<double> { static Val gen(Sim& s) { return Val::real((double)s.draw(2000) / 8 - 1); } static bool same(double c, const Val& v) { return c == v.d; } static bool zero(double c) { return c == 0; } };
    template <> struct El<std::string> { static Val gen(Sim& s) { return Val::str(sim::gen_utf8(s, 20) + std::string(s.draw(2) ? 20 : 0, 'q')); } static bool same(const std::string& c, const Val& v) { return c == v.s; } static bool zero(const std::string& c) { return c.empty(); } };
    template <> struct El<std::vector<Cell>> {
        static Val gen(Sim& s) { Val v = Val::arr(); size_t n = s.size(5); while (n--) v.add(El<Cell>::gen(s)); return v; }
        static bool same(const std::vector<Cell>& c, const Val& v) { if (c.size() != v.a.size()) return false; for (size_t i = 0; i != c.size(); ++i) if (!El<Cell>::same(c[i], v.a[i])) return false; return true; }
        static bool zero(const std::vector<Cell>& c) { return c.empty(); }
    };
    template <> struct El<char> {};

    template <typename T> struct Made { // what a pointer is made of: one value, or (CBOR) an array of them and a default one
        static const bool text = false;
        static Val gen(Sim& s, Fmt f) {
            if (s.chance(1, 12)) return Val::null();
            if (f != F_CBOR || s.chance(1, 4)) { Val v = El<T>::gen(s); return f == F_CBOR && v.k == Val::ARR ? Val::arr().add(v) : v; }
            Val v = Val::arr(); size_t n = s.size(s.draw(3) ? 9 : 40); while (n--) v.add(El<T>::gen(s)); return v;
        }
        static bool same(const T* p, size_t n, const Val& v) {
            if (v.k == Val::NUL) return !p;
            if (!p) return false;
            if (n == 1 && v.k != Val::ARR) return El<T>::same(*p, v);
            if (n == 1 && v.a.empty()) return El<T>::zero(*p);
            if (v.k == Val::ARR && n == v.a.size() + 1) { for (size_t i = 0; i + 1 != n; ++i) if (!El<T>::same(p[i], v.a[i])) return false; return El<T>::zero(p[n - 1]); }
            return n == 1 && El<T>::same(*p, v);
        }
    };
    template <> struct Made<char> {
        static Val gen(Sim& s, Fmt) { if (s.chance(1, 12)) return Val::null(); std::string t = sim::gen_utf8(s, s.draw(3) ? 20 : 90); for (char& c : t) if (!c) c = 'a'; return Val::str(t); }
        static bool same(const char* p, size_t n, const Val& v) { if (v.k == Val::NUL) return !p; return p && n == v.s.size() + 1 && memcmp(p, v.s.c_str(), n) == 0; }
    };

    template <typename X, typename T, typename II> ReadRes call(T*& p, II b, II e, II& end) {
        ReadRes r; S->ops();
        heap::Scope sc;
        try {
            auto const x = cxon::from_bytes<X>(p, b, e, cxon::allocator::set(std::allocator<char>()));
            r.ok = !x.ec; r.ec = x.ec.value(); end = x.end;
            if (!r.ok) { heap::Pause p; r.what = x.ec.message(); }
        }
        catch (const std::bad_alloc& x) { r.threw = r.bad_alloc = true; }
        catch (const std::exception& x) { r.threw = true; heap::Pause p; r.what = x.what(); }
        return r;
    }
    template <typename X, typename XL, typename T> ReadRes from(T*& p, Src k, Source& s) {
        switch (k) {
            case PTR: { Exact ex(s.bytes); const char *b = ex.b, *end = b; return call<X>(p, b, b + ex.n, end); }
            case RA: { typedef It<std::random_access_iterator_tag> I; I b(&s, 0), e(&s, (std::ptrdiff_t)s.bytes.size()), end = b; return call<XL>(p, b, e, end); }
            case FWD: { typedef It<std::forward_iterator_tag> I; I b(&s, 0), e(&s, (std::ptrdiff_t)s.bytes.size()), end = b; return call<XL>(p, b, e, end); }
            default: { StreamIt b(&s), e, end = b; return call<XL>(p, b, e, end); }
        }
    }
    template <typename T> bool tracked(const T*) { return false; }
    inline bool tracked(const Cell*) { return true; }

    template <typename X, typename XL, typename T, Fmt F> void run(Sim& s, const char* name) {
        Val const v = Made<T>::gen(s, F);
        std::string doc = sim::encode(s, v, F, s.draw((F == F_CBOR ? 2 : 1) + 1));
        bool const damaged = s.chance(1, 4); if (damaged) sim::damage(s, doc, F, 1);
        static const Src ks[] = { PTR, RA, FWD, STREAM };
        Src const k = ks[s.draw(4)]; int const how = (int)s.draw(6);
        std::string const where = fmt("%s %s from %s: %s", sim::name(F), name, zoo::name(k), hex(doc).c_str());
        s.ev("%s", where.c_str()); s.mix(doc.data(), doc.size()); s.sample(where); s.state(hash_bytes(doc.data(), doc.size(), (uint64_t)k + 8 * (uint64_t)how));
        s.context("%s", where.c_str());
        std::set<const Cell*> live; Cell::live = &live; Cell::fired = false;
        struct Off { ~Off() { Cell::live = nullptr; Cell::fail = 0; } } off;
        Source src(doc);
        heap::begin();
        T* p = nullptr;
        uint64_t const at = 1 + s.draw(how == 2 || how == 4 ? 40 : 12);
        if (how == 2) Cell::fail = at, s.ev("object %llu cannot be made", (unsigned long long)at);
        if (how == 1 || how == 3) heap::fail_at(at), s.ev("allocation %llu fails", (unsigned long long)at);
        if (how == 4) src.throw_at = at, s.ev("access %llu of the source fails", (unsigned long long)at);
        if (how == 5) { uint64_t const c = s.draw(400); heap::limit(1 + c); s.ev("there are %llu bytes", (unsigned long long)c); }
        ReadRes const r = from<X, XL>(p, k, src);
        bool const fired = Cell::fired || heap::fired() || src.threw;
        Cell::fail = 0; heap::fail_at(0); heap::limit(0);
        s.check();
        if (fired) s.fault(how == 5 ? "memory exhausted" : Cell::fired ? "constructor throws" : src.threw ? "source exception" : "allocation failure");
        if (fired != r.threw) s.fail(fired ? "swallowed" : "throws", "%s: %s", where.c_str(), r.threw ? r.what.c_str() : "the failure is not reported");
        if (!fired && !damaged && !r.ok) s.fail("not read", "%s: error %d (%s)", where.c_str(), r.ec, r.what.c_str());
        if (!r.ok) {
            if (p) s.fail("dangling", "%s: fails, but the pointer is set", where.c_str());
            s.probe(fired ? "interrupted" : "refused");
        }
        else {
            if (p) {
                size_t const n = heap::size_of(p) / sizeof(T);
                if (!damaged && !Made<T>::same(p, n, v)) s.fail("other content", "%s: %zu elements", where.c_str(), n);
                if (tracked(p) && live.size() != n) s.fail("not made", "%s: %zu elements, %zu objects", where.c_str(), n, live.size());
                { std::allocator<T> a; for (size_t i = 0; i != n; ++i) p[i].~T(); a.deallocate(p, n); }
                if (n > 1) s.probe("array");
            }
            s.nontrivial = true;
        }
        s.check();
        if (!live.empty()) s.fail("leak", "%s: %zu objects are not destroyed", where.c_str(), live.size());
        auto const st = heap::stats(); heap::end();
        if (st.live) s.fail("leak", "%s: %s, %llu blocks are never freed", where.c_str(), fired ? "interrupted" : r.ok ? "read" : "refused", (unsigned long long)st.live);
    }
#   define MEM_P(F, X, XL, T) static RegPtr ZOO_CAT(mp_, __COUNTER__)(#T "*", F, run<X, XL, T, F>);
    MEM_P(F_JSON, XJ, XJL, Cell) MEM_P(F_CBOR, XB, XB, Cell) MEM_P(F_CXCF, XC, XCL, Cell)
    MEM_P(F_JSON, XJ, XJL, int) MEM_P(F_CBOR, XB, XB, int)
    MEM_P(F_JSON, XJ, XJL, std::string) MEM_P(F_CBOR, XB, XB, std::string)
    MEM_P(F_JSON, XJ, XJL, std::vector<Cell>) MEM_P(F_CBOR, XB, XB, std::vector<Cell>)
    MEM_P(F_JSON, XJ, XJL, char) MEM_P(F_CBOR, XB, XB, char)
    MEM_P(F_CBOR, XB, XB, double)
}
