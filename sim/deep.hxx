// reading and writing of nodes with a configured depth, type-erased
#ifndef SIM_DEEP_HXX_
#define SIM_DEEP_HXX_

#include "io.hxx"
#include "val.hxx"
#ifdef SIM_DEEP_LIB
#   include "nodes.hxx"
#endif

namespace deep {
    struct DOp {
        const char* type; sim::Fmt f; unsigned limit; bool cbor_node, container;
        void* (*make)(); void (*drop)(void*); bool (*from)(void*, const sim::Val&); sim::Val (*to)(const void*);
        sim::ReadRes (*ptr)(void*, sim::Source&, bool& rd); sim::ReadRes (*stream)(void*, sim::Source&, bool& rd);
        sim::WriteRes (*write)(const void*, size_t cap, bool& rd);         // into a string (cap == -1) or a range
    };
    std::vector<DOp>& ops();
}

#ifdef SIM_DEEP_LIB
#include "nodes.hxx"

namespace deep {

    // `N: the depth limit, 0: as shipped
    template <unsigned N> struct Read {
        template <typename X, typename T, typename I> static auto read(T& t, I b, I e) { return cxon::from_bytes<X>(t, b, e, cxon::node::recursion_depth::set<N>()); }
        template <typename X, typename T, typename O> static auto write(O& o, const T& t) { return cxon::to_bytes<X>(o, t, cxon::node::recursion_depth::set<N>()); }
        template <typename X, typename T> static auto write(char* b, char* e, const T& t) { return cxon::to_bytes<X>(b, e, t, cxon::node::recursion_depth::set<N>()); }
    };
    template <> struct Read<0> {
        template <typename X, typename T, typename I> static auto read(T& t, I b, I e) { return cxon::from_bytes<X>(t, b, e); }
        template <typename X, typename T, typename O> static auto write(O& o, const T& t) { return cxon::to_bytes<X>(o, t); }
        template <typename X, typename T> static auto write(char* b, char* e, const T& t) { return cxon::to_bytes<X>(b, e, t); }
    };
    template <typename R> bool is_rd(const R& r) { return r.ec.category() == cxon::node::error_category::value() && r.ec == cxon::node::error::recursion_depth_exceeded; }

    template <typename X, typename T, unsigned N> struct D {
        static void* make() { return new T; }
        static void drop(void* p) { delete (T*)p; }
        template <typename U> static bool from_(U& t, const sim::Val& v) { return nodes::from(t, v); }
        template <typename U> static bool from_(std::vector<U>& t, const sim::Val& v) { if (v.k != sim::Val::ARR) return false; for (auto& e : v.a) { t.emplace_back(); if (!nodes::from(t.back(), e)) return false; } return true; }
        template <typename U> static sim::Val to_(const U& t) { return nodes::to(t); }
        template <typename U> static sim::Val to_(const std::vector<U>& t) { sim::Val v = sim::Val::arr(); for (auto& e : t) v.a.push_back(nodes::to(e)); return v; }
        static bool from(void* p, const sim::Val& v) { return from_(*(T*)p, v); }
        static sim::Val to(const void* p) { return to_(*(const T*)p); }
        static sim::ReadRes ptr(void* t, sim::Source& s, bool& rd) {
            sim::Exact x(s.bytes); sim::S->ops(); sim::ReadRes r;
            auto const y = Read<N>::template read<X>(*(T*)t, (const char*)x.b, (const char*)x.b + x.n);
            r.ok = !y.ec; r.ec = y.ec.value(); r.end = y.end >= x.b && y.end <= x.b + x.n ? (long)(y.end - x.b) : -1; if (!r.ok) r.what = y.ec.message(); rd = is_rd(y); return r;
        }
        static sim::ReadRes stream(void* t, sim::Source& s, bool& rd) {
            sim::StreamIt b(&s), e; sim::S->ops(); sim::ReadRes r;
            auto const y = Read<N>::template read<X>(*(T*)t, b, e);
            r.ok = !y.ec; r.ec = y.ec.value(); r.end = (long)s.cur; if (!r.ok) r.what = y.ec.message(); rd = is_rd(y); return r;
        }
        static sim::WriteRes write(const void* t, size_t cap, bool& rd) {
            sim::WriteRes r; sim::S->ops();
            if (cap == (size_t)-1) { auto const y = Read<N>::template write<X>(r.bytes, *(const T*)t); r.ok = !y.ec; if (!r.ok) r.what = y.ec.message(); rd = is_rd(y); }
            else { std::vector<char> b(cap + 1); auto const y = Read<N>::template write<X>(b.data(), b.data() + cap, *(const T*)t); r.ok = !y.ec; if (!r.ok) r.what = y.ec.message(); rd = is_rd(y); r.bytes.assign(b.data(), cap); }
            return r;
        }
        static void add(const char* name, sim::Fmt f, bool cn, bool c = false) { DOp o = { name, f, N ? N : 64, cn, c, make, drop, from, to, ptr, stream, write }; ops().push_back(o); }
    };
    template <typename X, typename T> void add(const char* name, sim::Fmt f, bool cn) { D<X, T, 0>::add(name, f, cn); D<X, T, 1>::add(name, f, cn); D<X, T, 5>::add(name, f, cn); D<X, T, 90>::add(name, f, cn); }
}
#endif
#endif
