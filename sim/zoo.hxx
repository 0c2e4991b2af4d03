// Type-erased access to the library for every supported type and format. C++11.
#ifndef SIM_ZOO_HXX_
#define SIM_ZOO_HXX_

#include "core.hxx"
#include "io.hxx"
#include "val.hxx"
#ifndef ZOO_NO_LIB
#   include "cxon/json.hxx"
#   include "cxon/cxcf.hxx"
#   include "cxon/cbor.hxx"
#   include "cxon/lang/json/tidy.hxx"
#endif
#include <limits>
#include <cmath>
#include <cstdlib>
#include <new>

namespace zoo {

    using sim::Sim; using sim::Val; using sim::Fmt; using sim::Source; using sim::ReadRes; using sim::WriteRes; using sim::SinkPlan;
    using sim::F_JSON; using sim::F_JSTR; using sim::F_CXCF; using sim::F_CBOR; using sim::F_CXCN;

    enum Src { PTR, LPTR, RA, FWD, STREAM, STR, BIDI, SBUF, SRC_N };       // LPTR: the shipped default traits on a pointer (text), unsigned char (CBOR)
    inline const char* name(Src s) { static const char* const n[] = { "pointer", "pointer/default", "random-access", "forward", "stream", "iterable", "bidirectional", "streambuf" }; return n[s]; }

    enum { NODE = 1, NUMERIC = 2, BARE = 4, UNORDERED = 8, FLOATS = 16, FIXED = 32, CHARS = 64, NOVARIETY = 128, NOEQ = 256, NOINDEF = 512, RAWPTR = 1024, CLASS = 2048, PLAINTXT = 4096, RECORD = 8192 /* only on demand */ };

    enum From { REJECT, ACCEPT, UNKNOWN };

    struct Op {
        const char* type; Fmt f; unsigned flags; size_t size;
        void* (*make)(); void (*destroy)(void*); void (*clear)(void*);
        void (*gen)(Sim&, void*); Val (*to)(const void*); bool (*eq)(const void*, const void*);
        From (*from)(const Val&, void*);
        ReadRes (*read[SRC_N])(void*, Source&);
        WriteRes (*write[sim::W_N])(const void*, const SinkPlan&);
        Op* next;
        const sim::TextOpt* style = nullptr;                            // of a customised format
        Fmt vf() const { return f == F_CXCF && (flags & NODE) ? F_CXCN : f; }      // how the reference codec sees it
        unsigned ef() const { return (flags & NOINDEF ? sim::NO_INDEF : 0u) | (flags & CLASS ? sim::NO_INDEF_MAP : 0u) | (flags & PLAINTXT ? sim::PLAIN : 0u); }
        unsigned tags() const { return f == F_CBOR && !(flags & NODE) ? 2 : 1; } // greatest variety
    };
    extern Op* ops;                     // all registered
    extern Fmt gen_fmt;                 // format values are being generated for
    std::vector<Op*> select(unsigned all, unsigned none, int fmt = -1);
    const Op& pick(Sim& s, const std::vector<Op*>& v);
    std::vector<Src> sources(const Op& o);
    std::vector<sim::SinkKind> sinks(const Op& o);
    struct Obj { const Op& o; void* p; explicit Obj(const Op& o) : o(o), p(o.make()) {} ~Obj() { o.destroy(p); } Obj(const Obj&) = delete; Obj& operator =(const Obj&) = delete; };

#ifndef ZOO_NO_LIB

    // formats: strict numbers on pointers, so that every kind of source sees the same grammar
    struct json_strict : cxon::json::format_traits { struct number : cxon::json::format_traits::number { static constexpr bool strict = true; }; };
    struct cxcf_strict : cxon::cxcf::format_traits { struct number : cxon::cxcf::format_traits::number { static constexpr bool strict = true; }; };
    typedef cxon::JSON<json_strict> XJ; typedef cxon::JSON<> XJL;
    typedef cxon::JSON<cxcf_strict> XC; typedef cxon::CXCF<> XCL;
    typedef cxon::CBOR<> XB;

    // ---- traits of one type ----
    template <typename T, typename E = void> struct Tr;
    template <typename T> Val to(const T& t, Fmt f) { return Tr<T>::to(t, f); }
    template <typename T> bool eq(const T& a, const T& b) { return Tr<T>::eq(a, b); }
    template <typename T> void gen(Sim& s, T& t, unsigned d) { Tr<T>::gen(s, t, d); }
    template <typename T> From from(const Val& v, Fmt f, T& t);
    struct NoFrom { template <typename T> static From from(const Val&, Fmt, T&) { return UNKNOWN; } };
    template <typename T> From from(const Val& v, Fmt f, T& t) { return Tr<T>::from(v, f, t); }
    inline const Val& untag(const Val& v) { const Val* p = &v; while (p->k == Val::TAG) p = &p->a[0]; return *p; }

    template <typename T> struct Box { T t; Box() : t() {} };
    template <typename T> struct Life { static void end(T&) {} };   // frees what plain pointers own

    // ---- operations ----
    template <typename X, typename T, typename II> ReadRes do_read(T& t, II b, II e, II& end) {
        ReadRes r; sim::S->ops();
        try {
            auto const x = cxon::from_bytes<X>(t, b, e);
            r.ok = !x.ec; r.ec = x.ec.value(); end = x.end;
            if (!r.ok) { sim::heap::Pause p; r.what = x.ec.message(); r.what += '/'; r.what += x.ec.category().name(); }
        }
        catch (const std::bad_alloc& x) { r.threw = r.bad_alloc = true; sim::heap::Pause p; r.what = x.what(); }
        catch (const sim::SourceError& x) { r.threw = r.source_error = true; sim::heap::Pause p; r.what = x.what(); }
        catch (const std::exception& x) { r.threw = true; sim::heap::Pause p; r.what = x.what(); }
        return r;
    }
    template <typename X, typename T> ReadRes rd_ptr(void* t, Source& s) {
        sim::Exact ex(s.bytes); const char *b = ex.b, *end = b; sim::heap::Scope sc;
        ReadRes r = do_read<X>(((Box<T>*)t)->t, b, b + ex.n, end);
        r.end = r.threw ? 0 : end >= b && end <= b + ex.n ? (long)(end - b) : -1;
        return r;
    }
    template <typename X, typename T> ReadRes rd_uptr(void* t, Source& s) {
        sim::Exact ex(s.bytes); const unsigned char *b = (const unsigned char*)ex.b, *end = b; sim::heap::Scope sc;
        ReadRes r = do_read<X>(((Box<T>*)t)->t, b, b + ex.n, end);
        r.end = r.threw ? 0 : end >= b && end <= b + ex.n ? (long)(end - b) : -1;
        return r;
    }
    template <typename X, typename T, typename C> ReadRes rd_it(void* t, Source& s) {
        typedef sim::It<C> I; I b(&s, 0), e(&s, (std::ptrdiff_t)s.bytes.size()), end = b; sim::heap::Scope sc;
        ReadRes r = do_read<X>(((Box<T>*)t)->t, b, e, end);
        r.end = r.threw ? 0 : end.p >= 0 && end.p <= e.p ? (long)end.p : -1;
        return r;
    }
    template <typename X, typename T> ReadRes rd_stream(void* t, Source& s) {
        sim::StreamIt b(&s), e, end = b; size_t const at = s.cur; sim::heap::Scope sc;
        ReadRes r = do_read<X>(((Box<T>*)t)->t, b, e, end);
        (void)at; r.end = r.threw ? 0 : (long)s.cur;
        return r;
    }
    // the standard stream iterator on a buffer that gets its bytes in pieces
    template <typename X, typename T> ReadRes rd_sbuf(void* t, Source& s) {
        sim::PieceBuf sb(s); std::istreambuf_iterator<char> b(&sb), e, end = b; sim::heap::Scope sc;
        ReadRes r = do_read<X>(((Box<T>*)t)->t, b, e, end);
        r.end = r.threw ? 0 : (long)sb.consumed();
        return r;
    }
    template <typename X, typename T> ReadRes rd_str(void* t, Source& s) {
        const std::string& c = s.bytes; sim::heap::Scope sc; ReadRes r; sim::S->ops();
        try {
            auto const x = cxon::from_bytes<X>(((Box<T>*)t)->t, c);
            r.ok = !x.ec; r.ec = x.ec.value(); r.end = x.end >= c.begin() && x.end <= c.end() ? (long)(x.end - c.begin()) : -1;
            if (!r.ok) { sim::heap::Pause p; r.what = x.ec.message(); }
        }
        catch (const std::bad_alloc& x) { r.threw = r.bad_alloc = true; sim::heap::Pause p; r.what = x.what(); }
        catch (const std::exception& x) { r.threw = true; sim::heap::Pause p; r.what = x.what(); }
        return r;
    }

    template <typename F> void guard(WriteRes& r, F f) {
        sim::S->ops();
        try { f(); }
        catch (const std::bad_alloc& x) { r.threw = r.bad_alloc = true; sim::heap::Pause p; r.what = x.what(); }
        catch (const sim::SinkError& x) { r.threw = r.sink_error = true; sim::heap::Pause p; r.what = x.what(); }
        catch (const std::exception& x) { r.threw = true; sim::heap::Pause p; r.what = x.what(); }
    }
    template <typename R> void note(WriteRes& r, const R& x) { r.ok = !x.ec; r.ec = x.ec.value(); if (!r.ok) { sim::heap::Pause p; r.what = x.ec.message(); } }
    inline void keep(WriteRes& r, sim::SinkState& st) { sim::heap::Pause p; r.bytes = st.got; r.after = st.after; r.refused = st.refused; r.calls = st.calls; }

    template <typename X, typename T> WriteRes wr_str(const void* t, const SinkPlan&) {
        WriteRes r; sim::heap::Scope sc; { std::string o;
        guard(r, [&] { auto x = cxon::to_bytes<X>(o, ((const Box<T>*)t)->t); note(r, x); r.end = (long)(x.end - o.begin()); });
        sim::heap::Pause p; r.bytes.assign(o.data(), o.size()); } return r;
    }
    template <typename X, typename T> WriteRes wr_range(const void* t, const SinkPlan& pl) {
        WriteRes r; size_t const n = pl.capacity;
        char* const blk = (char*)malloc(n + 16); char* const b = blk + 16; memset(blk, 0x5A, n + 16);
        { sim::heap::Scope sc; guard(r, [&] { auto x = cxon::to_bytes<X>(b, b + n, ((const Box<T>*)t)->t); note(r, x); r.end = x.end >= b && x.end <= b + n ? (long)(x.end - b) : -1; }); }
        for (int i = 0; i != 16; ++i) if (blk[i] != 0x5A) sim::S->violate("range-overrun", "%s: writes before the range", sim::S->context());
        r.bytes.assign(b, n); free(blk); return r;
    }
    template <typename X, typename T, typename C> WriteRes wr_frange_(const void* t, const SinkPlan& pl) {
        WriteRes r; size_t const n = pl.capacity; sim::RangeBuf<C> rb(n); typedef sim::RangeIt<C> I;
        { sim::heap::Scope sc; guard(r, [&] { auto x = cxon::to_bytes<X>(I(&rb, 0), I(&rb, n), ((const Box<T>*)t)->t); note(r, x); r.end = x.end.p <= n ? (long)x.end.p : -1; }); }
        r.bytes.assign((const char*)rb.cells.data(), n); return r;
    }
    template <typename X, typename T> WriteRes wr_frange(const void* t, const SinkPlan& pl) {
        return pl.flavour ? wr_frange_<X, T, unsigned char>(t, pl) : wr_frange_<X, T, char>(t, pl);
    }
    template <typename X, typename T, typename S> WriteRes wr_sink(const void* t, const SinkPlan& pl) {
        WriteRes r; sim::SinkState st; st.plan = pl; S o(st);
        { sim::heap::Scope sc; guard(r, [&] { auto x = cxon::to_bytes<X>(o, ((const Box<T>*)t)->t); note(r, x); }); }
        keep(r, st); return r;
    }
    template <typename X, typename T> WriteRes wr_outit(const void* t, const SinkPlan& pl) {
        WriteRes r; sim::SinkState st; st.plan = pl; sim::OutIt<char> o; o.st = &st;
        { sim::heap::Scope sc; guard(r, [&] { auto x = cxon::to_bytes<X>(o, ((const Box<T>*)t)->t); note(r, x); }); }
        keep(r, st); return r;
    }

    // through the indenter
    template <typename X, typename T> WriteRes wr_indent(const void* t, const SinkPlan& pl) {
        WriteRes r; T const& v = ((const Box<T>*)t)->t;
        switch (pl.flavour) {
            case 0: {   sim::heap::Scope sc; std::string o;
                        guard(r, [&] { auto x = cxon::to_bytes<X>(cxon::json::make_indenter(o, pl.tab, pl.pad), v); note(r, x); });
                        sim::heap::Pause p; r.bytes.assign(o.data(), o.size()); break; }
            case 1: {   sim::SinkState st; st.plan = pl; sim::AppendSink<char> o(st);
                        { sim::heap::Scope sc; guard(r, [&] { auto x = cxon::to_bytes<X>(cxon::json::make_indenter(o, pl.tab, pl.pad), v); note(r, x); }); }
                        keep(r, st); break; }
            case 3: {   sim::SinkState st; st.plan = pl; sim::OutIt<char> o; o.st = &st;
                        { sim::heap::Scope sc; guard(r, [&] { auto x = cxon::to_bytes<X>(cxon::json::make_indenter(o, pl.tab, pl.pad), v); note(r, x); }); }
                        keep(r, st); break; }
            default: {  size_t const n = pl.capacity; char* const blk = (char*)malloc(n + 16); char* const b = blk + 16; memset(blk, 0x5A, n + 16);
                        { sim::heap::Scope sc; guard(r, [&] { auto x = cxon::to_bytes<X>(cxon::json::make_indenter(b, b + n, pl.tab, pl.pad), v); note(r, x); }); }
                        for (int i = 0; i != 16; ++i) if (blk[i] != 0x5A) sim::S->violate("range-overrun", "%s: writes before the range", sim::S->context());
                        r.bytes.assign(b, n); free(blk); }
        }
        return r;
    }

#ifndef ZOO_READ
#   define ZOO_READ 0x3F
#endif
#ifndef ZOO_WRITE
#   define ZOO_WRITE 0x7F
#endif
    template <bool> struct If { template <typename F> static void go(F) {} };

    // which operations are compiled is decided per check, so that a check builds only what it runs
    template <typename X, typename XL, typename T, bool U> struct Fill {
        static void read(Op& o) {
#           if ZOO_READ & 1
                o.read[PTR] = rd_ptr<X, T>;
#           endif
#           if ZOO_READ & 2
                o.read[LPTR] = lptr(std::integral_constant<bool, U>());
#           endif
#           if ZOO_READ & 4
                o.read[RA] = rd_it<X, T, std::random_access_iterator_tag>;
#           endif
#           if ZOO_READ & 8
                o.read[FWD] = rd_it<X, T, std::forward_iterator_tag>;
#           endif
#           if ZOO_READ & 16
                o.read[STREAM] = rd_stream<X, T>;
#           endif
#           if ZOO_READ & 32
                o.read[STR] = rd_str<X, T>;
#           endif
#           if ZOO_READ & 64
                o.read[BIDI] = rd_it<X, T, std::bidirectional_iterator_tag>;
#           endif
#           if ZOO_READ & 128
                o.read[SBUF] = rd_sbuf<X, T>;
#           endif
            (void)o;
        }
        static auto lptr(std::true_type) -> ReadRes (*)(void*, Source&) { return rd_uptr<X, T>; }
        static auto lptr(std::false_type) -> ReadRes (*)(void*, Source&) { return rd_ptr<XL, T>; }
        static void write(Op& o) {
#           if ZOO_WRITE & 1
                o.write[sim::W_STR] = wr_str<XL, T>;
#           endif
#           if ZOO_WRITE & 2
                o.write[sim::W_RANGE] = wr_range<XL, T>;
#           endif
#           if ZOO_WRITE & 4
                o.write[sim::W_APPEND] = wr_sink<XL, T, sim::AppendSink<char>>;
#           endif
#           if ZOO_WRITE & 8
                o.write[sim::W_GOOD] = wr_sink<XL, T, sim::GoodSink<char>>;
#           endif
#           if ZOO_WRITE & 16
                o.write[sim::W_THROW] = wr_sink<XL, T, sim::ThrowSink<char>>;
#           endif
#           if ZOO_WRITE & 32
                o.write[sim::W_OUTIT] = wr_outit<XL, T>;
#           endif
#           if ZOO_WRITE & 64
                o.write[sim::W_FRANGE] = wr_frange<XL, T>;
#           endif
#           if ZOO_WRITE & 128
                indent(std::is_same<XL, XJL>(), o);
#           endif
            (void)o;
        }
        static void indent(std::true_type, Op& o) { o.write[sim::W_INDENT] = wr_indent<XL, T>; }
        static void indent(std::false_type, Op&) {}
    };
    template <typename T, Fmt F> struct Reg : Op {
        Reg(const char* n, unsigned fl) {
            type = n; f = F; flags = fl; size = sizeof(T);
            for (auto& r : read) r = nullptr;
            for (auto& w : write) w = nullptr;
            make = [] () -> void* { return new Box<T>(); };
            destroy = [] (void* p) { Life<T>::end(((Box<T>*)p)->t); delete (Box<T>*)p; };
            clear = [] (void* p) { Life<T>::end(((Box<T>*)p)->t); ((Box<T>*)p)->~Box<T>(); new (p) Box<T>(); };
            gen = [] (Sim& s, void* p) { gen_fmt = F; Tr<T>::gen(s, ((Box<T>*)p)->t, 2); };
            to = [] (const void* p) -> Val { return Tr<T>::to(((const Box<T>*)p)->t, F); };
            eq = [] (const void* a, const void* b) -> bool { return Tr<T>::eq(((const Box<T>*)a)->t, ((const Box<T>*)b)->t); };
            from = [] (const Val& v, void* p) -> From { return Tr<T>::from(v, F, ((Box<T>*)p)->t); };
            next = ops; ops = this;
        }
    };
#   define ZOO_CAT_(a, b) a##b
#   define ZOO_CAT(a, b) ZOO_CAT_(a, b)
    template <typename T> struct RegJ : Reg<T, F_JSON> { RegJ(const char* n, unsigned fl) : Reg<T, F_JSON>(n, fl) { Fill<XJ, XJL, T, false>::read(*this); Fill<XJ, XJL, T, false>::write(*this); } };
    template <typename T> struct RegC : Reg<T, F_CXCF> { RegC(const char* n, unsigned fl) : Reg<T, F_CXCF>(n, fl) { Fill<XC, XCL, T, false>::read(*this); Fill<XC, XCL, T, false>::write(*this); } };
    template <typename T> struct RegB : Reg<T, F_CBOR> { RegB(const char* n, unsigned fl) : Reg<T, F_CBOR>(n, fl) { Fill<XB, XB, T, true>::read(*this); Fill<XB, XB, T, true>::write(*this); } };
#   define ZOO_J(N, F, ...) static zoo::RegJ<__VA_ARGS__> ZOO_CAT(zj_, __COUNTER__)(N, F);
#   define ZOO_C(N, F, ...) static zoo::RegC<__VA_ARGS__> ZOO_CAT(zc_, __COUNTER__)(N, F);
#   define ZOO_B(N, F, ...) static zoo::RegB<__VA_ARGS__> ZOO_CAT(zb_, __COUNTER__)(N, F);
#   define ZOO_JB(N, F, ...) ZOO_J(N, F, __VA_ARGS__) ZOO_B(N, F, __VA_ARGS__)
#   define ZOO_JCB(N, F, ...) ZOO_J(N, F, __VA_ARGS__) ZOO_C(N, F, __VA_ARGS__) ZOO_B(N, F, __VA_ARGS__)

    // ---- fundamental types ----
    template <typename T> struct is_chr : std::integral_constant<bool, std::is_same<T, char>::value || std::is_same<T, wchar_t>::value || std::is_same<T, char16_t>::value || std::is_same<T, char32_t>::value
#       if defined(__cpp_char8_t)
            || std::is_same<T, char8_t>::value
#       endif
    > {};
    template <typename T> struct is_int : std::integral_constant<bool, std::is_integral<T>::value && !std::is_same<T, bool>::value && !is_chr<T>::value> {};

    template <> struct Tr<bool> {
        static void gen(Sim& s, bool& t, unsigned) { t = s.draw(2); }
        static Val to(const bool& t, Fmt) { return Val::boolean(t); }
        static bool eq(bool a, bool b) { return a == b; }
        static From from(const Val& v, Fmt, bool& t) { if (v.k != Val::BOOL) return REJECT; t = v.b; return ACCEPT; }
    };
    template <typename T> From from_int(const Val& v, Fmt f, T& t) {
        const Val& u = f == F_CBOR ? untag(v) : v;
        if (u.k != Val::INT) return REJECT;
        if (sim::text(f) && !u.s.empty() && u.s[0] == '-' && std::is_unsigned<T>::value) return REJECT;
        if (f == F_CBOR && sizeof(T) == 1 && !u.b && u.u > 0x7F && u.u < 0x100 && std::is_signed<T>::value) return UNKNOWN; // a byte fits any type of its size
        if (u.b) { if (std::is_unsigned<T>::value || u.u > (uint64_t)std::numeric_limits<T>::max()) return REJECT; t = (T)(-1 - (int64_t)u.u); }
        else { if (u.u > (uint64_t)std::numeric_limits<T>::max()) return REJECT; t = (T)u.u; }
        return ACCEPT;
    }
    template <typename T> struct Tr<T, typename std::enable_if<is_int<T>::value>::type> {
        static void gen(Sim& s, T& t, unsigned) { t = (T)sim::gen_uint(s, 8 * sizeof(T)); }
        static Val to(const T& t, Fmt) { return std::is_signed<T>::value ? Val::sint((int64_t)t) : Val::uint((uint64_t)t); }
        static bool eq(T a, T b) { return a == b; }
        static From from(const Val& v, Fmt f, T& t) { return from_int(v, f, t); }
    };
    template <typename T> struct Tr<T, typename std::enable_if<is_chr<T>::value>::type> {
        static void gen(Sim& s, T& t, unsigned) {
            uint32_t c = sizeof(T) == 1 ? s.draw(0x80) : 0;
            while (sizeof(T) > 1) { std::vector<uint32_t> v = sim::utf8_get(sim::gen_utf8(s, 1)); c = v.empty() ? 'x' : v[0]; if (sizeof(T) == 2 && c > 0xFFFF) c = 0x20AC; break; }
            t = (T)c;
        }
        static Val to(const T& t, Fmt f) { if (f == F_CBOR) return Val::uint((uint64_t)(typename std::make_unsigned<T>::type)t); std::string o; sim::utf8_put(o, (uint32_t)t); return Val::str(o); }
        static bool eq(T a, T b) { return a == b; }
        static From from(const Val&, Fmt, T&) { return UNKNOWN; }
    };
    template <typename T> struct Tr<T, typename std::enable_if<std::is_floating_point<T>::value>::type> {
        static const int prec = sizeof(T) == 4 ? 0 : sizeof(T) == 8 ? 1 : 2;
        static void gen(Sim& s, T& t, unsigned) {
            if (s.chance(1, 12)) { t = s.draw(3) == 2 ? std::numeric_limits<T>::quiet_NaN() : s.draw(2) ? -std::numeric_limits<T>::infinity() : std::numeric_limits<T>::infinity(); return; }
            t = prec == 0 ? (T)sim::gen_float(s) : (T)sim::gen_double(s);
        }
        static Val to(const T& t, Fmt) { return Val::real((long double)t, prec); }
        static bool eq(T a, T b) { return (a != a && b != b) || (a == b && std::signbit(a) == std::signbit(b)); }
        static From from(const Val& v, Fmt f, T& t) {
            if (f == F_CBOR) {
                const Val& u = untag(v);
                if (u.k == Val::REAL) { long double const d = u.d; if (d == d && std::isfinite(d) && (d > (long double)std::numeric_limits<T>::max() || d < -(long double)std::numeric_limits<T>::max())) return UNKNOWN; t = (T)d; return ACCEPT; }
                if (u.k == Val::INT) { t = (T)u.num(); return ACCEPT; }
                return REJECT;
            }
            if (v.k == Val::STR) { if (f == F_CXCF) return REJECT; if (v.s == "inf") t = std::numeric_limits<T>::infinity(); else if (v.s == "-inf") t = -std::numeric_limits<T>::infinity(); else if (v.s == "nan" || v.s == "-nan") t = std::numeric_limits<T>::quiet_NaN(); else return REJECT; return ACCEPT; }
            if (!v.isnum()) return REJECT;
            if (v.s.empty()) { t = (T)v.d; return ACCEPT; }
            Val w = Val::real(0, prec); // compare through same(): the correctly rounded value
            char* e = nullptr; t = prec == 0 ? (T)strtof(v.s.c_str(), &e) : prec == 1 ? (T)strtod(v.s.c_str(), &e) : (T)strtold(v.s.c_str(), &e);
            if (!std::isfinite(t)) return REJECT;
            bool nonzero = false; for (char c : v.s) { if (c == 'e' || c == 'E') break; if (c > '0' && c <= '9') nonzero = true; }
            if (nonzero && (t == 0 || std::fabs(t) < std::numeric_limits<T>::min())) return UNKNOWN; // underflow: reported or rounded
            return ACCEPT;
        }
    };

    // ---- strings ----
    template <typename S> void units(S& t, const std::string& u8) {
        typedef typename S::value_type C;
        if (sizeof(C) == 1) { for (char c : u8) t.push_back((C)c); return; }
        for (uint32_t c : sim::utf8_get(u8))
            if (sizeof(C) == 2 && c > 0xFFFF) { t.push_back((C)(0xD800 + ((c - 0x10000) >> 10))); t.push_back((C)(0xDC00 + (c & 0x3FF))); }
            else t.push_back((C)c);
    }
    template <typename S> std::string u8(const S& t) {
        typedef typename S::value_type C; std::string o;
        if (sizeof(C) == 1) { for (auto c : t) o += (char)c; return o; }
        for (auto i = t.begin(); i != t.end(); ++i) {
            uint32_t c = (uint32_t)*i; auto j = i; ++j;
            if (sizeof(C) == 2 && c >= 0xD800 && c <= 0xDBFF && j != t.end()) { c = 0x10000 + ((c - 0xD800) << 10) + ((uint32_t)*j - 0xDC00); i = j; }
            sim::utf8_put(o, c);
        }
        return o;
    }
    template <typename S> Val str_val(const S& t, Fmt f) {
        if (f != F_CBOR || sizeof(typename S::value_type) == 1) return Val::str(u8(t));
        Val v = Val::arr(); for (auto c : t) v.a.push_back(Val::uint((uint64_t)(uint32_t)c)); return v;
    }
    template <typename S> struct TrStr {
        static void gen(Sim& s, S& t, unsigned) { S n(t.get_allocator()); units(n, sim::gen_utf8(s, 20)); t = n; }
        static Val to(const S& t, Fmt f) { return str_val(t, f); }
        static bool eq(const S& a, const S& b) { return a == b; }
        static From from(const Val& v, Fmt f, S& t) {
            if (f != F_CBOR) { if (v.k != Val::STR) return REJECT; S n; units(n, v.s); t = n; return ACCEPT; }
            const Val& u = untag(v);
            if (sizeof(typename S::value_type) == 1 && (u.k == Val::STR || u.k == Val::BYTES)) { S n; units(n, u.s); t = n; return ACCEPT; }
            return u.k == Val::ARR || u.k == Val::STR || u.k == Val::BYTES ? UNKNOWN : REJECT;
        }
    };

    // ---- sequences ----
    template <typename C> struct Elem { typedef typename C::value_type type; };
    template <typename C> struct TrSeq {      // push_back / insert at the end
        typedef typename Elem<C>::type V;
        static void gen(Sim& s, C& c, unsigned d) { C n; size_t k = s.size(d ? 9 : 3); while (k--) { V v = V(); zoo::gen(s, v, d ? d - 1 : 0); n.insert(n.end(), std::move(v)); } c = std::move(n); }
        static Val to(const C& c, Fmt f) { Val v = Val::arr(); for (const auto& e : c) v.a.push_back(zoo::to<V>(e, f)); return v; }
        static bool eq(const C& a, const C& b) { auto i = a.begin(); auto j = b.begin(); for ( ; i != a.end() && j != b.end(); ++i, ++j) if (!zoo::eq<V>(*i, *j)) return false; return i == a.end() && j == b.end(); }
        static From from(const Val& v, Fmt f, C& c) {
            const Val& u = f == F_CBOR ? untag(v) : v;
            if (u.k != Val::ARR) return f == F_CBOR && u.k != Val::NUL && u.k != Val::BOOL && u.k != Val::INT && u.k != Val::REAL ? UNKNOWN : REJECT;
            C n; From r = ACCEPT;
            for (const auto& e : u.a) { V x = V(); From q = zoo::from<V>(e, f, x); if (q == REJECT) return REJECT; if (q == UNKNOWN) r = UNKNOWN; n.insert(n.end(), std::move(x)); }
            if (r == ACCEPT) c = std::move(n);
            return r;
        }
    };
    template <typename C> struct TrSet : TrSeq<C> { // unordered result order comes from the container itself
        static bool eq(const C& a, const C& b) { return a == b; }
        static From from(const Val&, Fmt, C&) { return UNKNOWN; }
    };
    // byte sequences: CBOR writes them as byte strings
    template <typename C> struct TrBytes {
        typedef typename C::value_type V;
        static void gen(Sim& s, C& c, unsigned) { C n; size_t k = s.size(24); while (k--) n.push_back((V)s.draw(256)); c = n; }
        static Val to(const C& c, Fmt f) { if (f == F_CBOR) { std::string o; for (auto e : c) o += (char)e; return Val::bytes(o); } Val v = Val::arr(); for (auto e : c) v.a.push_back(zoo::to<V>(e, f)); return v; }
        static bool eq(const C& a, const C& b) { return a == b; }
        static From from(const Val& v, Fmt f, C& c) { return f == F_CBOR ? UNKNOWN : TrSeq<C>::from(v, f, c); }
    };
    template <typename K> void gen_key(Sim& s, K& k) { zoo::gen(s, k, 0); }
    inline void gen_key(Sim& s, std::string& k) { if (gen_fmt == F_CXCF) k = sim::gen_key_cxcf(s); else k = sim::gen_utf8(s, 20); }
    template <typename C> struct TrMap {
        typedef typename C::key_type K; typedef typename C::mapped_type M;
        static void gen(Sim& s, C& c, unsigned d) { C n; size_t k = s.size(d ? 7 : 2); while (k--) { K x = K(); M y = M(); gen_key(s, x); zoo::gen(s, y, d ? d - 1 : 0); n.emplace(std::move(x), std::move(y)); } c = std::move(n); }
        static Val to(const C& c, Fmt f) { Val v = Val::map(); for (const auto& e : c) v.add(zoo::to<K>(e.first, f), zoo::to<M>(e.second, f)); return v; }
        static bool eq(const C& a, const C& b) {
            if (a.size() != b.size()) return false;
            for (auto i = a.begin(); i != a.end(); ++i) {
                bool hit = false; auto r = b.equal_range(i->first);
                for (auto j = r.first; j != r.second && !hit; ++j) hit = zoo::eq<M>(i->second, j->second);
                if (!hit) return false;
            }
            return true;
        }
        static From from(const Val& v, Fmt f, C& c) {
            const Val& u = f == F_CBOR ? untag(v) : v;
            if (u.k != Val::MAP) return REJECT;
            C n; From r = ACCEPT;
            for (size_t i = 0; i + 1 < u.a.size(); i += 2) {
                K x = K(); M y = M(); From p = zoo::from<K>(u.a[i], f, x), q = zoo::from<M>(u.a[i + 1], f, y);
                if (q == REJECT) return REJECT;
                if (p != ACCEPT || q == UNKNOWN) { r = UNKNOWN; continue; }
                if (n.find(x) != n.end()) r = UNKNOWN; // which one wins is not specified
                n.emplace(std::move(x), std::move(y));
            }
            if (r == ACCEPT) c = std::move(n);
            return r;
        }
    };
    // fixed number of elements
    template <typename T, size_t N> struct Tr<T[N], typename std::enable_if<!is_chr<T>::value>::type> {
        static void gen(Sim& s, T (&t)[N], unsigned d) { for (auto& e : t) zoo::gen(s, e, d ? d - 1 : 0); }
        static Val to(const T (&t)[N], Fmt f) { if (f == F_CBOR && std::is_same<T, unsigned char>::value) return Val::bytes(std::string((const char*)&t, sizeof(t))); Val v = Val::arr(); for (auto& e : t) v.a.push_back(zoo::to<T>(e, f)); return v; }
        static bool eq(const T (&a)[N], const T (&b)[N]) { for (size_t i = 0; i != N; ++i) if (!zoo::eq<T>(a[i], b[i])) return false; return true; }
        static From from(const Val& v, Fmt f, T (&t)[N]) {
            const Val& u = f == F_CBOR ? untag(v) : v;
            if (u.k != Val::ARR) return f == F_CBOR && (u.k == Val::BYTES || u.k == Val::STR) ? UNKNOWN : REJECT;
            if (u.a.size() > N) return REJECT;
            From r = ACCEPT;
            for (size_t i = 0; i != u.a.size(); ++i) { From q = zoo::from<T>(u.a[i], f, t[i]); if (q == REJECT) return q; if (q == UNKNOWN) r = q; }
            return r;
        }
    };
    template <typename T, size_t N> struct Tr<T[N], typename std::enable_if<is_chr<T>::value>::type> {
        // at least one terminating zero is kept
        static void gen(Sim& s, T (&t)[N], unsigned) { std::basic_string<T> u; do { u.clear(); units(u, sim::gen_utf8(s, N - 1)); size_t z = u.find(T(0)); if (z != u.npos) u.resize(z); } while (u.size() >= N); for (auto& c : t) c = T(); for (size_t i = 0; i != u.size(); ++i) t[i] = u[i]; }
        static std::basic_string<T> all(const T (&t)[N]) { return std::basic_string<T>(t, t + N - (t[N - 1] == T(0))); }
        static Val to(const T (&t)[N], Fmt f) { if (f != F_CBOR) return Val::str(u8(all(t))); return str_val(std::basic_string<T>(t, t + N), f); }
        static bool eq(const T (&a)[N], const T (&b)[N]) { for (size_t i = 0; i != N; ++i) if (a[i] != b[i]) return false; return true; }
        static From from(const Val&, Fmt, T (&)[N]) { return UNKNOWN; }
    };
#endif // ZOO_NO_LIB
}

#endif
