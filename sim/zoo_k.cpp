// records with skipped members, for peers that send other members than the reader knows
#include "zoo.hxx"
#include "cxon/lib/std/string.hxx"
#include "cxon/lib/std/vector.hxx"
#include "cxon/lib/std/array.hxx"
#include "cxon/lib/std/map.hxx"
#include "cxon/lib/std/optional.hxx"
#include "cxon/lib/std/memory.hxx"

#define J_ CXON_JSON_CLS_FIELD_ASIS
#define JS_ CXON_JSON_CLS_FIELD_SKIP
#define JN_ CXON_JSON_CLS_FIELD_NAME
#define B_ CXON_CBOR_CLS_FIELD_ASIS
#define BS_ CXON_CBOR_CLS_FIELD_SKIP
#define BN_ CXON_CBOR_CLS_FIELD_NAME
#define LONG_ "a-name-of-sixty-two-characters-which-is-the-longest-that-is-ok"

namespace r18 {
    struct In { int a = 0; std::string ab; bool abc = false; };
    struct Rec { int a = 0; double d = 0; std::string s; std::vector<int> v; std::array<int, 3> w{}; std::map<std::string, int> m; std::optional<int> o; In in; std::vector<In> ins; bool b = false; };
    struct Memb { int x = 0; In y; int z = 0;
        CXON_JSON_CLS_MEMBER(Memb, J_(x), JS_("skip"), J_(y), JS_("x-skip"), J_(z))
        CXON_CBOR_CLS_MEMBER(Memb, B_(x), BS_("skip"), B_(y), BS_("x-skip"), B_(z))
    };
    struct Odd { int m[6] = {}; int a = 0, b = 0, c = 0, d = 0, e = 0;
        CXON_JSON_CLS_NONTRIVIAL_KEY_MEMBER()
    };
    struct Long { int a = 0, l = 0; };
    struct Bare { int a = 0; std::string s; In in; };
    struct Empty {};
    struct Deep { int a = 0; std::unique_ptr<Deep> sub; };
    struct RawT { int a = 0; cxon::cio::val::sink<std::string> raw; int z = 0; };
    struct RawB { int a = 0; cxon::cbor::sink<std::vector<unsigned char>> raw; int z = 0; };
}
CXON_JSON_CLS(r18::In, J_(a), J_(ab), JS_("z"), J_(abc))
CXON_CBOR_CLS(r18::In, B_(a), B_(ab), BS_("z"), B_(abc))
CXON_JSON_CLS(r18::Rec, J_(a), JS_("skip"), J_(d), J_(s), J_(v), J_(w), J_(m), J_(o), J_(in), JS_("s"  "2"), J_(ins), J_(b))
CXON_CBOR_CLS(r18::Rec, B_(a), BS_("skip"), B_(d), B_(s), B_(v), B_(w), B_(m), B_(o), B_(in), BS_("s"  "2"), B_(ins), B_(b))
CXON_JSON_CLS(r18::Odd, JN_("a b", a), JN_("q\"t", b), JS_("s\\k"), JN_("\xD0\xBA\xE2\x82\xAC", c), JN_("t\tt", d), JN_("=", e))
CXON_CBOR_CLS(r18::Odd, BN_("a b", a), BN_("q\"t", b), BS_("s\\k"), BN_("\xD0\xBA\xE2\x82\xAC", c), BN_("t\tt", d), BN_("=", e))
CXON_JSON_CLS(r18::Long, J_(a), JN_(LONG_, l), JS_(LONG_ "2"), JS_(LONG_ "-and-then-some-more-characters"))
CXON_CBOR_CLS(r18::Long, B_(a), BN_(LONG_, l), BS_(LONG_ "2"), BS_(LONG_ "-and-then-some-more-characters"))
CXON_JSON_CLS_BARE(r18::Bare)
CXON_JSON_CLS(r18::Bare, J_(a), JS_("skip"), J_(s), J_(in))
CXON_JSON_CLS(r18::Deep, J_(a), J_(sub), JS_("skip"))
CXON_CBOR_CLS(r18::Deep, B_(a), B_(sub), BS_("skip"))
CXON_JSON_CLS(r18::RawT, J_(a), J_(raw), J_(z))
CXON_CBOR_CLS(r18::RawB, B_(a), B_(raw), B_(z))

namespace zoo {
    template <> struct Tr<std::string> : TrStr<std::string> {};
    template <typename T> struct Tr<std::vector<T>> : TrSeq<std::vector<T>> {};
    template <typename K, typename T> struct Tr<std::map<K, T>> : TrMap<std::map<K, T>> {};
    template <> struct Tr<std::array<int, 3>> : NoFrom { typedef std::array<int, 3> C;
        static void gen(Sim& s, C& c, unsigned d) { for (auto& e : c) zoo::gen(s, e, d); }
        static Val to(const C& c, Fmt f) { Val v = Val::arr(); for (auto e : c) v.add(zoo::to(e, f)); return v; }
        static bool eq(const C& a, const C& b) { return a == b; }
    };
    template <typename T> struct Tr<std::optional<T>> : NoFrom { typedef std::optional<T> C;
        static void gen(Sim& s, C& c, unsigned d) { if (s.draw(4) == 3) { c.reset(); return; } T t{}; zoo::gen(s, t, d); c = std::move(t); }
        static Val to(const C& c, Fmt f) { return c ? zoo::to<T>(*c, f) : f == F_CBOR ? Val::undef() : Val::null(); }
        static bool eq(const C& a, const C& b) { return a == b; }
    };
    template <> struct Tr<std::unique_ptr<r18::Deep>> : NoFrom { typedef std::unique_ptr<r18::Deep> C;
        static void gen(Sim& s, C& c, unsigned d); static Val to(const C& c, Fmt f);
        static bool eq(const C&, const C&) { return true; }
    };
    template <typename T> void g(Sim& s, T& t, unsigned d) { zoo::gen(s, t, d); }
    template <typename T> struct Rec : NoFrom { static bool eq(const T&, const T&) { return true; } };
#   define G(...) static void gen(Sim& s, C& c, unsigned d) { (void)s; (void)c; (void)d; __VA_ARGS__ }
#   define T(...) static Val to(const C& c, Fmt f) { Val v = Val::map(); (void)c; (void)f; __VA_ARGS__ return v; }
#   define A(N) v.add(Val::str(#N), zoo::to(c.N, f));
#   define AN(S, N) v.add(Val::str(S), zoo::to(c.N, f));
    template <> struct Tr<r18::In> : Rec<r18::In> { typedef r18::In C; G(g(s, c.a, d); g(s, c.ab, d); g(s, c.abc, d);) T(A(a) A(ab) A(abc)) };
    template <> struct Tr<r18::Rec> : Rec<r18::Rec> { typedef r18::Rec C; G(g(s, c.a, d); g(s, c.d, d); g(s, c.s, d); g(s, c.v, d); g(s, c.w, d); g(s, c.m, d); g(s, c.o, d); g(s, c.in, d); g(s, c.ins, d); g(s, c.b, d);)
        T(A(a) A(d) A(s) A(v) A(w) A(m) A(o) A(in) A(ins) A(b)) };
    template <> struct Tr<r18::Memb> : Rec<r18::Memb> { typedef r18::Memb C; G(g(s, c.x, d); g(s, c.y, d); g(s, c.z, d);) T(A(x) A(y) A(z)) };
    template <> struct Tr<r18::Odd> : Rec<r18::Odd> { typedef r18::Odd C; G(g(s, c.a, d); g(s, c.b, d); g(s, c.c, d); g(s, c.d, d); g(s, c.e, d);) T(AN("a b", a) AN("q\"t", b) AN("\xD0\xBA\xE2\x82\xAC", c) AN("t\tt", d) AN("=", e)) };
    template <> struct Tr<r18::Long> : Rec<r18::Long> { typedef r18::Long C; G(g(s, c.a, d); g(s, c.l, d);) T(A(a) AN(LONG_, l)) };
    template <> struct Tr<r18::Bare> : Rec<r18::Bare> { typedef r18::Bare C; G(g(s, c.a, d); g(s, c.s, d); g(s, c.in, d);) T(A(a) A(s) A(in)) };
    template <> struct Tr<r18::Deep> : Rec<r18::Deep> { typedef r18::Deep C; G(g(s, c.a, d);) T(A(a) A(sub)) };
    inline void Tr<std::unique_ptr<r18::Deep>>::gen(Sim&, C&, unsigned) {}
    inline Val Tr<std::unique_ptr<r18::Deep>>::to(const C& c, Fmt f) { return c ? zoo::to(*c, f) : Val::null(); }
    template <> struct Tr<r18::RawT> : Rec<r18::RawT> { typedef r18::RawT C; G(g(s, c.a, d); g(s, c.z, d);) T(A(a) v.add(Val::str("raw"), Val::bytes(c.raw.value)); A(z)) };
    template <> struct Tr<r18::RawB> : Rec<r18::RawB> { typedef r18::RawB C; G(g(s, c.a, d); g(s, c.z, d);) T(A(a) v.add(Val::str("raw"), Val::bytes(std::string(c.raw.value.begin(), c.raw.value.end()))); A(z)) };

    // repeated members allowed
    struct json_rep : json_strict { static constexpr bool assume_unique_object_keys = false; };
    struct cxcf_rep : cxcf_strict { static constexpr bool assume_unique_object_keys = false; };
    struct json_trail : json_strict { static constexpr bool allow_trailing_separators = true; static constexpr bool allow_comments = true; };
    template <typename X, typename T, Fmt F> struct RegX : Reg<T, F> { RegX(const char* n, unsigned fl) : Reg<T, F>(n, fl) { Fill<X, X, T, F == F_CBOR>::read(*this); Fill<X, X, T, F == F_CBOR>::write(*this); } };
}
namespace { using namespace zoo;
#ifdef STYLE
#   define ALL_(N, ...) ZOO_J(N, RECORD, __VA_ARGS__)
#else
#   define ALL_(N, ...) static RegX<XJ, __VA_ARGS__, F_JSON> ZOO_CAT(z_, __COUNTER__)(N, 0); static RegX<XC, __VA_ARGS__, F_CXCF> ZOO_CAT(z_, __COUNTER__)(N, 0); static RegX<XB, __VA_ARGS__, F_CBOR> ZOO_CAT(z_, __COUNTER__)(N, 0); \
        static RegX<cxon::JSON<json_rep>, __VA_ARGS__, F_JSON> ZOO_CAT(z_, __COUNTER__)(N " (repeats)", 0); static RegX<cxon::JSON<cxcf_rep>, __VA_ARGS__, F_CXCF> ZOO_CAT(z_, __COUNTER__)(N " (repeats)", 0);
#endif
    ALL_("Rec", r18::Rec)
    ALL_("Memb", r18::Memb)
    ALL_("Odd", r18::Odd)
    ALL_("Long", r18::Long)
    ALL_("Deep", r18::Deep)
#ifndef STYLE
    static RegX<XC, r18::Bare, F_CXCF> bare("Bare", BARE);
    static RegX<cxon::JSON<cxcf_rep>, r18::Bare, F_CXCF> bare_rep("Bare (repeats)", BARE);
    static RegX<XJ, r18::RawT, F_JSON> rawj("Raw", 0);
    static RegX<XC, r18::RawT, F_CXCF> rawc("Raw", 0);
    static RegX<XB, r18::RawB, F_CBOR> rawb("Raw", 0);
#endif
}
