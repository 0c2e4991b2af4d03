#include "zoo.hxx"
#include "cap.hxx"
#include "cxon/lib/std/array.hxx"
#include "cxon/lib/std/bitset.hxx"
#include "cxon/lib/std/tuple.hxx"
#include "cxon/lib/std/utility.hxx"
#include "cxon/lib/std/span.hxx"
#include "cxon/lib/std/string.hxx"
#include "cxon/lib/std/vector.hxx"
#include "cxon/lib/boost/container/static_vector.hxx"
namespace cap {
    Cap* caps = nullptr;
    using zoo::Box; using zoo::XJ; using zoo::XC; using zoo::XB;

    template <typename X, typename T> ReadRes go(Way w, Box<T>& b, Source& s) {
        switch (w) {
            case PTR:       return zoo::rd_ptr<X, T>(&b, s);
            case RA:        return zoo::rd_it<X, T, std::random_access_iterator_tag>(&b, s);
            case FWD:       return zoo::rd_it<X, T, std::forward_iterator_tag>(&b, s);
            default:        return zoo::rd_stream<X, T>(&b, s);
        }
    }
    // what was read
    inline Val val(int t) { return Val::sint(t); }
    inline Val val(const std::string& t) { return Val::str(t); }
    template <typename T> Val val(const std::vector<T>& t) { Val v = Val::arr(); for (auto& e : t) v.a.push_back(val(e)); return v; }
    inline Val val(unsigned char t) { return Val::uint(t); }
    template <typename C> std::string units(const C* b, size_t n) { return std::string((const char*)b, n * sizeof(C)); }
    struct Look {
        template <typename C> static void seq(const C& c, Res& r) { r.v = Val::arr(); for (auto& e : c) r.v.a.push_back(val(e)); }
        template <typename T, size_t N> static void at(const T (&t)[N], Res& r) { seq(t, r); }
        template <size_t N> static void at(const char (&t)[N], Res& r) { r.text = units(t, N); }
        template <size_t N> static void at(const char16_t (&t)[N], Res& r) { r.text = units(t, N); }
        template <size_t N> static void at(const char32_t (&t)[N], Res& r) { r.text = units(t, N); }
        template <typename T, size_t N> static void at(const std::array<T, N>& t, Res& r) { seq(t, r); }
        template <typename T, size_t N> static void at(const boost::container::static_vector<T, N>& t, Res& r) { seq(t, r); }
        template <typename T, size_t N> static void at(const std::span<T, N>& t, Res& r) { seq(t, r); }
        template <size_t N> static void at(const std::bitset<N>& t, Res& r) { r.text = t.to_string(); }
        template <typename A, typename B> static void at(const std::pair<A, B>& t, Res& r) { r.v = Val::arr(); r.v.a.push_back(val(t.first)); r.v.a.push_back(val(t.second)); }
        template <typename... A> static void at(const std::tuple<A...>& t, Res& r) { r.v = Val::arr(); std::apply([&](auto&... e) { (r.v.a.push_back(val(e)), ...); }, t); }
    };
    template <typename T> struct Hold { typedef T type; static void set(T&) {} };
    template <typename T> struct Guarded {
        unsigned char pre[32]; Box<T> b; unsigned char post[32];
        Guarded() { memset(pre, 0x5A, 32); memset(post, 0xA5, 32); }
        bool ok() const { for (int i = 0; i != 32; ++i) if (pre[i] != 0x5A || post[i] != 0xA5) return false; return true; }
    };
    template <typename X, typename T> Res one(Way w, Source& s) {
        Res r; auto g = new Guarded<T>(); memset((void*)g->pre, 0x5A, 32);
        r.r = go<X, T>(w, g->b, s); r.guard = g->ok(); Look::at(g->b.t, r); delete g; return r;
    }
    // spans look at memory of their own
    template <typename X, typename E, size_t N, size_t M> Res span(Way w, Source& s) {
        Res r; struct Mem { unsigned char pre[32]; E e[N]; unsigned char post[32]; }; auto m = new Mem(); memset(m->pre, 0x5A, 32); memset(m->post, 0xA5, 32);
        typedef std::span<E, M> T; alignas(T) unsigned char raw[sizeof(Box<T>)]; Box<T>* b = (Box<T>*)raw; new (&b->t) T(m->e, N);
        r.r = go<X, T>(w, *b, s); for (int i = 0; i != 32; ++i) if (m->pre[i] != 0x5A || m->post[i] != 0xA5) r.guard = false;
        if (b->t.data() != m->e || b->t.size() != N) r.guard = false;
        Look::at(m->e, r); delete m; return r;
    }
    struct Add : Cap { Add(const char* t, Fmt f_, Shape sh, unsigned n_, unsigned u, bool g, Res (*rd)(Way, Source&)) { type = t; f = f_; shape = sh; n = n_; unit = u; grows = g; read = rd; next = caps; caps = this; } };
#   define CAT_(a, b) a##b
#   define CAT(a, b) CAT_(a, b)
#   define ONE(X, F, S, N, U, G, ...) static Add CAT(add_, __COUNTER__)(#__VA_ARGS__, sim::F, S, N, U, G, one<X, __VA_ARGS__>);
#   define JB(S, N, U, G, ...) ONE(XJ, F_JSON, S, N, U, G, __VA_ARGS__) ONE(XB, F_CBOR, S, N, U, G, __VA_ARGS__)
#   define JCB(S, N, U, G, ...) JB(S, N, U, G, __VA_ARGS__) ONE(XC, F_CXCF, S, N, U, G, __VA_ARGS__)
#   define SPAN(E, S, N, M, T) static Add CAT(add_, __COUNTER__)(T, sim::F_JSON, S, N, 0, false, span<XJ, E, N, M>); static Add CAT(add_, __COUNTER__)(T, sim::F_CBOR, S, N, 0, false, span<XB, E, N, M>);
    typedef int i1[1]; typedef int i2[2]; typedef int i7[7]; typedef std::string s3[3]; typedef std::vector<int> v2[2]; typedef unsigned char u1[1]; typedef unsigned char u8_[8];
    typedef char c1[1]; typedef char c2[2]; typedef char c5[5]; typedef char c16[16]; typedef char16_t w1[1]; typedef char16_t w2[2]; typedef char16_t w7[7]; typedef char32_t d1[1]; typedef char32_t d3[3];
    typedef std::array<int, 0> a0; typedef std::array<int, 1> a1; typedef std::array<int, 5> a5; typedef std::array<std::string, 2> as2; typedef std::array<unsigned char, 4> au4;
    typedef std::tuple<int> t1; typedef std::tuple<int, int, int> t3; typedef std::tuple<int, int> t2; typedef std::pair<int, int> p2;
    typedef boost::container::static_vector<int, 1> sv1; typedef boost::container::static_vector<int, 6> sv6; typedef boost::container::static_vector<std::string, 3> svs3;
    JCB(INTS, 1, 0, false, i1) JCB(INTS, 2, 0, false, i2) JB(INTS, 7, 0, false, i7) JCB(STRS, 3, 0, false, s3) JB(LISTS, 2, 0, false, v2) JB(BYTES, 1, 0, false, u1) JB(BYTES, 8, 0, false, u8_)
    JCB(TEXT, 1, 1, false, c1) JCB(TEXT, 2, 1, false, c2) JB(TEXT, 5, 1, false, c5) JCB(TEXT, 16, 1, false, c16) JB(TEXT, 1, 2, false, w1) JB(TEXT, 2, 2, false, w2) JB(TEXT, 7, 2, false, w7) JB(TEXT, 1, 4, false, d1) JB(TEXT, 3, 4, false, d3)
    JB(INTS, 0, 0, false, a0) JB(INTS, 1, 0, false, a1) JCB(INTS, 5, 0, false, a5) JB(STRS, 2, 0, false, as2) JB(BYTES, 4, 0, false, au4)
    JB(BITS, 1, 0, false, std::bitset<1>) JB(BITS, 7, 0, false, std::bitset<7>) JB(BITS, 8, 0, false, std::bitset<8>) JB(BITS, 9, 0, false, std::bitset<9>) JB(BITS, 33, 0, false, std::bitset<33>)
    JB(TUPLE, 1, 0, false, t1) JB(TUPLE, 2, 0, false, t2) JCB(TUPLE, 3, 0, false, t3) JB(TUPLE, 2, 0, false, p2)
    JB(INTS, 1, 0, true, sv1) JB(INTS, 6, 0, true, sv6) JB(STRS, 3, 0, true, svs3)
    SPAN(int, INTS, 3, 3, "span<int,3>") SPAN(int, INTS, 4, std::dynamic_extent, "span<int>") SPAN(std::string, STRS, 2, 2, "span<string,2>") SPAN(unsigned char, BYTES, 5, 5, "span<unsigned char,5>") SPAN(unsigned char, BYTES, 6, std::dynamic_extent, "span<unsigned char>")
}
