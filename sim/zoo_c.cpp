// sequences and sets
#include "zoo.hxx"
#include "cxon/lib/std/string.hxx"
#include "cxon/lib/std/vector.hxx"
#include "cxon/lib/std/deque.hxx"
#include "cxon/lib/std/list.hxx"
#include "cxon/lib/std/forward_list.hxx"
#include "cxon/lib/std/array.hxx"
#include "cxon/lib/std/valarray.hxx"
namespace zoo {
    template <> struct Tr<std::string> : TrStr<std::string> {};
    template <typename T> struct Tr<std::vector<T>, typename std::enable_if<!std::is_same<T, unsigned char>::value>::type> : TrSeq<std::vector<T>> {};
    template <typename T> struct Tr<std::vector<T>, typename std::enable_if<std::is_same<T, unsigned char>::value>::type> : TrBytes<std::vector<T>> {};
    template <typename T> struct Tr<std::deque<T>> : TrSeq<std::deque<T>> {};
    template <typename T> struct Tr<std::list<T>> : TrSeq<std::list<T>> {};
    template <typename T> struct Tr<std::forward_list<T>> {
        typedef std::forward_list<T> C;
        static void gen(Sim& s, C& c, unsigned d) { std::list<T> l; Tr<std::list<T>>::gen(s, l, d); c.assign(l.begin(), l.end()); }
        static Val to(const C& c, Fmt f) { std::list<T> l(c.begin(), c.end()); return Tr<std::list<T>>::to(l, f); }
        static bool eq(const C& a, const C& b) { return a == b; }
        static From from(const Val& v, Fmt f, C& c) { std::list<T> l; From r = Tr<std::list<T>>::from(v, f, l); c.assign(l.begin(), l.end()); return r; }
    };
    template <typename T, size_t N> struct Tr<std::array<T, N>> {
        typedef std::array<T, N> C; typedef T A[N];
        static void gen(Sim& s, C& c, unsigned d) { for (auto& e : c) zoo::gen(s, e, d ? d - 1 : 0); }
        static Val to(const C& c, Fmt f) { Val v = Val::arr(); for (auto& e : c) v.a.push_back(zoo::to<T>(e, f)); return v; }
        static bool eq(const C& a, const C& b) { for (size_t i = 0; i != N; ++i) if (!zoo::eq<T>(a[i], b[i])) return false; return true; }
        static From from(const Val& v, Fmt f, C& c) { A a{}; From r = Tr<A>::from(v, f, a); for (size_t i = 0; i != N; ++i) c[i] = a[i]; return r; }
    };
    template <typename T> struct Tr<std::valarray<T>> {
        typedef std::valarray<T> C; typedef std::vector<T> L;
        static void put(C& c, const L& l) { c.resize(l.size()); for (size_t i = 0; i != l.size(); ++i) c[i] = l[i]; }
        static L get(const C& c) { L l; for (size_t i = 0; i != c.size(); ++i) l.push_back(c[i]); return l; }
        static void gen(Sim& s, C& c, unsigned d) { L l; Tr<L>::gen(s, l, d); put(c, l); }
        static Val to(const C& c, Fmt f) { return Tr<L>::to(get(c), f); }
        static bool eq(const C& a, const C& b) { return Tr<L>::eq(get(a), get(b)); }
        static From from(const Val& v, Fmt f, C& c) { L l; From r = Tr<L>::from(v, f, l); put(c, l); return r; }
    };
}
namespace { using namespace zoo;
    ZOO_JCB("vector<int>", 0, std::vector<int>)
    ZOO_JB("vector<bool>", 0, std::vector<bool>)
    ZOO_JB("vector<uint8_t>", 0, std::vector<unsigned char>)
    ZOO_JB("vector<double>", FLOATS, std::vector<double>)
    ZOO_JB("deque<string>", CHARS, std::deque<std::string>)
    ZOO_JB("list<vector<int>>", 0, std::list<std::vector<int>>)
    ZOO_JB("forward_list<int>", 0, std::forward_list<int>)
    ZOO_JB("array<int,4>", FIXED, std::array<int, 4>)
    ZOO_JB("int[3]", FIXED, int[3])
    ZOO_JB("unsigned char[5]", FIXED | NOINDEF, unsigned char[5])
    ZOO_JB("valarray<int>", 0, std::valarray<int>)
    ZOO_JCB("vector<vector<string>>", CHARS, std::vector<std::vector<std::string>>)
}
