// boost
#include "zoo.hxx"
#include "cxon/lib/std/string.hxx"
#include "cxon/lib/std/vector.hxx"
#include "cxon/lib/boost/container/small_vector.hxx"
#include "cxon/lib/boost/container/static_vector.hxx"
#include "cxon/lib/boost/container/stable_vector.hxx"
#include "cxon/lib/boost/container/deque.hxx"
#include "cxon/lib/boost/container/list.hxx"
#include "cxon/lib/boost/container/slist.hxx"
#include "cxon/lib/boost/container/flat_map.hxx"
#include "cxon/lib/boost/container/flat_set.hxx"
#include "cxon/lib/boost/container/string.hxx"
#include "cxon/lib/boost/dynamic_bitset.hxx"
#include "cxon/lib/boost/variant.hxx"
#include "cxon/lib/boost/variant2.hxx"
namespace zoo {
    namespace bc = boost::container;
    template <> struct Tr<std::string> : TrStr<std::string> {};
    template <> struct Tr<bc::string> : TrStr<bc::string> {};
    template <typename T> struct Tr<std::vector<T>> : TrSeq<std::vector<T>> {};
    template <typename T, std::size_t N> struct Tr<bc::small_vector<T, N>> : TrSeq<bc::small_vector<T, N>> {};
    template <typename T> struct Tr<bc::stable_vector<T>> : TrSeq<bc::stable_vector<T>> {};
    template <typename T> struct Tr<bc::deque<T>> : TrSeq<bc::deque<T>> {};
    template <typename T> struct Tr<bc::list<T>> : TrSeq<bc::list<T>> {};
    template <typename T> struct Tr<bc::slist<T>> : TrSeq<bc::slist<T>> {};
    template <typename T, std::size_t N> struct Tr<bc::static_vector<T, N>> : TrSeq<bc::static_vector<T, N>> {
        typedef bc::static_vector<T, N> C;
        static void gen(Sim& s, C& c, unsigned d) { c.clear(); size_t k = s.size(N); while (k--) { T v = T(); zoo::gen(s, v, d ? d - 1 : 0); c.push_back(v); } }
        static From from(const Val& v, Fmt f, C& c) { const Val& u = f == F_CBOR ? untag(v) : v; if (u.k == Val::ARR && u.a.size() > N) return REJECT; return TrSeq<C>::from(v, f, c); }
    };
    template <typename K, typename M> struct Tr<bc::flat_map<K, M>> : TrMap<bc::flat_map<K, M>> {};
    template <typename T> struct Tr<bc::flat_set<T>> : TrSet<bc::flat_set<T>> {};
    template <> struct Tr<boost::dynamic_bitset<>> {
        typedef boost::dynamic_bitset<> C;
        static void gen(Sim& s, C& c, unsigned) { C n; size_t k = s.draw(3) == 2 ? s.draw(300) : s.size(40); while (k--) n.push_back(s.draw(2)); c = n; }
        static Val to(const C& c, Fmt f) {
            size_t const N = c.size(); std::string o;
            if (f != F_CBOR) { for (size_t i = N; i; --i) o += c[i - 1] ? '1' : '0'; return Val::str(o); }
            size_t const m = (N + 7) / 8; o += (char)(m * 8 - N);
            for (size_t k = m; k; --k) { unsigned b = 0; for (size_t j = 0; j != 8; ++j) { size_t const i = (k - 1) * 8 + j; if (i < N && c[i]) b |= 1u << j; } o += (char)b; }
            return Val::bytes(o);
        }
        static bool eq(const C& a, const C& b) { return a == b; }
        static From from(const Val& v, Fmt f, C& c) {
            if (f == F_CBOR) return untag(v).k == Val::BYTES ? UNKNOWN : REJECT;
            if (v.k != Val::STR) return REJECT;
            C n; for (size_t i = v.s.size(); i; --i) { if (v.s[i - 1] != '0' && v.s[i - 1] != '1') return REJECT; n.push_back(v.s[i - 1] == '1'); }
            c = n; return ACCEPT;
        }
    };
    template <> struct Tr<boost::variant<int, std::string>> {
        typedef boost::variant<int, std::string> C;
        static void gen(Sim& s, C& c, unsigned) { if (s.draw(2)) { std::string t; zoo::gen(s, t, 0); c = t; } else { int t; zoo::gen(s, t, 0); c = t; } }
        static Val to(const C& c, Fmt f) { Val v = c.which() ? zoo::to<std::string>(boost::get<std::string>(c), f) : zoo::to<int>(boost::get<int>(c), f); return f == F_CBOR ? Val::arr().add(Val::uint((unsigned)c.which())).add(v) : v; }
        static bool eq(const C& a, const C& b) { return a == b; }
        static From from(const Val&, Fmt, C&) { return UNKNOWN; }
    };
    template <> struct Tr<boost::variant2::variant<bool, std::vector<int>, std::string>> {
        typedef boost::variant2::variant<bool, std::vector<int>, std::string> C;
        static void gen(Sim& s, C& c, unsigned d) { switch (s.draw(3)) { case 0: c = (bool)s.draw(2); break; case 1: { std::vector<int> t; zoo::gen(s, t, d); c = t; break; } default: { std::string t; zoo::gen(s, t, 0); c = t; } } }
        static Val to(const C& c, Fmt f) {
            Val v = c.index() == 0 ? Val::boolean(boost::variant2::get<0>(c)) : c.index() == 1 ? zoo::to<std::vector<int>>(boost::variant2::get<1>(c), f) : zoo::to<std::string>(boost::variant2::get<2>(c), f);
            return f == F_CBOR ? Val::arr().add(Val::uint(c.index())).add(v) : v;
        }
        static bool eq(const C& a, const C& b) { return a == b; }
        static From from(const Val&, Fmt, C&) { return UNKNOWN; }
    };
}
namespace { using namespace zoo;
    typedef bc::small_vector<int, 3> sv; ZOO_JB("boost::small_vector<int,3>", 0, sv)
    typedef bc::static_vector<int, 4> stv; ZOO_JB("boost::static_vector<int,4>", FIXED, stv)
    ZOO_JB("boost::stable_vector<string>", CHARS, bc::stable_vector<std::string>)
    ZOO_JB("boost::deque<double>", FLOATS, bc::deque<double>)
    ZOO_JB("boost::list<int>", 0, bc::list<int>)
    ZOO_JB("boost::slist<int>", 0, bc::slist<int>)
    typedef bc::flat_map<std::string, int> fm; ZOO_JB("boost::flat_map<string,int>", CHARS, fm)
    ZOO_JB("boost::flat_set<int>", UNORDERED, bc::flat_set<int>)
    ZOO_JB("boost::string", CHARS, bc::string)
    ZOO_JB("boost::dynamic_bitset", NOINDEF | PLAINTXT, boost::dynamic_bitset<>)
    typedef boost::variant<int, std::string> bv; ZOO_JB("boost::variant<int,string>", CHARS | NOINDEF | PLAINTXT, bv)
    typedef boost::variant2::variant<bool, std::vector<int>, std::string> bv2; ZOO_JB("boost::variant2", CHARS | NOINDEF | PLAINTXT, bv2)
}
