// sets, maps, pairs, tuples
#include "zoo.hxx"
#include "cxon/lib/std/string.hxx"
#include "cxon/lib/std/vector.hxx"
#include "cxon/lib/std/set.hxx"
#include "cxon/lib/std/unordered_set.hxx"
#include "cxon/lib/std/map.hxx"
#include "cxon/lib/std/unordered_map.hxx"
#include "cxon/lib/std/tuple.hxx"
#include "cxon/lib/std/utility.hxx"
namespace zoo {
    template <> struct Tr<std::string> : TrStr<std::string> {};
    template <typename T> struct Tr<std::vector<T>> : TrSeq<std::vector<T>> {};
    template <typename T> struct Tr<std::set<T>> : TrSet<std::set<T>> {};
    template <typename T> struct Tr<std::multiset<T>> : TrSet<std::multiset<T>> {};
    template <typename T> struct Tr<std::unordered_set<T>> : TrSet<std::unordered_set<T>> {};
    template <typename K, typename T> struct Tr<std::map<K, T>> : TrMap<std::map<K, T>> {};
    template <typename K, typename T> struct Tr<std::multimap<K, T>> : TrMap<std::multimap<K, T>> {};
    template <typename K, typename T> struct Tr<std::unordered_map<K, T>> : TrMap<std::unordered_map<K, T>> {};
    template <typename A, typename B> struct Tr<std::pair<A, B>> {
        typedef std::pair<A, B> C;
        static void gen(Sim& s, C& c, unsigned d) { zoo::gen(s, c.first, d ? d - 1 : 0); zoo::gen(s, c.second, d ? d - 1 : 0); }
        static Val to(const C& c, Fmt f) { Val v = Val::arr(); v.add(zoo::to<A>(c.first, f)); v.add(zoo::to<B>(c.second, f)); return v; }
        static bool eq(const C& a, const C& b) { return zoo::eq<A>(a.first, b.first) && zoo::eq<B>(a.second, b.second); }
        static From from(const Val& v, Fmt f, C& c) {
            const Val& u = f == F_CBOR ? untag(v) : v;
            if (u.k != Val::ARR) return f == F_CBOR ? UNKNOWN : REJECT;
            if (u.a.size() != 2) return REJECT;
            From p = zoo::from<A>(u.a[0], f, c.first), q = zoo::from<B>(u.a[1], f, c.second);
            return p == REJECT || q == REJECT ? REJECT : p == UNKNOWN || q == UNKNOWN ? UNKNOWN : ACCEPT;
        }
    };
    template <typename A, typename B, typename D> struct Tr<std::tuple<A, B, D>> {
        typedef std::tuple<A, B, D> C;
        static void gen(Sim& s, C& c, unsigned d) { if (d) --d; zoo::gen(s, std::get<0>(c), d); zoo::gen(s, std::get<1>(c), d); zoo::gen(s, std::get<2>(c), d); }
        static Val to(const C& c, Fmt f) { Val v = Val::arr(); v.add(zoo::to<A>(std::get<0>(c), f)); v.add(zoo::to<B>(std::get<1>(c), f)); v.add(zoo::to<D>(std::get<2>(c), f)); return v; }
        static bool eq(const C& a, const C& b) { return zoo::eq<A>(std::get<0>(a), std::get<0>(b)) && zoo::eq<B>(std::get<1>(a), std::get<1>(b)) && zoo::eq<D>(std::get<2>(a), std::get<2>(b)); }
        static From from(const Val& v, Fmt f, C& c) {
            const Val& u = f == F_CBOR ? untag(v) : v;
            if (u.k != Val::ARR) return f == F_CBOR ? UNKNOWN : REJECT;
            if (u.a.size() != 3) return REJECT;
            From p = zoo::from<A>(u.a[0], f, std::get<0>(c)), q = zoo::from<B>(u.a[1], f, std::get<1>(c)), r = zoo::from<D>(u.a[2], f, std::get<2>(c));
            return p == REJECT || q == REJECT || r == REJECT ? REJECT : p == UNKNOWN || q == UNKNOWN || r == UNKNOWN ? UNKNOWN : ACCEPT;
        }
    };
}
namespace { using namespace zoo;
    ZOO_JB("set<int>", 0, std::set<int>)
    ZOO_JB("multiset<string>", CHARS, std::multiset<std::string>)
    ZOO_JB("unordered_set<int>", UNORDERED, std::unordered_set<int>)
    ZOO_JCB("map<string,int>", CHARS, std::map<std::string, int>)
    ZOO_JB("map<int,string>", CHARS, std::map<int, std::string>)
    ZOO_JB("multimap<string,bool>", CHARS, std::multimap<std::string, bool>)
    ZOO_JB("unordered_map<string,double>", CHARS | UNORDERED | FLOATS, std::unordered_map<std::string, double>)
    ZOO_JCB("map<string,map<string,vector<int>>>", CHARS, std::map<std::string, std::map<std::string, std::vector<int>>>)
    typedef std::pair<int, std::string> pair_is; ZOO_JB("pair<int,string>", CHARS | FIXED | NOINDEF, pair_is)
    typedef std::tuple<int, std::string, std::vector<int>> tuple_isv; ZOO_JCB("tuple<int,string,vector<int>>", CHARS | FIXED | NOINDEF, tuple_isv)
}
