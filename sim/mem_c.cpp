// containers of the standard library on a resource
#include "zoo.hxx"
#include "res.hxx"
#include "cxon/lib/std/string.hxx"
#include "cxon/lib/std/vector.hxx"
#include "cxon/lib/std/deque.hxx"
#include "cxon/lib/std/list.hxx"
#include "cxon/lib/std/forward_list.hxx"
#include "cxon/lib/std/map.hxx"
#include "cxon/lib/std/set.hxx"
#include "cxon/lib/std/unordered_map.hxx"
#include "cxon/lib/std/utility.hxx"
#include "cxon/lib/std/tuple.hxx"
#include "mem.hxx"
namespace p {
    template <typename T> using A = sim::SimAlloc<T>;
    using string = std::basic_string<char, std::char_traits<char>, A<char>>;
    using u16string = std::basic_string<char16_t, std::char_traits<char16_t>, A<char16_t>>;
    template <typename T> using vector = std::vector<T, A<T>>;
    template <typename T> using deque = std::deque<T, A<T>>;
    template <typename T> using list = std::list<T, A<T>>;
    template <typename T> using forward_list = std::forward_list<T, A<T>>;
    template <typename T> using set = std::set<T, std::less<T>, A<T>>;
    template <typename K, typename V> using map = std::map<K, V, std::less<K>, A<std::pair<const K, V>>>;
    template <typename K, typename V> using multimap = std::multimap<K, V, std::less<K>, A<std::pair<const K, V>>>;
    struct hash { size_t operator ()(const string& s) const { return sim::hash_bytes(s.data(), s.size(), 7); } };
    template <typename K, typename V> using unordered_map = std::unordered_map<K, V, hash, std::equal_to<K>, A<std::pair<const K, V>>>;
}
namespace zoo {
    template <> struct Tr<p::string> : TrStr<p::string> {};
    template <> struct Tr<p::u16string> : TrStr<p::u16string> {};
    template <typename T> struct Tr<p::vector<T>> : TrSeq<p::vector<T>> {};
    template <typename T> struct Tr<p::deque<T>> : TrSeq<p::deque<T>> {};
    template <typename T> struct Tr<p::list<T>> : TrSeq<p::list<T>> {};
    template <typename T> struct Tr<p::set<T>> : TrSet<p::set<T>> {};
    template <typename K, typename V> struct Tr<p::map<K, V>> : TrMap<p::map<K, V>> {};
    template <typename K, typename V> struct Tr<p::multimap<K, V>> : TrMap<p::multimap<K, V>> {};
    template <typename K, typename V> struct Tr<p::unordered_map<K, V>> : TrMap<p::unordered_map<K, V>> {};
    template <> struct Tr<p::forward_list<p::string>> : NoFrom {
        typedef p::forward_list<p::string> C;
        static void gen(Sim& s, C& c, unsigned) { c.clear(); size_t k = s.size(9); while (k--) { p::string t; zoo::gen(s, t, 0); c.push_front(t); } }
        static Val to(const C& c, Fmt f) { Val v = Val::arr(); for (const auto& e : c) v.add(zoo::to(e, f)); return v; }
        static bool eq(const C& a, const C& b) { return a == b; }
    };
    template <typename A, typename B> struct Tr<std::pair<A, B>> : NoFrom {
        typedef std::pair<A, B> C;
        static void gen(Sim& s, C& c, unsigned d) { zoo::gen(s, c.first, d); zoo::gen(s, c.second, d); }
        static Val to(const C& c, Fmt f) { return Val::arr().add(zoo::to(c.first, f)).add(zoo::to(c.second, f)); }
        static bool eq(const C& a, const C& b) { return zoo::eq(a.first, b.first) && zoo::eq(a.second, b.second); }
    };
    template <typename A, typename B, typename D> struct Tr<std::tuple<A, B, D>> : NoFrom {
        typedef std::tuple<A, B, D> C;
        static void gen(Sim& s, C& c, unsigned d) { zoo::gen(s, std::get<0>(c), d); zoo::gen(s, std::get<1>(c), d); zoo::gen(s, std::get<2>(c), d); }
        static Val to(const C& c, Fmt f) { return Val::arr().add(zoo::to(std::get<0>(c), f)).add(zoo::to(std::get<1>(c), f)).add(zoo::to(std::get<2>(c), f)); }
        static bool eq(const C& a, const C& b) { return a == b; }
    };
}
namespace mem {
    template <> struct Foreign<p::string> { static Res* get(const p::string& s, Res* r) { return other(s.get_allocator(), r); } };
    template <typename A, typename B> struct Foreign<std::pair<A, B>> { static Res* get(const std::pair<A, B>& s, Res* r) { Res* x = Foreign<typename std::remove_const<A>::type>::get(s.first, r); return x ? x : Foreign<B>::get(s.second, r); } };
    template <typename C> struct SeqForeign { static Res* get(const C& c, Res* r) { if (Res* x = other(c.get_allocator(), r)) return x; for (const auto& e : c) if (Res* x = Foreign<typename C::value_type>::get(e, r)) return x; return nullptr; } };
    template <typename T> struct Foreign<p::vector<T>> : SeqForeign<p::vector<T>> {};
    template <typename T> struct Foreign<p::deque<T>> : SeqForeign<p::deque<T>> {};
    template <typename T> struct Foreign<p::list<T>> : SeqForeign<p::list<T>> {};
    template <typename T> struct Foreign<p::forward_list<T>> : SeqForeign<p::forward_list<T>> {};
    template <typename T> struct Foreign<p::set<T>> : SeqForeign<p::set<T>> {};
    template <typename K, typename V> struct Foreign<p::map<K, V>> : SeqForeign<p::map<K, V>> {};
    template <typename K, typename V> struct Foreign<p::multimap<K, V>> : SeqForeign<p::multimap<K, V>> {};
    template <typename K, typename V> struct Foreign<p::unordered_map<K, V>> : SeqForeign<p::unordered_map<K, V>> {};
}
typedef p::map<p::string, p::vector<p::string>> map_of_vectors;
typedef p::map<p::string, p::map<p::string, p::string>> map_of_maps;
typedef p::unordered_map<p::string, p::string> unordered;
typedef p::multimap<p::string, p::string> multi;
typedef p::vector<std::pair<p::string, p::string>> pairs;
typedef p::vector<std::tuple<p::string, int, p::string>> tuples;
namespace { using namespace zoo;
#   define MEM(T)\
        MEM_C(F_JSON, XJ, XJL, CHARS, T)\
        MEM_C(F_CBOR, XB, XB, CHARS, T)
    MEM(p::string)
    MEM(p::vector<p::string>)
    MEM(p::deque<p::string>)
    MEM(p::forward_list<p::string>)
    MEM(p::list<p::vector<int>>)
    MEM(p::set<p::string>)
    MEM(map_of_vectors)
    MEM(map_of_maps)
    MEM(unordered)
    MEM(multi)
    MEM(pairs)
    MEM(tuples)
}
