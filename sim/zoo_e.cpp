// optional, variant, smart pointers, adaptors, bitset, complex, chrono
#include "zoo.hxx"
#include "cxon/lib/std/string.hxx"
#include "cxon/lib/std/vector.hxx"
#include "cxon/lib/std/optional.hxx"
#include "cxon/lib/std/variant.hxx"
#include "cxon/lib/std/memory.hxx"
#include "cxon/lib/std/bitset.hxx"
#include "cxon/lib/std/complex.hxx"
#include "cxon/lib/std/chrono.hxx"
#include "cxon/lib/std/queue.hxx"
#include "cxon/lib/std/stack.hxx"
namespace zoo {
    template <> struct Tr<std::string> : TrStr<std::string> {};
    template <typename T> struct Tr<std::vector<T>> : TrSeq<std::vector<T>> {};
    template <typename T> struct Tr<std::optional<T>> {
        typedef std::optional<T> C;
        static void gen(Sim& s, C& c, unsigned d) { if (s.draw(4) == 3) { c.reset(); return; } T t{}; zoo::gen(s, t, d); c = std::move(t); }
        static Val to(const C& c, Fmt f) { return c ? zoo::to<T>(*c, f) : f == F_CBOR ? Val::undef() : Val::null(); }
        static bool eq(const C& a, const C& b) { return !a || !b ? !a == !b : zoo::eq<T>(*a, *b); }
        static From from(const Val& v, Fmt f, C& c) {
            if ((f == F_CBOR ? untag(v) : v).k == (f == F_CBOR ? Val::UNDEF : Val::NUL)) { c.reset(); return ACCEPT; }
            T t{}; From r = zoo::from<T>(v, f, t); if (r == ACCEPT) c = std::move(t); return r;
        }
    };
    template <> struct Tr<std::monostate> {
        static void gen(Sim&, std::monostate&, unsigned) {}
        static Val to(std::monostate, Fmt f) { return f == F_CBOR ? Val::undef() : Val::null(); }
        static bool eq(std::monostate, std::monostate) { return true; }
        static From from(const Val&, Fmt, std::monostate&) { return UNKNOWN; }
    };
    template <typename... T> struct is_ambiguous : cxon::cio::var::has_ambiguous_types<std::variant<T...>> {};
    template <typename... T> struct Tr<std::variant<T...>> {
        typedef std::variant<T...> C;
        template <size_t N> static void set(Sim& s, C& c, size_t k, unsigned d) {
            if constexpr (N < sizeof...(T)) { if (k == N) { std::variant_alternative_t<N, C> t{}; zoo::gen(s, t, d); c.template emplace<N>(std::move(t)); } else set<N + 1>(s, c, k, d); }
        }
        static void gen(Sim& s, C& c, unsigned d) { set<0>(s, c, s.draw(sizeof...(T)), d); }
        static Val to(const C& c, Fmt f) {
            Val v = std::visit([&](const auto& e) { return zoo::to<typename std::decay<decltype(e)>::type>(e, f); }, c);
            if (f == F_CBOR) return Val::arr().add(Val::uint(c.index())).add(v);
            if (is_ambiguous<T...>::value) return Val::map().add(Val::uint(c.index()), v);
            return v;
        }
        static bool eq(const C& a, const C& b) {
            if (a.index() != b.index()) return false;
            return std::visit([&](const auto& e) { typedef typename std::decay<decltype(e)>::type E; return zoo::eq<E>(e, *std::get_if<E>(&b)); }, a);
        }
        static From from(const Val&, Fmt, C&) { return UNKNOWN; }
    };
    template <typename P, typename T> struct TrSmart {
        static void gen(Sim& s, P& c, unsigned d) { if (s.draw(4) == 3) { c.reset(); return; } c.reset(new T()); zoo::gen(s, *c, d); }
        static Val to(const P& c, Fmt f) { return c ? zoo::to<T>(*c, f) : Val::null(); }
        static bool eq(const P& a, const P& b) { return !a || !b ? !a == !b : zoo::eq<T>(*a, *b); }
        static From from(const Val& v, Fmt f, P& c) {
            const Val& u = f == F_CBOR ? untag(v) : v;
            if (u.k == Val::NUL) { c.reset(); return ACCEPT; }
            T t = T(); From r = zoo::from<T>(v, f, t); if (r == ACCEPT) c.reset(new T(t)); return r;
        }
    };
    template <typename T> struct Tr<std::unique_ptr<T>> : TrSmart<std::unique_ptr<T>, T> {};
    template <typename T> struct Tr<std::shared_ptr<T>> : TrSmart<std::shared_ptr<T>, T> {};
    template <> struct Life<int*> { static void end(int*& t) { ::operator delete(t); t = nullptr; } };
    template <> struct Tr<int*> {
        static void gen(Sim& s, int*& t, unsigned d) { Life<int*>::end(t); if (s.draw(4) != 3) { t = std::allocator<int>().allocate(1); *t = 0; zoo::gen(s, *t, d); } }
        static Val to(int* const& c, Fmt f) { return c ? zoo::to<int>(*c, f) : Val::null(); }
        static bool eq(int* const& a, int* const& b) { return !a || !b ? !a == !b : *a == *b; }
        static From from(const Val&, Fmt, int*&) { return UNKNOWN; }
    };
    template <size_t N> struct Tr<std::bitset<N>> {
        typedef std::bitset<N> C;
        static void gen(Sim& s, C& c, unsigned) { for (size_t i = 0; i != N; ++i) c[i] = s.draw(2); }
        static Val to(const C& c, Fmt f) {
            if (f != F_CBOR) return Val::str(c.to_string());
            size_t const m = (N + 7) / 8; std::string o; o += (char)(m * 8 - N);
            for (size_t k = m; k; --k) { unsigned b = 0; for (size_t j = 0; j != 8; ++j) { size_t const i = (k - 1) * 8 + j; if (i < N && c[i]) b |= 1u << j; } o += (char)b; }
            return Val::bytes(o);
        }
        static bool eq(const C& a, const C& b) { return a == b; }
        static From from(const Val& v, Fmt f, C& c) {
            if (f == F_CBOR) return untag(v).k == Val::BYTES ? UNKNOWN : REJECT;
            if (v.k != Val::STR || v.s.size() != N) return REJECT;
            for (size_t i = 0; i != N; ++i) { if (v.s[i] != '0' && v.s[i] != '1') return REJECT; c[N - 1 - i] = v.s[i] == '1'; }
            return ACCEPT;
        }
    };
    template <typename T> struct Tr<std::complex<T>> {
        typedef std::complex<T> C;
        static void gen(Sim& s, C& c, unsigned d) { T a, b; zoo::gen(s, a, d); zoo::gen(s, b, d); c = C(a, b); }
        static Val to(const C& c, Fmt f) { return Val::arr().add(zoo::to<T>(c.real(), f)).add(zoo::to<T>(c.imag(), f)); }
        static bool eq(const C& a, const C& b) { return zoo::eq<T>(a.real(), b.real()) && zoo::eq<T>(a.imag(), b.imag()); }
        static From from(const Val& v, Fmt f, C& c) {
            const Val& u = f == F_CBOR ? untag(v) : v;
            if (u.k != Val::ARR || u.a.size() != 2) return f == F_CBOR ? UNKNOWN : REJECT;
            T a, b; From p = zoo::from<T>(u.a[0], f, a), q = zoo::from<T>(u.a[1], f, b);
            if (p == REJECT || q == REJECT) return REJECT;
            if (p == UNKNOWN || q == UNKNOWN) return UNKNOWN;
            c = C(a, b); return ACCEPT;
        }
    };
    template <typename R, typename P> struct Tr<std::chrono::duration<R, P>> {
        typedef std::chrono::duration<R, P> C;
        static void gen(Sim& s, C& c, unsigned d) { R r; zoo::gen(s, r, d); c = C(r); }
        static Val to(const C& c, Fmt f) { return zoo::to<R>(c.count(), f); }
        static bool eq(const C& a, const C& b) { return a == b; }
        static From from(const Val& v, Fmt f, C& c) { R r{}; From q = zoo::from<R>(v, f, r); c = C(r); return q; }
    };
    typedef std::chrono::time_point<std::chrono::system_clock, std::chrono::duration<long, std::nano>> Tp;
    template <> struct Tr<Tp> {
        static void gen(Sim& s, Tp& c, unsigned d) { Tp::duration r; zoo::gen(s, r, d); c = Tp(r); }
        static Val to(const Tp& c, Fmt f) { return zoo::to<Tp::duration>(c.time_since_epoch(), f); }
        static bool eq(const Tp& a, const Tp& b) { return a == b; }
        static From from(const Val& v, Fmt f, Tp& c) { Tp::duration r{}; From q = zoo::from<Tp::duration>(v, f, r); c = Tp(r); return q; }
    };
    // adaptors: through the underlying container
    template <typename A> struct Peek : A { static typename A::container_type& c_(A& a) { return a.*(&Peek::c); } static const typename A::container_type& c_(const A& a) { return a.*(&Peek::c); } };
    template <typename A> struct TrAdapt {
        static void gen(Sim& s, A& a, unsigned d) { A n; typename A::value_type v{}; size_t k = s.size(8); while (k--) { zoo::gen(s, v, d); n.push(v); } a = n; }
        static Val to(const A& a, Fmt f) { Val v = Val::arr(); for (const auto& e : Peek<A>::c_(a)) v.a.push_back(zoo::to<typename A::value_type>(e, f)); return v; }
        static bool eq(const A& a, const A& b) { return Peek<A>::c_(a) == Peek<A>::c_(b); }
        static From from(const Val&, Fmt, A&) { return UNKNOWN; }
    };
    template <typename T> struct Tr<std::queue<T>> : TrAdapt<std::queue<T>> {};
    template <typename T> struct Tr<std::stack<T>> : TrAdapt<std::stack<T>> {
        static Val to(const std::stack<T>& a, Fmt f) { Val v = TrAdapt<std::stack<T>>::to(a, f); if (f == F_CBOR) return v; std::vector<Val> r(v.a.rbegin(), v.a.rend()); v.a = r; return v; }
    };
    template <typename T> struct Tr<std::priority_queue<T>> : TrAdapt<std::priority_queue<T>> {
        static bool eq(std::priority_queue<T> a, std::priority_queue<T> b) { if (a.size() != b.size()) return false; for ( ; !a.empty(); a.pop(), b.pop()) if (a.top() != b.top()) return false; return true; }
    };
}
namespace { using namespace zoo;
    ZOO_JCB("optional<int>", NUMERIC, std::optional<int>)
    ZOO_JB("optional<string>", CHARS, std::optional<std::string>)
    typedef std::variant<std::monostate, bool, int, std::string, std::vector<int>> var5; ZOO_JB("variant<monostate,bool,int,string,vector<int>>", NOINDEF | PLAINTXT | CHARS, var5)
    typedef std::variant<int, double, std::string> var3; ZOO_JB("variant<int,double,string>", NOINDEF | PLAINTXT | CHARS | FLOATS, var3)
    ZOO_JB("unique_ptr<int>", 0, std::unique_ptr<int>)
    ZOO_JB("shared_ptr<int>", 0, std::shared_ptr<int>)
    ZOO_JB("unique_ptr<string>", CHARS, std::unique_ptr<std::string>)
    ZOO_JB("unique_ptr<vector<string>>", CHARS, std::unique_ptr<std::vector<std::string>>)
    ZOO_JB("int*", RAWPTR, int*)
    ZOO_JB("bitset<5>", FIXED | NOINDEF | PLAINTXT, std::bitset<5>)
    ZOO_JB("bitset<19>", FIXED | NOINDEF | PLAINTXT, std::bitset<19>)
    ZOO_JB("bitset<64>", FIXED | NOINDEF | PLAINTXT, std::bitset<64>)
    ZOO_JB("complex<double>", FIXED | NOINDEF | FLOATS, std::complex<double>)
    typedef std::chrono::duration<int, std::milli> dur; ZOO_JB("chrono::duration<int>", NUMERIC, dur)
    ZOO_JB("chrono::time_point", NUMERIC, Tp)
    ZOO_JB("queue<int>", 0, std::queue<int>)
    ZOO_J("stack<int>", NOEQ, std::stack<int>)
    ZOO_B("stack<int>", 0, std::stack<int>)
    ZOO_JB("priority_queue<int>", 0, std::priority_queue<int>)
}
