#include "env.hxx"
#include "cxon/json.hxx"
#include "cxon/cbor.hxx"
#include "cxon/cxcf.hxx"
#include "cxon/lib/node.ordered.hxx"
#include "cxon/lib/std/string.hxx"
#include "cxon/lib/std/vector.hxx"
#include "cxon/lib/std/list.hxx"
#include "cxon/lib/std/map.hxx"
#include "cxon/lib/std/complex.hxx"
#include "cxon/lib/std/utility.hxx"
#include <cstring>
namespace env { namespace ENV_NS {
    using sim::ReadRes; using sim::WriteRes; using sim::Source; using sim::SinkPlan;
    struct json_strict : cxon::json::format_traits { struct number : cxon::json::format_traits::number { static constexpr bool strict = true; }; };
    struct cxcf_strict : cxon::cxcf::format_traits { struct number : cxon::cxcf::format_traits::number { static constexpr bool strict = true; }; };
    typedef cxon::JSON<json_strict> XJ; typedef cxon::JSON<> XJL; typedef cxon::CXCF<cxcf_strict> XC; typedef cxon::CXCF<> XCL; typedef cxon::CBOR<> XB;
    struct Rec { int a; double b; float c; Rec() : a(0), b(0), c(0) {} };

    template <typename X, typename T, typename II> ReadRes go(T& t, II b, II e, II& end) {
        ReadRes r; sim::S->ops();
        try { auto const x = cxon::from_bytes<X>(t, b, e); r.ok = !x.ec; r.ec = x.ec.value(); end = x.end; }
        catch (const std::exception& x) { r.threw = true; sim::heap::Pause p; r.what = x.what(); }
        return r;
    }
    template <typename X, typename T> ReadRes ptr(T& t, Source& s) {
        sim::Exact ex(s.bytes); const char *b = ex.b, *end = b; sim::heap::Scope sc;
        ReadRes r = go<X>(t, b, b + ex.n, end); r.end = r.threw ? 0 : end >= b && end <= b + ex.n ? (long)(end - b) : -1; return r;
    }
    template <typename X, typename C, typename T> ReadRes it(T& t, Source& s) {
        typedef sim::It<C> I; I b(&s, 0), e(&s, (std::ptrdiff_t)s.bytes.size()), end = b; sim::heap::Scope sc;
        ReadRes r = go<X>(t, b, e, end); r.end = r.threw ? 0 : end.p >= 0 && end.p <= e.p ? (long)end.p : -1; return r;
    }
    template <typename X, typename L, typename T> ReadRes read(void* p, int w, Source& s) {
        T& t = *(T*)p;
        switch (w) {
            case PTR:   return ptr<X>(t, s);
            case LAX:   return ptr<L>(t, s);
#       if __cplusplus >= 201703L   // strings from forward iterators that are no more than that do not compile before
            case FWD:   return it<X, std::forward_iterator_tag>(t, s);
#       else
            case FWD:
#       endif
            case RA:    return it<X, std::random_access_iterator_tag>(t, s);
            default: {
                sim::StreamIt b(&s), e, end = b; sim::heap::Scope sc;
                ReadRes r = go<X>(t, b, e, end); r.end = r.threw ? 0 : (long)s.cur; return r;
            }
        }
    }
    template <typename L, typename T> WriteRes write(const void* p, bool append, const SinkPlan& pl) {
        const T& t = *(const T*)p; WriteRes r; sim::S->ops();
        if (append) {
            sim::SinkState st; st.plan = pl; sim::AppendSink<char> o(st); 
            { sim::heap::Scope sc; auto const x = cxon::to_bytes<L>(o, t); r.ok = !x.ec; r.ec = x.ec.value(); }
            r.bytes = st.got; return r;
        }
        std::string o; { sim::heap::Scope sc; auto const x = cxon::to_bytes<L>(o, t); r.ok = !x.ec; r.ec = x.ec.value(); } r.bytes = o; return r;
    }
    // what values are made of
    template <typename T> void raw(std::string& o, const T& t) { o.append((const char*)&t, sizeof(T)); o += ';'; }
    inline void put(std::string& o, bool t) { raw(o, t); }
    inline void put(std::string& o, int t) { raw(o, t); } inline void put(std::string& o, unsigned t) { raw(o, t); } inline void put(std::string& o, short t) { raw(o, t); } inline void put(std::string& o, unsigned short t) { raw(o, t); }
    inline void put(std::string& o, long t) { raw(o, t); } inline void put(std::string& o, unsigned long t) { raw(o, t); } inline void put(std::string& o, long long t) { raw(o, t); } inline void put(std::string& o, unsigned long long t) { raw(o, t); }
    inline void put(std::string& o, float t) { if (t != t) o += "nan;"; else raw(o, t); } inline void put(std::string& o, double t) { if (t != t) o += "nan;"; else raw(o, t); }
    inline void put(std::string& o, long double t) { if (t != t) { o += "nan;"; return; } o.append((const char*)&t, 10); o += ';'; }
    inline void put(std::string& o, const std::string& t) { o += t; o += ';'; } inline void put(std::string& o, const std::u16string& t) { o.append((const char*)t.data(), t.size() * 2); o += ';'; }
    template <typename A, typename B> void put(std::string& o, const std::pair<A, B>& t);
    template <typename T> void put(std::string& o, const std::complex<T>& t) { put(o, t.real()); put(o, t.imag()); }
    template <typename T> void all(std::string& o, const T& t) { o += '['; for (auto& e : t) put(o, e); o += ']'; }
    template <typename T> void put(std::string& o, const std::vector<T>& t) { all(o, t); }
    template <typename T> void put(std::string& o, const std::list<T>& t) { all(o, t); }
    template <typename K, typename V> void put(std::string& o, const std::map<K, V>& t) { all(o, t); }
    template <typename A, typename B> void put(std::string& o, const std::pair<A, B>& t) { put(o, t.first); put(o, t.second); }
    inline void put(std::string& o, const Rec& t) { put(o, t.a); put(o, t.b); put(o, t.c); }
    inline void put(std::string& o, const cxon::json::ordered_node& t) {
        typedef cxon::json::ordered_node N; o += (char)('A' + (int)t.kind());
        if (t.is<N::object>()) { o += '{'; for (auto& e : t.get<N::object>()) { put(o, e.first); put(o, e.second); } o += '}'; }
        else if (t.is<N::array>()) { o += '['; for (auto& e : t.get<N::array>()) put(o, e); o += ']'; }
        else if (t.is<N::string>()) put(o, t.get<N::string>());
        else if (t.is<N::sint>()) put(o, t.get<N::sint>());
        else if (t.is<N::uint>()) put(o, t.get<N::uint>());
        else if (t.is<N::real>()) put(o, t.get<N::real>());
        else if (t.is<N::boolean>()) put(o, t.get<N::boolean>());
    }
    template <typename T> struct Add : Ty {
        template <typename X, typename L> Add* as() { this->read = &ENV_NS::read<X, L, T>; this->write = &ENV_NS::write<L, T>; return this; }
        static void* mk() { return new T(); }
        static void rm(void* p) { delete (T*)p; }
        static std::string by(const void* p) { std::string o; put(o, *(const T*)p); return o; }
        Add(const char* n, sim::Fmt f_, Shape sh, int b, bool sg) { name = n; f = f_; shape = sh; bits = b; sign = sg; make = mk; del = rm; bytes = by; read = nullptr; write = nullptr; next = nullptr; }
    };
    struct All {
        Ty* head = nullptr; Ty** tail = &head;
        template <typename X, typename L, typename T> void one(const char* n, sim::Fmt f, Shape sh, int b, bool sg) { Ty* t = (new Add<T>(n, f, sh, b, sg))->template as<X, L>(); *tail = t; tail = &t->next; }
        template <typename T> void jcb(const char* n, Shape sh, int b, bool sg) { one<XJ, XJL, T>(n, sim::F_JSON, sh, b, sg); one<XC, XCL, T>(n, sim::F_CXCF, sh, b, sg); one<XB, XB, T>(n, sim::F_CBOR, sh, b, sg); }
        template <typename T> void j(const char* n, Shape sh, int b, bool sg) { one<XJ, XJL, T>(n, sim::F_JSON, sh, b, sg); }
    };
} }
CXON_JSON_CLS(env::ENV_NS::Rec, CXON_JSON_CLS_FIELD_ASIS(a), CXON_JSON_CLS_FIELD_ASIS(b), CXON_JSON_CLS_FIELD_ASIS(c))
CXON_CBOR_CLS(env::ENV_NS::Rec, CXON_CBOR_CLS_FIELD_ASIS(a), CXON_CBOR_CLS_FIELD_ASIS(b), CXON_CBOR_CLS_FIELD_ASIS(c))
namespace env { namespace ENV_NS {
    static Ty* make() {
        All a;
        a.jcb<short>("short", INT, 16, true); a.jcb<unsigned short>("unsigned short", INT, 16, false); a.jcb<int>("int", INT, 32, true); a.jcb<unsigned>("unsigned", INT, 32, false);
        a.jcb<long>("long", INT, 64, true); a.jcb<unsigned long>("unsigned long", INT, 64, false); a.jcb<long long>("long long", INT, 64, true); a.jcb<unsigned long long>("unsigned long long", INT, 64, false);
        a.jcb<float>("float", FLT, 24, true); a.jcb<double>("double", FLT, 53, true); a.j<long double>("long double", FLT, 64, true);
        a.jcb<std::vector<double>>("vector<double>", ARR_FLT, 53, true); a.j<std::list<int>>("list<int>", ARR_INT, 32, true); a.jcb<std::vector<long long>>("vector<long long>", ARR_INT, 64, true);
        a.jcb<std::map<int, double>>("map<int,double>", MAP_INT, 32, true); a.jcb<std::complex<double>>("complex<double>", PAIR, 53, true);
        a.jcb<cxon::json::ordered_node>("json::ordered_node", ANY, 0, true); a.jcb<std::string>("string", STR, 0, true); a.j<std::u16string>("u16string", STR, 0, true); a.jcb<std::vector<std::string>>("vector<string>", WORDS, 0, true);
        a.jcb<Rec>("Rec", REC, 0, true);
        return a.head;
    }
} }
