// numbers, names of members and enumerations read with limits of the length of tokens
#include "zoo.hxx"
#include "nodes.hxx"
#include "cap.hxx"
namespace cap {
    const unsigned limits[LIMITS] = { 0, 2, 4, 9, 33, 64 };
    const unsigned lengths[LENGTHS] = { 1, 2, 3, 4, 5, 8, 9, 10, 32, 33, 34, 40, 62, 63, 64, 65, 100 };
    const char* const names[LENGTHS] = {
        "b",
        "cj",
        "dkr",
        "elsz",
        "fmtah",
        "ipwdkryf",
        "jqxelszgn",
        "kryfmtahov",
        "gnubipwdkryfmtahovcjqxelszgnubip",
        "hovcjqxelszgnubipwdkryfmtahovcjqx",
        "ipwdkryfmtahovcjqxelszgnubipwdkryf",
        "ovcjqxelszgnubipwdkryfmtahovcjqxelszgnub",
        "kryfmtahovcjqxelszgnubipwdkryfmtahovcjqxelszgnubipwdkryfmtahov",
        "lszgnubipwdkryfmtahovcjqxelszgnubipwdkryfmtahovcjqxelszgnubipwd",
        "mtahovcjqxelszgnubipwdkryfmtahovcjqxelszgnubipwdkryfmtahovcjqxel",
        "nubipwdkryfmtahovcjqxelszgnubipwdkryfmtahovcjqxelszgnubipwdkryfmt",
        "wdkryfmtahovcjqxelszgnubipwdkryfmtahovcjqxelszgnubipwdkryfmtahovcjqxelszgnubipwdkryfmtahovcjqxelszgn"
    };
    enum class Name { NONE, N0 = 500, N1, N2, N3, N4, N5, N6, N7, N8, N9, N10, N11, N12, N13, N14, N15, N16 };
    struct Rec { int m0 = -1, m1 = -1, m2 = -1, m3 = -1, m4 = -1, m5 = -1, m6 = -1, m7 = -1, m8 = -1, m9 = -1, m10 = -1, m11 = -1, m12 = -1, m13 = -1, m14 = -1, m15 = -1, m16 = -1; };
}
CXON_JSON_ENM(cap::Name, CXON_JSON_ENM_VALUE_NAME("b", N0), CXON_JSON_ENM_VALUE_NAME("cj", N1), CXON_JSON_ENM_VALUE_NAME("dkr", N2), CXON_JSON_ENM_VALUE_NAME("elsz", N3), CXON_JSON_ENM_VALUE_NAME("fmtah", N4), CXON_JSON_ENM_VALUE_NAME("ipwdkryf", N5), CXON_JSON_ENM_VALUE_NAME("jqxelszgn", N6), CXON_JSON_ENM_VALUE_NAME("kryfmtahov", N7), CXON_JSON_ENM_VALUE_NAME("gnubipwdkryfmtahovcjqxelszgnubip", N8), CXON_JSON_ENM_VALUE_NAME("hovcjqxelszgnubipwdkryfmtahovcjqx", N9), CXON_JSON_ENM_VALUE_NAME("ipwdkryfmtahovcjqxelszgnubipwdkryf", N10), CXON_JSON_ENM_VALUE_NAME("ovcjqxelszgnubipwdkryfmtahovcjqxelszgnub", N11), CXON_JSON_ENM_VALUE_NAME("kryfmtahovcjqxelszgnubipwdkryfmtahovcjqxelszgnubipwdkryfmtahov", N12), CXON_JSON_ENM_VALUE_NAME("lszgnubipwdkryfmtahovcjqxelszgnubipwdkryfmtahovcjqxelszgnubipwd", N13), CXON_JSON_ENM_VALUE_NAME("mtahovcjqxelszgnubipwdkryfmtahovcjqxelszgnubipwdkryfmtahovcjqxel", N14), CXON_JSON_ENM_VALUE_NAME("nubipwdkryfmtahovcjqxelszgnubipwdkryfmtahovcjqxelszgnubipwdkryfmt", N15), CXON_JSON_ENM_VALUE_NAME("wdkryfmtahovcjqxelszgnubipwdkryfmtahovcjqxelszgnubipwdkryfmtahovcjqxelszgnubipwdkryfmtahovcjqxelszgn", N16))
CXON_JSON_CLS(cap::Rec, CXON_JSON_CLS_FIELD_NAME("b", m0), CXON_JSON_CLS_FIELD_NAME("cj", m1), CXON_JSON_CLS_FIELD_NAME("dkr", m2), CXON_JSON_CLS_FIELD_NAME("elsz", m3), CXON_JSON_CLS_FIELD_NAME("fmtah", m4), CXON_JSON_CLS_FIELD_NAME("ipwdkryf", m5), CXON_JSON_CLS_FIELD_NAME("jqxelszgn", m6), CXON_JSON_CLS_FIELD_NAME("kryfmtahov", m7), CXON_JSON_CLS_FIELD_NAME("gnubipwdkryfmtahovcjqxelszgnubip", m8), CXON_JSON_CLS_FIELD_NAME("hovcjqxelszgnubipwdkryfmtahovcjqx", m9), CXON_JSON_CLS_FIELD_NAME("ipwdkryfmtahovcjqxelszgnubipwdkryf", m10), CXON_JSON_CLS_FIELD_NAME("ovcjqxelszgnubipwdkryfmtahovcjqxelszgnub", m11), CXON_JSON_CLS_FIELD_NAME("kryfmtahovcjqxelszgnubipwdkryfmtahovcjqxelszgnubipwdkryfmtahov", m12), CXON_JSON_CLS_FIELD_NAME("lszgnubipwdkryfmtahovcjqxelszgnubipwdkryfmtahovcjqxelszgnubipwd", m13), CXON_JSON_CLS_FIELD_NAME("mtahovcjqxelszgnubipwdkryfmtahovcjqxelszgnubipwdkryfmtahovcjqxel", m14), CXON_JSON_CLS_FIELD_NAME("nubipwdkryfmtahovcjqxelszgnubipwdkryfmtahovcjqxelszgnubipwdkryfmt", m15), CXON_JSON_CLS_FIELD_NAME("wdkryfmtahovcjqxelszgnubipwdkryfmtahovcjqxelszgnubipwdkryfmtahovcjqxelszgnubipwdkryfmtahovcjqxelszgn", m16))
CXON_CBOR_CLS(cap::Rec, CXON_CBOR_CLS_FIELD_NAME("b", m0), CXON_CBOR_CLS_FIELD_NAME("cj", m1), CXON_CBOR_CLS_FIELD_NAME("dkr", m2), CXON_CBOR_CLS_FIELD_NAME("elsz", m3), CXON_CBOR_CLS_FIELD_NAME("fmtah", m4), CXON_CBOR_CLS_FIELD_NAME("ipwdkryf", m5), CXON_CBOR_CLS_FIELD_NAME("jqxelszgn", m6), CXON_CBOR_CLS_FIELD_NAME("kryfmtahov", m7), CXON_CBOR_CLS_FIELD_NAME("gnubipwdkryfmtahovcjqxelszgnubip", m8), CXON_CBOR_CLS_FIELD_NAME("hovcjqxelszgnubipwdkryfmtahovcjqx", m9), CXON_CBOR_CLS_FIELD_NAME("ipwdkryfmtahovcjqxelszgnubipwdkryf", m10), CXON_CBOR_CLS_FIELD_NAME("ovcjqxelszgnubipwdkryfmtahovcjqxelszgnub", m11), CXON_CBOR_CLS_FIELD_NAME("kryfmtahovcjqxelszgnubipwdkryfmtahovcjqxelszgnubipwdkryfmtahov", m12), CXON_CBOR_CLS_FIELD_NAME("lszgnubipwdkryfmtahovcjqxelszgnubipwdkryfmtahovcjqxelszgnubipwd", m13), CXON_CBOR_CLS_FIELD_NAME("mtahovcjqxelszgnubipwdkryfmtahovcjqxelszgnubipwdkryfmtahovcjqxel", m14), CXON_CBOR_CLS_FIELD_NAME("nubipwdkryfmtahovcjqxelszgnubipwdkryfmtahovcjqxelszgnubipwdkryfmt", m15), CXON_CBOR_CLS_FIELD_NAME("wdkryfmtahovcjqxelszgnubipwdkryfmtahovcjqxelszgnubipwdkryfmtahovcjqxelszgnubipwdkryfmtahovcjqxelszgn", m16))

namespace cap {
    using zoo::XJ; using zoo::XC; using zoo::XB;
    template <typename X, typename T, typename II, typename... L> ReadRes go(T& t, II b, II e, II& end, L... limit) {
        ReadRes r; sim::S->ops();
        try { auto const x = cxon::from_bytes<X>(t, b, e, limit...); r.ok = !x.ec; r.ec = x.ec.value(); end = x.end; }
        catch (const sim::SourceError& x) { r.threw = r.source_error = true; sim::heap::Pause p; r.what = x.what(); }
        catch (const std::exception& x) { r.threw = true; sim::heap::Pause p; r.what = x.what(); }
        return r;
    }
    template <typename X, typename T, typename C, typename... L> ReadRes it(T& t, Source& s, L... limit) {
        typedef sim::It<C> I; I b(&s, 0), e(&s, (std::ptrdiff_t)s.bytes.size()), end = b; sim::heap::Scope sc;
        ReadRes r = go<X>(t, b, e, end, limit...); r.end = r.threw ? 0 : end.p >= 0 && end.p <= e.p ? (long)end.p : -1; return r;
    }
    template <typename X, typename T, typename... L> ReadRes with(T& t, Way w, Source& s, L... limit) {
        switch (w) {
            case PTR: {
                sim::Exact ex(s.bytes); const char *b = ex.b, *end = b; sim::heap::Scope sc;
                ReadRes r = go<X>(t, b, b + ex.n, end, limit...); r.end = r.threw ? 0 : end >= b && end <= b + ex.n ? (long)(end - b) : -1; return r;
            }
            case RA:    return it<X, T, std::random_access_iterator_tag>(t, s, limit...);
            case FWD:   return it<X, T, std::forward_iterator_tag>(t, s, limit...);
            default: {
                sim::StreamIt b(&s), e, end = b; sim::heap::Scope sc;
                ReadRes r = go<X>(t, b, e, end, limit...); r.end = r.threw ? 0 : (long)s.cur; return r;
            }
        }
    }
    template <typename M, typename X, typename T> ReadRes at(T& t, unsigned l, Way w, Source& s) {
        switch (l) {
            case 1:     return with<X>(t, w, s, M::template set<2>());
            case 2:     return with<X>(t, w, s, M::template set<4>());
            case 3:     return with<X>(t, w, s, M::template set<9>());
            case 4:     return with<X>(t, w, s, M::template set<33>());
            case 5:     return with<X>(t, w, s, M::template set<64>());
            default:    return with<X>(t, w, s);                    // as it is when nothing is set
        }
    }
    Val val(const Rec& r) { Val v = Val::arr(); v.a.push_back(Val::sint(r.m0)); v.a.push_back(Val::sint(r.m1)); v.a.push_back(Val::sint(r.m2)); v.a.push_back(Val::sint(r.m3)); v.a.push_back(Val::sint(r.m4)); v.a.push_back(Val::sint(r.m5)); v.a.push_back(Val::sint(r.m6)); v.a.push_back(Val::sint(r.m7)); v.a.push_back(Val::sint(r.m8)); v.a.push_back(Val::sint(r.m9)); v.a.push_back(Val::sint(r.m10)); v.a.push_back(Val::sint(r.m11)); v.a.push_back(Val::sint(r.m12)); v.a.push_back(Val::sint(r.m13)); v.a.push_back(Val::sint(r.m14)); v.a.push_back(Val::sint(r.m15)); v.a.push_back(Val::sint(r.m16)); return v; }
    template <typename N> Val node(const N& n) {
        typedef typename N::sint S; typedef typename N::uint U; typedef typename N::real R;
        if (n.template is<S>()) return Val::sint(n.template get<S>());
        if (n.template is<U>()) return Val::uint(n.template get<U>());
        if (n.template is<R>()) return Val::real(n.template get<R>());
        return Val::undef();
    }
    template <typename X, typename N> Res text(Token t, unsigned l, Way w, Source& s) {
        typedef cxon::json::num_len_max M; typedef cxon::json::ids_len_max I; Res r;
        switch (t) {
            case T_INT:     { int v = 0; r.r = at<M, X>(v, l, w, s); r.v = Val::sint(v); break; }
            case T_LONG:    { long long v = 0; r.r = at<M, X>(v, l, w, s); r.v = Val::sint(v); break; }
            case T_DOUBLE:  { double v = 0; r.r = at<M, X>(v, l, w, s); r.v = Val::real(v); break; }
            case T_NODE: case T_NODE_REAL: { N v; r.r = at<M, X>(v, l, w, s); r.v = node(v); break; }
            case T_MEMBER:  { Rec v; r.r = at<I, X>(v, l, w, s); r.v = val(v); break; }
            default:        { Name v = Name::NONE; r.r = at<I, X>(v, l, w, s); r.v = v == Name::NONE ? Val::null() : Val::sint((int)v - (int)Name::N0); break; }
        }
        return r;
    }
    Res token(Fmt f, Token t, unsigned l, Way w, Source& s) {
        if (f == sim::F_JSON) return text<XJ, cxon::json::ordered_node>(t, l, w, s);
        if (f == sim::F_CXCF) return text<XC, cxon::json::ordered_node>(t, l, w, s);
        Res r; Rec v; r.r = at<cxon::cbor::ids_len_max, XB>(v, l, w, s); r.v = val(v); return r;
    }
}
