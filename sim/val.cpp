#include "val.hxx"
#include <cmath>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <limits>
#include <locale.h>

namespace sim {

    // strtold in the C locale whatever the simulated process environment is
    static locale_t c_locale() { static locale_t l = newlocale(LC_ALL_MASK, "C", (locale_t)0); return l; }
    static long double to_ld(const char* s) { int e = errno; long double r = strtold_l(s, nullptr, c_locale()); errno = e; return r; }
    double to_d(const char* s) { int e = errno; double r = strtod_l(s, nullptr, c_locale()); errno = e; return r; }
    static float to_f(const char* s) { int e = errno; float r = strtof_l(s, nullptr, c_locale()); errno = e; return r; }

    // ---- comparison ----
    static int cmp_real(long double a, long double b) {
        bool const an = a != a, bn = b != b;
        if (an || bn) return an == bn ? 0 : an ? 1 : -1;
        if (a < b) return -1;
        if (a > b) return 1;
        bool const as = std::signbit(a), bs = std::signbit(b);
        return as == bs ? 0 : as ? -1 : 1;
    }
    static int cmp(const Val& a, const Val& b) {
        if (a.k != b.k) return a.k < b.k ? -1 : 1;
        switch (a.k) {
            case Val::UNDEF: case Val::NUL: return 0;
            case Val::BOOL: return a.b == b.b ? 0 : a.b ? 1 : -1;
            case Val::INT:
                if (a.b != b.b) return a.b ? -1 : 1;
                return a.u == b.u ? 0 : ((a.u < b.u) != a.b) ? -1 : 1;
            case Val::REAL: return cmp_real(a.d, b.d);
            case Val::STR: case Val::BYTES: return a.s.compare(b.s) < 0 ? -1 : a.s == b.s ? 0 : 1;
            case Val::SIMPLE: return a.u == b.u ? 0 : a.u < b.u ? -1 : 1;
            case Val::TAG: if (a.u != b.u) return a.u < b.u ? -1 : 1; // fallthrough
            case Val::ARR: case Val::MAP: {
                size_t const n = a.a.size() < b.a.size() ? a.a.size() : b.a.size();
                for (size_t i = 0; i != n; ++i) { int c = cmp(a.a[i], b.a[i]); if (c) return c; }
                return a.a.size() == b.a.size() ? 0 : a.a.size() < b.a.size() ? -1 : 1;
            }
        }
        return 0;
    }
    bool operator ==(const Val& a, const Val& b) { return cmp(a, b) == 0; }
    bool less(const Val& a, const Val& b) { return cmp(a, b) < 0; }

    std::string show(const Val& v, size_t max) {
        std::string o;
        switch (v.k) {
            case Val::UNDEF: return "undefined";
            case Val::NUL: return "null";
            case Val::BOOL: return v.b ? "true" : "false";
            case Val::INT: if (v.b) return v.u == ~0ull ? std::string("-18446744073709551616") : fmt("-%llu", (unsigned long long)(v.u + 1)); return fmt("%llu", (unsigned long long)v.u);
            case Val::REAL: return fmt("%.20Lg%s", v.d, v.prec == 0 ? "f" : v.prec == 2 ? "l" : "d");
            case Val::STR: return "\"" + hex(v.s, 60) + "\"";
            case Val::BYTES: return "h'" + hex(v.s, 60) + "'";
            case Val::SIMPLE: return fmt("simple(%u)", (unsigned)v.u);
            case Val::TAG: return fmt("%llu(", (unsigned long long)v.u) + show(v.a[0], max) + ")";
            case Val::ARR: o = "["; for (size_t i = 0; i != v.a.size(); ++i) { if (i) o += ", "; if (o.size() > max) { o += "..."; break; } o += show(v.a[i], max); } return o + "]";
            case Val::MAP: o = "{"; for (size_t i = 0; i + 1 < v.a.size(); i += 2) { if (i) o += ", "; if (o.size() > max) { o += "..."; break; } o += show(v.a[i], max) + ": " + show(v.a[i + 1], max); } return o + "}";
        }
        return o;
    }

    static bool real_same(long double want, int prec, const Val& got, Fmt f) {
        if (text(f)) {
            long double g;
            if (got.k == Val::STR) { // quoted specials
                const std::string& s = got.s;
                if (s == "inf") g = INFINITY; else if (s == "-inf") g = -INFINITY; else if (s == "nan" || s == "-nan") g = NAN; else return false;
            }
            else if (got.k == Val::REAL || got.k == Val::INT) {
                if (got.s.empty()) g = got.num();
                else g = prec == 0 ? (long double)to_f(got.s.c_str()) : prec == 1 ? (long double)to_d(got.s.c_str()) : to_ld(got.s.c_str());
            }
            else return false;
            return cmp_real(want, g) == 0;
        }
        if (got.k != Val::REAL) return false;
        return cmp_real(want, got.d) == 0;
    }
    // member names: text formats have only strings there
    static bool same_key(const Val& want, const Val& got, Fmt f, bool ordered) {
        if (same(want, got, f, ordered)) return true;
        if (!text(f) || got.k != Val::STR || want.k == Val::STR) return false;
        Parse p = parse(got.s, 0, f);
        return p.r == Parse::OK && p.end == got.s.size() && same(want, p.v, f, ordered);
    }
    bool same(const Val& want, const Val& got, Fmt f, bool ordered) {
        switch (want.k) {
            case Val::REAL: return real_same(want.d, want.prec, got, f);
            case Val::ARR:
                if (got.k != Val::ARR || got.a.size() != want.a.size()) return false;
                for (size_t i = 0; i != want.a.size(); ++i) if (!same(want.a[i], got.a[i], f, ordered)) return false;
                return true;
            case Val::MAP: {
                if (got.k != Val::MAP || got.a.size() != want.a.size()) return false;
                if (ordered) {
                    for (size_t i = 0; i != want.a.size(); ++i) if (!(i % 2 ? same(want.a[i], got.a[i], f, ordered) : same_key(want.a[i], got.a[i], f, ordered))) return false;
                    return true;
                }
                std::vector<bool> used(got.a.size() / 2);
                for (size_t i = 0; i + 1 < want.a.size(); i += 2) {
                    bool hit = false;
                    for (size_t j = 0; j + 1 < got.a.size() && !hit; j += 2)
                        if (!used[j / 2] && same_key(want.a[i], got.a[j], f, ordered) && same(want.a[i + 1], got.a[j + 1], f, ordered)) used[j / 2] = hit = true;
                    if (!hit) return false;
                }
                return true;
            }
            case Val::TAG: return got.k == Val::TAG && got.u == want.u && same(want.a[0], got.a[0], f, ordered);
            default: return cmp(want, got) == 0;
        }
    }

    // ---- UTF-8 ----
    // length of the valid sequence at p (0: invalid, -1: valid so far but cut)
    static int u8len(const unsigned char* p, size_t n) {
        unsigned c = p[0];
        if (c < 0x80) return 1;
        int need; unsigned lo = 0x80, hi = 0xBF;
        if (c >= 0xC2 && c <= 0xDF) need = 1;
        else if (c >= 0xE0 && c <= 0xEF) { need = 2; if (c == 0xE0) lo = 0xA0; if (c == 0xED) hi = 0x9F; }
        else if (c >= 0xF0 && c <= 0xF4) { need = 3; if (c == 0xF0) lo = 0x90; if (c == 0xF4) hi = 0x8F; }
        else return 0;
        for (int i = 1; i <= need; ++i) {
            if ((size_t)i >= n) return -1;
            if (p[i] < lo || p[i] > hi) return 0;
            lo = 0x80; hi = 0xBF;
        }
        return need + 1;
    }
    bool utf8_valid(const std::string& s) {
        for (size_t i = 0; i < s.size(); ) { int n = u8len((const unsigned char*)s.data() + i, s.size() - i); if (n <= 0) return false; i += (size_t)n; }
        return true;
    }
    void utf8_put(std::string& o, uint32_t c) {
        if (c < 0x80) o += (char)c;
        else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); }
        else if (c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
        else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
    }
    std::vector<uint32_t> utf8_get(const std::string& s) {
        std::vector<uint32_t> r;
        for (size_t i = 0; i < s.size(); ) {
            const unsigned char* p = (const unsigned char*)s.data() + i;
            int n = u8len(p, s.size() - i);
            if (n <= 0) { r.push_back(0xFFFD); ++i; continue; }
            uint32_t c = n == 1 ? p[0] : n == 2 ? (p[0] & 31u) << 6 | (p[1] & 63u) : n == 3 ? (p[0] & 15u) << 12 | (p[1] & 63u) << 6 | (p[2] & 63u)
                       : (p[0] & 7u) << 18 | (p[1] & 63u) << 12 | (p[2] & 63u) << 6 | (p[3] & 63u);
            r.push_back(c); i += (size_t)n;
        }
        return r;
    }

    // ---- text parser (RFC 8259; CXCF variant) ----
    namespace {
        struct T {
            const std::string& s; size_t i; const TextOpt& o; Parse& r; unsigned depth;
            T(const std::string& s, size_t i, const TextOpt& o, Parse& r) : s(s), i(i), o(o), r(r), depth(0) {}
            bool eof() const { return i >= s.size(); }
            bool bad(const char* why) { r.r = eof() ? Parse::SHORT : Parse::BAD; r.why = why; return false; }
            bool hard(const char* why) { r.r = Parse::BAD; r.why = why; return false; }
            bool sp(char c) const { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
            bool ws() {
                for (;;) {
                    while (!eof() && sp(s[i])) ++i;
                    if (!o.comments || eof() || s[i] != '/') return true;
                    size_t const b = i; ++i;
                    if (eof()) return bad("comment");
                    if (s[i] == '*') {
                        ++i; bool closed = false;
                        while (!eof()) { if (s[i] == '*' && i + 1 < s.size() && s[i + 1] == '/') { i += 2; closed = true; break; } ++i; }
                        if (!closed) return bad("comment");
                    }
                    else if (s[i] == '/') { while (!eof() && s[i] != '\n') ++i; }
                    else { i = b; return hard("comment"); }
                }
            }
            bool lit(const char* l) { for ( ; *l; ++l, ++i) { if (eof() || s[i] != *l) return bad("literal"); } return true; }
            static bool dg(char c) { return c >= '0' && c <= '9'; }
            bool number(Val& v) {
                size_t const b = i; bool neg = false, integral = true;
                if (s[i] == '-') { neg = true; ++i; if (eof()) return bad("number"); }
                if (o.nans && (s[i] == 'I' || s[i] == 'N')) {
                    char const c = s[i];
                    if (!lit(c == 'I' ? "Infinity" : "NaN")) return false;
                    v = Val::real(c == 'I' ? (neg ? -INFINITY : INFINITY) : NAN); return true;
                }
                if (s[i] == '0') ++i;
                else if (dg(s[i])) while (!eof() && dg(s[i])) ++i;
                else return bad("number");
                if (!eof() && s[i] == '.') {
                    integral = false; ++i;
                    if (eof() || !dg(s[i])) return bad("fraction");
                    while (!eof() && dg(s[i])) ++i;
                }
                if (!eof() && (s[i] == 'e' || s[i] == 'E')) {
                    integral = false; ++i;
                    if (!eof() && (s[i] == '+' || s[i] == '-')) ++i;
                    if (eof() || !dg(s[i])) return bad("exponent");
                    while (!eof() && dg(s[i])) ++i;
                }
                std::string const t = s.substr(b, i - b);
                bool fits = integral;
                uint64_t u = 0;
                if (integral) for (size_t k = neg; k != t.size(); ++k) {
                    unsigned const d = (unsigned)(t[k] - '0');
                    if (u > (~0ull - d) / 10) { fits = false; break; }
                    u = u * 10 + d;
                }
                if (fits && neg && u > (1ull << 63)) fits = false;
                if (fits) v = neg && u ? Val::nint(u - 1) : Val::uint(u);
                else v = Val::real(to_d(t.c_str()));
                v.s = t;
                return true;
            }
            bool hex4(uint32_t& c) {
                c = 0;
                for (int k = 0; k != 4; ++k, ++i) {
                    if (eof()) return bad("\\u");
                    char const h = s[i];
                    c = c << 4;
                    if (h >= '0' && h <= '9') c |= (uint32_t)(h - '0');
                    else if (h >= 'a' && h <= 'f') c |= (uint32_t)(h - 'a' + 10);
                    else if (h >= 'A' && h <= 'F') c |= (uint32_t)(h - 'A' + 10);
                    else return hard("\\u");
                }
                return true;
            }
            bool escape(std::string& t) { // behind the backslash
                if (eof()) return bad("escape");
                char const c = s[i++];
                if (c == '\'' && o.del == '\'') { t += c; return true; }
                switch (c) {
                    case '"': case '\\': case '/': t += c; return true;
                    case 'b': t += '\b'; return true; case 'f': t += '\f'; return true; case 'n': t += '\n'; return true;
                    case 'r': t += '\r'; return true; case 't': t += '\t'; return true;
                    case 'u': {
                        uint32_t a, b;
                        if (!hex4(a)) return false;
                        if (a >= 0xDC00 && a <= 0xDFFF) return hard("lone low surrogate");
                        if (a >= 0xD800 && a <= 0xDBFF) {
                            if (eof()) return bad("surrogate");
                            if (s[i] != '\\') return hard("lone high surrogate");
                            ++i; if (eof()) return bad("surrogate");
                            if (s[i] != 'u') return hard("lone high surrogate");
                            ++i; if (!hex4(b)) return false;
                            if (b < 0xDC00 || b > 0xDFFF) return hard("surrogate pair");
                            a = 0x10000 + ((a - 0xD800) << 10) + (b - 0xDC00);
                        }
                        utf8_put(t, a); return true;
                    }
                }
                --i; return hard("escape");
            }
            bool chr(std::string& t) {
                unsigned char const c = (unsigned char)s[i];
                if (c < 0x20 && !o.controls) return hard("control character");
                int const n = u8len((const unsigned char*)s.data() + i, s.size() - i);
                if (n <= 0 && o.invalid) { t += (char)c; ++i; return true; }
                if (n == 0) return hard("utf-8");
                if (n < 0) { i = s.size(); return bad("utf-8"); }
                t.append(s, i, (size_t)n); i += (size_t)n; return true;
            }
            bool string(Val& v) {
                std::string t; ++i;
                for (;;) {
                    if (eof()) return bad("string");
                    if (s[i] == o.del) { ++i; v = Val::str(t); return true; }
                    if (s[i] == '\\' && !o.no_escapes) { ++i; if (!escape(t)) return false; }
                    else if (!chr(t)) return false;
                }
            }
            bool rawkey(Val& v) {
                std::string t;
                for (;;) {
                    if (eof()) return bad("key");
                    if (sp(s[i]) || s[i] == o.div) { v = Val::str(t); return true; }
                    if (s[i] == '\\') {
                        ++i;
                        if (!eof() && (s[i] == ' ' || s[i] == o.div)) t += s[i++];
                        else if (!escape(t)) return false;
                    }
                    else if (!chr(t)) return false;
                }
            }
            bool value(Val& v) {
                if (!ws()) return false;
                if (eof()) return bad("value");
                char const c = s[i];
                if (c == o.del) return string(v);
                switch (c) {
                    case '{': case '[': {
                        if (++depth > r.depth) r.depth = depth;
                        if (depth > o.max_depth) return hard("depth");
                        ++i;
                        bool const ok = c == '{' ? object(v) : array(v);
                        --depth; return ok;
                    }
                    case 't': v = Val::boolean(true); return lit("true");
                    case 'f': v = Val::boolean(false); return lit("false");
                    case 'n': v = Val::null(); return lit("null");
                    case 'I': case 'N': if (!o.nans) return hard("value"); return number(v);
                    default: if (c == '-' || dg(c)) return number(v); return hard("value");
                }
            }
            bool array(Val& v) {
                v = Val::arr();
                if (!ws()) return false;
                if (!eof() && s[i] == ']') { ++i; return true; }
                for (;;) {
                    v.a.push_back(Val());
                    { Val t; if (!value(t)) return false; v.a.back() = t; }
                    if (!ws()) return false;
                    if (eof()) return bad("array");
                    if (s[i] == ']') { ++i; return true; }
                    if (o.lsep != ' ') {
                        if (s[i] != o.lsep) return hard("array");
                        ++i;
                        if (o.trailing) { if (!ws()) return false; if (!eof() && s[i] == ']') { ++i; return true; } }
                    }
                }
            }
            bool object(Val& v) {
                v = Val::map();
                if (!ws()) return false;
                if (!eof() && s[i] == '}') { ++i; return true; }
                for (;;) {
                    if (!ws()) return false;
                    if (eof()) return bad("object");
                    Val k, x;
                    switch (o.keys) {
                        case TextOpt::QUOTED: if (s[i] != o.del) return hard("key"); if (!string(k)) return false; break;
                        case TextOpt::STRINGS: case TextOpt::VALUES: if (!value(k)) return false; break;
                        case TextOpt::RAW: if (!rawkey(k)) return false; break;
                    }
                    if (!ws()) return false;
                    if (eof()) return bad("object");
                    if (s[i] != o.div) return hard("object");
                    ++i;
                    if (!value(x)) return false;
                    v.a.push_back(std::move(k)); v.a.push_back(std::move(x));
                    if (!ws()) return false;
                    if (eof()) return bad("object");
                    if (s[i] == '}') { ++i; return true; }
                    if (o.sep != ' ') {
                        if (s[i] != o.sep) return hard("object");
                        ++i;
                        if (o.trailing) { if (!ws()) return false; if (!eof() && s[i] == '}') { ++i; return true; } }
                    }
                }
            }
        };
    }
    TextOpt text_opt(Fmt f) {
        TextOpt o;
        if (cx(f)) { o.div = '='; o.sep = o.lsep = ' '; o.comments = o.nans = true; o.keys = f == F_CXCN ? TextOpt::VALUES : TextOpt::RAW; }
        return o;
    }
    Parse parse_text(const std::string& s, size_t at, const TextOpt& o) {
        Parse r; T t(s, at, o, r);
        if (t.value(r.v)) { r.r = Parse::OK; r.open = (r.v.k == Val::INT || r.v.k == Val::REAL) && t.i == s.size() && !s.empty() && s.back() != 'y' && s.back() != 'N'; }
        r.end = t.i;
        return r;
    }

    // ---- CBOR parser (RFC 7049) ----
    namespace {
        struct B {
            const std::string& s; size_t i; const CborOpt& o; Parse& r; unsigned depth;
            B(const std::string& s, size_t i, const CborOpt& o, Parse& r) : s(s), i(i), o(o), r(r), depth(0) {}
            bool eof() const { return i >= s.size(); }
            bool cut(const char* why) { r.r = Parse::SHORT; r.why = why; return false; }
            bool bad(const char* why) { r.r = Parse::BAD; r.why = why; return false; }
            bool be(uint64_t& u, unsigned n) {
                u = 0;
                for (unsigned k = 0; k != n; ++k) { if (eof()) return cut("argument"); u = u << 8 | (unsigned char)s[i++]; }
                return true;
            }
            bool arg(unsigned m, uint64_t& u) {
                if (m < 24) { u = m; return true; }
                if (m < 28) return be(u, 1u << (m - 24));
                return bad("reserved");
            }
            bool run(std::string& t, uint64_t n) {
                if (n > s.size() - i) { i = s.size(); return cut("string"); }
                t.append(s, i, (size_t)n); i += (size_t)n; return true;
            }
            static long double half(unsigned h) {
                int const e = (int)(h >> 10 & 31), m = (int)(h & 1023);
                long double v = e == 0 ? std::ldexp((long double)m, -24) : e != 31 ? std::ldexp((long double)(m + 1024), e - 25) : m == 0 ? (long double)INFINITY : (long double)NAN;
                return h & 0x8000 ? -v : v;
            }
            struct Guard { B& b; bool ok; Guard(B& b) : b(b) { if (++b.depth > b.r.depth) b.r.depth = b.depth; ok = b.depth <= b.o.max_depth; } ~Guard() { --b.depth; } };
            bool value(Val& v) {
                if (eof()) return cut("value");
                unsigned const ib = (unsigned char)s[i++], mt = ib >> 5, m = ib & 31;
                uint64_t u = 0;
                switch (mt) {
                    case 0: if (!arg(m, u)) return false; v = Val::uint(u); return true;
                    case 1: if (!arg(m, u)) return false; v = Val::nint(u); return true;
                    case 2: case 3: {
                        std::string t;
                        if (m == 31) for (;;) {
                            if (eof()) return cut("chunk");
                            unsigned const c = (unsigned char)s[i];
                            if (c == 0xFF) { ++i; break; }
                            if (c >> 5 != mt || (c & 31) > 27) return bad("chunk");
                            ++i; if (!arg(c & 31, u) || !run(t, u)) return false;
                        }
                        else if (!arg(m, u) || !run(t, u)) return false;
                        v = mt == 2 ? Val::bytes(t) : Val::str(t); return true;
                    }
                    case 4: case 5: {
                        Guard g(*this); if (!g.ok) return bad("depth");
                        v = mt == 4 ? Val::arr() : Val::map();
                        unsigned const per = mt == 4 ? 1 : 2;
                        if (m == 31) for (;;) {
                            if (eof()) return cut("items");
                            if ((unsigned char)s[i] == 0xFF) { ++i; return true; }
                            for (unsigned k = 0; k != per; ++k) { Val t; if (!value(t)) return false; v.a.push_back(std::move(t)); }
                        }
                        if (!arg(m, u)) return false;
                        for (uint64_t k = 0; k != u; ++k) for (unsigned j = 0; j != per; ++j) { Val t; if (!value(t)) return false; v.a.push_back(std::move(t)); }
                        return true;
                    }
                    case 6: {
                        if (!arg(m, u)) return false;
                        Guard g(*this); if (!g.ok) return bad("depth");
                        Val t; if (!value(t)) return false;
                        v = Val::tag(u, t); return true;
                    }
                    default: switch (m) {
                        case 20: case 21: v = Val::boolean(m == 21); return true;
                        case 22: v = Val::null(); return true;
                        case 23: v = Val::undef(); return true;
                        case 24: if (!be(u, 1)) return false; if (u >= 20 && u < 32 && u != 24) return bad("simple"); v = Val::simple((unsigned)u); return true;
                        case 25: if (!be(u, 2)) return false; v = Val::real(half((unsigned)u), 0); return true;
                        case 26: { if (!be(u, 4)) return false; uint32_t w = (uint32_t)u; float f; memcpy(&f, &w, 4); v = Val::real(f, 0); return true; }
                        case 27: { if (!be(u, 8)) return false; double d; memcpy(&d, &u, 8); v = Val::real(d, 1); return true; }
                        case 28: case 29: case 30: return bad("reserved");
                        case 31: return bad("break");
                        default: v = Val::simple(m); return true;
                    }
                }
            }
        };
    }
    Parse parse_cbor(const std::string& s, size_t at, const CborOpt& o) {
        Parse r; B b(s, at, o, r);
        if (b.value(r.v)) r.r = Parse::OK;
        r.end = b.i;
        return r;
    }
    Parse parse(const std::string& s, size_t at, Fmt f) {
        if (f == F_CBOR) return parse_cbor(s, at, CborOpt());
        return parse_text(s, at, text_opt(f));
    }

    // ---- encoders ----
    static void put_comment(Sim& s, std::string& o) {
        static const char* const ps[] = { " ", "x", "*", "**", "/", "//", "/*", "\"", "'", "\\", "}", "]", "{", "[", ",", "=", ":", "\xE2\x82\xAC", "1", "\t" };
        bool const line = s.draw(2); std::string t;
        for (unsigned n = s.draw(5); n--; ) t += ps[s.draw(sizeof ps / sizeof *ps)];
        if (!line) for (size_t p; (p = t.find("*/")) != t.npos; ) t[p + 1] = ' ';
        if (!line && s.draw(4) == 3) t += '\n';
        o += line ? "//" : "/*"; o += t; o += line ? "\n" : "*/";
    }
    static void put_ws(Sim& s, std::string& o, const TextOpt& f, unsigned variety, bool need = false, bool after_key = false) {
        if (!variety) { if (need) o += ' '; return; }
        unsigned n = s.chance(1, 3) ? 1 + s.draw(3) : need ? 1 : 0;
        for (unsigned k = 0; k != n; ++k) {
            if (f.comments && (k || !(need || after_key)) && s.chance(1, 6) && !((variety & SPACED) && (o.empty() || !strchr(" \n\t\r[]{}\"=", o.back())))) put_comment(s, o);
            o += " \n\t\r"[s.draw(4)];
        }
    }
    void put_space(Sim& s, std::string& o, const TextOpt& f, unsigned variety) { put_ws(s, o, f, variety); }
    static void put_chr(Sim& s, std::string& o, uint32_t c, const TextOpt& f, unsigned variety) {
        if (f.no_escapes) { utf8_put(o, c); return; }
        if (c == (unsigned char)f.del || c == '\\' || (c == '"' && variety && f.del != '"' && s.draw(2))) { if (variety && s.chance(1, 4)) goto u; o += '\\'; o += (char)c; return; }
        if (c < 0x20) {
            if (!variety || s.chance(3, 4)) switch (c) {
                case 8: o += "\\b"; return; case 9: o += "\\t"; return; case 10: o += "\\n"; return; case 12: o += "\\f"; return; case 13: o += "\\r"; return;
            }
            goto u;
        }
        if (variety && !((variety & PLAIN) && c > ' ' && c < 0x7F && c != '/') && s.chance(1, 8)) { if (c == '/' ) { o += "\\/"; return; } goto u; }
        utf8_put(o, c); return;
    u:  if (c >= 0x10000) { o += fmt(s.draw(2) ? "\\u%04X\\u%04x" : "\\u%04x\\u%04X", 0xD800 + ((c - 0x10000) >> 10), 0xDC00 + (c & 0x3FF)); }
        else o += fmt(variety && s.draw(2) ? "\\u%04X" : "\\u%04x", c);
    }
    static void put_str(Sim& s, std::string& o, const std::string& t, const TextOpt& f, unsigned variety) {
        o += f.del; std::vector<uint32_t> c = utf8_get(t);
        for (size_t k = 0; k != c.size(); ++k) put_chr(s, o, c[k], f, variety);
        o += f.del;
    }
    static void put_num(Sim& s, std::string& o, const Val& v, const TextOpt& f, bool key, unsigned variety) {
        if (v.k == Val::INT) { o += show(v); return; }
        if (v.d != v.d || std::isinf(v.d)) {
            if (f.nans) o += v.d != v.d ? "NaN" : v.d < 0 ? "-Infinity" : "Infinity";
            else { o += f.del; o += v.d != v.d ? "nan" : v.d < 0 ? "-inf" : "inf"; o += f.del; }
            return;
        }
        (void)key;
        std::string t = v.prec == 0 ? fmt("%.9g", (double)v.d) : v.prec == 1 ? fmt("%.17g", (double)v.d) : fmt("%.21Lg", v.d);
        if (!variety || !s.chance(3, 4)) {
            if (t.find_first_of(".eE") == std::string::npos) t += ".0"; // stays a real
            o += t; return;
        }
        // the same decimal number in another form
        std::string d; long x = 0; size_t i = 0; // 0.d * 10^x
        if (t[i] == '-') { o += '-'; ++i; }
        bool dot = false;
        for ( ; i != t.size() && t[i] != 'e'; ++i) if (t[i] == '.') dot = true; else { d += t[i]; if (!dot) ++x; }
        if (i != t.size()) x += atol(t.c_str() + i + 1);
        size_t const z = d.find_first_not_of('0');
        if (z == std::string::npos) { d.clear(); x = (long)s.draw(12) - 5; } else { d.erase(0, z); x -= (long)z; while (d.back() == '0') d.pop_back(); }
        d.append(s.draw(3), '0');
        long n = (long)s.draw((uint64_t)d.size() + 1);                      // digits before the point
        if (z == std::string::npos && n > 1) n = 1;
        std::string w = d.substr(0, (size_t)n), r = d.substr((size_t)n);
        x -= n;
        if (s.chance(1, 4) && !w.empty() && z != std::string::npos) { unsigned const k = (unsigned)s.draw(4); w.append(r.empty() ? k : 0, '0'); if (r.empty()) x -= k; }
        if (w.empty()) { w = "0"; if (s.chance(1, 4)) { unsigned const k = (unsigned)s.draw(4); r.insert(0, k, '0'); x += k; } }
        o += w;
        bool const e = x || r.empty() || s.draw(2);
        if (!r.empty()) { o += '.'; o += r; }
        else if (s.chance(1, 3)) o += ".0";
        if (e) o += fmt(s.draw(2) ? "e%s%0*ld" : "E%s%0*ld", x < 0 ? "-" : s.draw(2) ? "+" : "", 1 + (int)s.draw(3), x < 0 ? -x : x);
    }
    void put_text(Sim& s, std::string& o, const Val& v, const TextOpt& f, unsigned variety, bool key) {
        switch (v.k) {
            case Val::UNDEF: case Val::NUL: o += "null"; return;
            case Val::BOOL: o += v.b ? "true" : "false"; return;
            case Val::INT: case Val::REAL:
                if (key && f.keys == TextOpt::QUOTED && !v.quoted) { o += f.del; put_num(s, o, v, f, true, 0); o += f.del; }
                else put_num(s, o, v, f, key, key ? 0 : variety);
                return;
            case Val::STR: case Val::BYTES:
                if (key && f.keys == TextOpt::RAW) { std::vector<uint32_t> c = utf8_get(v.s); for (size_t k = 0; k != c.size(); ++k) { if (c[k] == ' ' || c[k] == (unsigned char)f.div) o += '\\'; put_chr(s, o, c[k], f, 0); } }
                else put_str(s, o, v.s, f, variety);
                return;
            case Val::SIMPLE: o += fmt("%u", (unsigned)v.u); return;
            case Val::TAG: put_text(s, o, v.a[0], f, variety, key); return;
            case Val::ARR:
                o += '[';
                for (size_t i = 0; i != v.a.size(); ++i) {
                    if (i) { if (f.lsep != ' ') { put_ws(s, o, f, variety); o += f.lsep; } else put_ws(s, o, f, variety, true); }
                    if (f.lsep != ' ' || i == 0) put_ws(s, o, f, variety);
                    put_text(s, o, v.a[i], f, variety);
                }
                if (f.trailing && variety && f.lsep != ' ' && !v.a.empty() && s.chance(1, 3)) { put_ws(s, o, f, variety); o += f.lsep; }
                put_ws(s, o, f, variety); o += ']'; return;
            case Val::MAP:
                o += '{';
                for (size_t i = 0; i + 1 < v.a.size(); i += 2) {
                    if (i) { if (f.sep != ' ') { put_ws(s, o, f, variety); o += f.sep; } else put_ws(s, o, f, variety, true); }
                    if (f.sep != ' ' || i == 0) put_ws(s, o, f, variety);
                    put_text(s, o, v.a[i], f, variety, true);
                    put_ws(s, o, f, variety, false, f.keys == TextOpt::RAW); o += f.div; put_ws(s, o, f, variety);
                    put_text(s, o, v.a[i + 1], f, variety);
                }
                if (f.trailing && variety && f.sep != ' ' && !v.a.empty() && s.chance(1, 3)) { put_ws(s, o, f, variety); o += f.sep; }
                put_ws(s, o, f, variety); o += '}'; return;
        }
    }
    static void head(Sim& s, std::string& o, unsigned mt, uint64_t u, unsigned variety) {
        unsigned w = u < 24 ? 0 : u < 0x100 ? 1 : u < 0x10000 ? 2 : u < 0x100000000ull ? 3 : 4;
        if (variety && s.chance(1, 4)) w += s.draw(5 - w);
        if (w == 0) { o += (char)(mt << 5 | u); return; }
        o += (char)(mt << 5 | (23 + w));
        for (int k = (1 << (w - 1)) - 1; k >= 0; --k) o += (char)(u >> (8 * k));
    }
    void put_cbor(Sim& s, std::string& o, const Val& v, unsigned variety) {
        if ((variety & 3) > 1 && v.k != Val::MAP && v.k != Val::BOOL && v.k != Val::NUL && v.k != Val::UNDEF && s.chance(1, 10)) { head(s, o, 6, gen_uint(s, 32), variety); }
        switch (v.k) {
            case Val::UNDEF: o += (char)0xF7; return;
            case Val::NUL: o += (char)0xF6; return;
            case Val::BOOL: o += (char)(v.b ? 0xF5 : 0xF4); return;
            case Val::INT: head(s, o, v.b, v.u, variety); return;
            case Val::REAL: {
                double const d = (double)v.d; float const f = (float)d;
                bool const as32 = (d != d) || (long double)f == v.d;
                if ((v.prec == 0 || variety) && as32 && (v.prec == 0 || s.draw(2))) { uint32_t w; memcpy(&w, &f, 4); o += (char)0xFA; for (int k = 3; k >= 0; --k) o += (char)(w >> (8 * k)); }
                else { uint64_t w; memcpy(&w, &d, 8); o += (char)0xFB; for (int k = 7; k >= 0; --k) o += (char)(w >> (8 * k)); }
                return;
            }
            case Val::STR: case Val::BYTES: {
                unsigned const mt = v.k == Val::STR ? 3 : 2;
                if ((variety & 3) && !(variety & NO_INDEF) && s.chance(1, 3)) {
                    o += (char)(mt << 5 | 31); size_t i = 0;
                    while (i < v.s.size() || s.chance(1, 4)) { size_t n = s.draw((uint32_t)(v.s.size() - i + 1)); head(s, o, mt, n, variety); o.append(v.s, i, n); i += n; }
                    o += (char)0xFF; return;
                }
                head(s, o, mt, v.s.size(), variety); o += v.s; return;
            }
            case Val::ARR: case Val::MAP: {
                unsigned const mt = v.k == Val::ARR ? 4 : 5; bool const var = (variety & 3) && !(variety & NO_INDEF) && !(mt == 5 && (variety & NO_INDEF_MAP)) && s.chance(1, 3);
                if (var) o += (char)(mt << 5 | 31); else head(s, o, mt, v.k == Val::ARR ? v.a.size() : v.a.size() / 2, variety);
                for (size_t i = 0; i != v.a.size(); ++i) put_cbor(s, o, v.a[i], variety);
                if (var) o += (char)0xFF;
                return;
            }
            case Val::TAG: head(s, o, 6, v.u, variety); put_cbor(s, o, v.a[0], variety); return;
            case Val::SIMPLE: if (v.u < 24) o += (char)(0xE0 | v.u); else { o += (char)0xF8; o += (char)v.u; } return;
        }
    }
    std::string encode(Sim& s, const Val& v, Fmt f, unsigned variety) {
        std::string o;
        if (f == F_CBOR) put_cbor(s, o, v, variety); else { TextOpt const t = text_opt(f); if (variety) put_ws(s, o, t, variety); put_text(s, o, v, t, variety); }
        return o;
    }

    // ---- generators ----
    bool gen_plain = false;
    std::string gen_utf8(Sim& s, size_t max) {
        std::string o; size_t n = s.size(max);
        for (size_t i = 0; i != n; ++i) {
            uint32_t c;
            switch (s.draw(12)) {
                case 5: c = "\"\\/=,:;{}[] '"[s.draw(13)]; break;
                case 6: c = s.draw(0x20); break;
                case 7: { static const uint32_t b[] = { 0x7F, 0x80, 0x7FF, 0x800, 0xFFFF, 0x10000, 0x10FFFF, 0xD7FF, 0xE000, 0x2028, 0x2029, 0xFEFF, 0xFFFD }; c = b[s.draw(13)]; break; }
                case 8: c = 0x80 + s.draw(0x780); break;
                case 9: c = 0x800 + s.draw(0xD000); break;
                case 10: c = 0x10000 + s.draw(0x100000); break;
                case 11: c = 0; break;
                default: c = 'a' + s.draw(26);
            }
            if (gen_plain && (c < 0x20 || c == '"' || c == '\\' || c == '\'')) c = 'p';
            utf8_put(o, c);
        }
        return o;
    }
    uint64_t gen_uint(Sim& s, unsigned bits) {
        uint64_t const max = bits >= 64 ? ~0ull : (1ull << bits) - 1;
        switch (s.draw(6)) {
            case 0: return s.draw(24) & max;
            case 1: { static const uint64_t b[] = { 0, 1, 9, 10, 22, 23, 24, 25, 31, 32, 127, 128, 255, 256, 257, 999, 1000, 32767, 32768, 65535, 65536, 2147483647, 2147483648u, 4294967295u, 4294967296ull,
                        999999999999ull, 9223372036854775807ull, 9223372036854775808ull, 18446744073709551615ull, 1000000000000000000ull, 10000000000000000000ull }; return b[s.draw(sizeof(b) / sizeof(*b))] & max; }
            case 2: return max - s.draw(4);
            case 3: return (max >> 1) + s.draw(3) - 1;
            case 4: return s.bits(s.range(1, bits)) & max;
            default: return s.bits(bits) & max;
        }
    }
    double gen_double(Sim& s) {
        switch (s.draw(8)) {
            case 0: return (double)s.draw(100);
            case 1: { static const double b[] = { 0.0, -0.0, 1.0, -1.0, 0.1, 0.5, 1e21, 1e22, 1e-7, 123456789012345680.0, 9007199254740993.0, 4.9e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 2.2250738585072009e-308, 3.4028234663852886e38, 1e15, 1e16, 1e17, 1.5, 65504.0, 5.9604644775390625e-8, 16777217.0 }; double d = b[s.draw(sizeof(b) / sizeof(*b))]; return s.draw(2) ? -d : d; }
            case 2: return -(double)s.draw(1000) / 8;
            case 3: return (double)(int64_t)gen_uint(s, 64);
            case 4: return (double)s.draw(1000000) / 1000;
            case 5: return std::ldexp((double)s.bits(53), (int)s.draw(200) - 100);
            default: { uint64_t u = s.bits(64); double d; memcpy(&d, &u, 8); return std::isfinite(d) ? d : 0.25; }
        }
    }
    float gen_float(Sim& s) {
        switch (s.draw(5)) {
            case 0: return (float)s.draw(100);
            case 1: { static const float b[] = { 0.0f, -0.0f, 1.0f, 0.1f, 16777216.0f, 1.17549435e-38f, 1.4e-45f, 3.4028235e38f, 0.3f, 65504.0f, 1e10f, 8388608.5f }; float d = b[s.draw(sizeof(b) / sizeof(*b))]; return s.draw(2) ? -d : d; }
            case 2: return -(float)s.draw(1000) / 8;
            case 3: return (float)s.draw(1000000) / 1000;
            default: { uint32_t u = (uint32_t)s.bits(32); float d; memcpy(&d, &u, 4); return std::isfinite(d) ? d : 0.25f; }
        }
    }
    std::string gen_key_cxcf(Sim& s) {
        std::string k = gen_utf8(s, 6), r;
        std::vector<uint32_t> c = utf8_get(k);
        for (size_t i = 0; i != c.size(); ++i) if (c[i] >= ' ' && !strchr("{}[]/", c[i] < 128 ? (int)c[i] : 'x')) utf8_put(r, c[i]);
        return r.empty() ? "k" : r;
    }
    Val gen_val(Sim& s, const GenOpt& o) {
        unsigned n = o.depth ? 14 : 11;
        switch (s.draw(n)) {
            case 0: return Val::null();
            case 1: return Val::boolean(s.draw(2));
            case 2: case 3: return Val::uint(gen_uint(s, 64));
            case 4: { uint64_t u = gen_uint(s, 63); return Val::nint(u); }
            case 5: case 6: { double d = gen_double(s); if (o.real_specials && s.chance(1, 8)) d = s.draw(3) == 0 ? NAN : s.draw(2) ? INFINITY : -INFINITY; return Val::real(d); }
            case 7: case 8: return Val::str(gen_utf8(s, 12));
            case 9: if (o.cbor_node) { std::string b; size_t k = s.size(12); while (k--) b += (char)s.draw(256); return Val::bytes(b); } return Val::str("");
            case 10: if (o.cbor_node) switch (s.draw(3)) { case 0: return Val::undef(); case 1: return Val::simple(s.draw(2) ? s.draw(20) : 32 + s.draw(224)); default: if (o.depth) { GenOpt c = o; --c.depth; return Val::tag(gen_uint(s, 64), gen_val(s, c)); } return Val::undef(); } return Val::boolean(true);
            case 11: { Val v = Val::arr(); size_t k = s.size(6); GenOpt c = o; --c.depth; while (k--) v.a.push_back(gen_val(s, c)); return v; }
            default: {
                Val v = Val::map(); size_t k = s.size(5); GenOpt c = o; --c.depth;
                while (k--) {
                    Val key = o.f == F_CBOR && !o.json_node && s.chance(1, 3) ? gen_val(s, c) : Val::str(o.f == F_CXCF ? gen_key_cxcf(s) : gen_utf8(s, 6));
                    bool dup = false; for (size_t i = 0; i < v.a.size(); i += 2) if (v.a[i] == key) dup = true;
                    if (dup || (key.k == Val::REAL && key.d != key.d)) continue;
                    v.a.push_back(key); v.a.push_back(gen_val(s, c));
                }
                return v;
            }
        }
    }

    // ---- damage ----
    static const char* const text_bits[] = { "{", "}", "[", "]", ",", ":", "=", "\"", "\\", "\\u", "\\uD800", "\\uDC00", "\\ud83d\\ude00", "null", "true", "false", "nul", "-", "0", "1", ".", "e", "E+", "00", "-0", "1.", ".5", "1e", "1e+",
        "99999999999999999999", "1e999", "1e-999", "-1", "256", "65536", "2147483648", "4294967296", "18446744073709551616", "-9223372036854775809", "0x1", "+1", " ", "\n", "\x80", "\xC3", "\xE2\x82", "\xF0\x9F\x98", "\xED\xA0\x80", "\xC0\x80", "\xFF", "\x01", "\x7F", "//", "/*", "*/", "\"inf\"", "\"-nan\"", "Infinity", "NaN", "\"\"", "{}", "[]", "\\x", "'", ";" };
    std::string damage(Sim& s, std::string& b, Fmt f, unsigned rounds) {
        std::string d;
        for (unsigned r = 0; r != rounds; ++r) {
            size_t const n = b.size();
            unsigned const k = s.draw(13);
            size_t const p = n ? s.draw((uint32_t)n) : 0;
            if (n == 0 && k != 4) { continue; }
            switch (k) {
                case 0: { unsigned bit = s.draw(8); b[p] = (char)(b[p] ^ (1 << bit)); d += fmt(" flip@%zu.%u", p, bit); s.fault("bit flip"); break; }
                case 1: b[p] = (char)s.draw(256); d += fmt(" set@%zu=%02x", p, (unsigned char)b[p]); s.fault("byte overwrite"); break;
                case 2: { size_t m = 1 + s.size(n - p > 8 ? 7 : n - p - 1); b.erase(p, m); d += fmt(" lose@%zu+%zu", p, m); s.fault("bytes lost"); break; }
                case 3: { size_t m = 1 + s.size(n - p > 16 ? 15 : n - p - 1); b.insert(p, b.substr(p, m)); d += fmt(" dup@%zu+%zu", p, m); s.fault("bytes duplicated"); break; }
                case 4: { size_t q = s.draw((uint32_t)n + 1); std::string t;
                    if (f != F_CBOR) t = text_bits[s.draw(sizeof(text_bits) / sizeof(*text_bits))];
                    else { static const unsigned char ib[] = { 0xFF, 0x1C, 0x1F, 0x3F, 0x5F, 0x7F, 0x9F, 0xBF, 0xDF, 0xF8, 0xF9, 0xFA, 0xFB, 0xFC, 0xF6, 0xF7, 0xC0, 0xD8, 0x18, 0x19, 0x1A, 0x1B, 0x38, 0x3B, 0x58, 0x5B, 0x78, 0x7B, 0x98, 0x9B, 0xB8, 0xBB, 0x00, 0x20, 0x40, 0x60, 0x80, 0xA0, 0xE0, 0xF4 }; t += (char)ib[s.draw(sizeof(ib))]; }
                    b.insert(q, t); d += fmt(" ins@%zu=%s", q, hex(t).c_str()); s.fault("bytes inserted"); break; }
                case 5: b.resize(p); d += fmt(" cut@%zu", p); s.fault("truncation"); break;
                case 6: { size_t q = s.draw((uint32_t)n); std::swap(b[p], b[q]); d += fmt(" swap@%zu,%zu", p, q); s.fault("bytes swapped"); break; }
                case 7: { size_t m = 1 + s.size(n - p - 1); for (size_t i = p; i != p + m; ++i) b[i] = 0; d += fmt(" zero@%zu+%zu", p, m); s.fault("bytes zeroed"); break; }
                case 8: { // overwrite with a token
                    if (f != F_CBOR) { std::string t = text_bits[s.draw(sizeof(text_bits) / sizeof(*text_bits))]; size_t m = 1 + s.size(n - p > 4 ? 3 : n - p - 1); b.replace(p, m, t); d += fmt(" put@%zu=%s", p, hex(t).c_str()); }
                    else { // grow a length/count/argument
                        unsigned char c = (unsigned char)b[p]; b[p] = (char)((c & 0xE0) | s.draw(32)); d += fmt(" minor@%zu=%02x", p, (unsigned char)b[p]); }
                    s.fault("field overwritten"); break; }
                case 9: { // a digit or an argument byte changes
                    size_t q = p; for (size_t i = 0; i != n; ++i) { size_t t = (p + i) % n; if (f == F_CBOR || (b[t] >= '0' && b[t] <= '9')) { q = t; break; } }
                    b[q] = f == F_CBOR ? (char)(s.draw(2) ? 0xFF : 0x7F) : (char)("0123456789.eE+-"[s.draw(15)]); d += fmt(" num@%zu=%02x", q, (unsigned char)b[q]); s.fault("number changed"); break; }
                case 10: { size_t m = 1 + s.size(n - p > 16 ? 15 : n - p - 1); std::string t = b.substr(p, m); b.erase(p, m); size_t q = s.draw((uint32_t)b.size() + 1); b.insert(q, t); d += fmt(" move@%zu+%zu->%zu", p, m, q); s.fault("bytes moved"); break; }
                case 11: { // the edges of characters, where there is a string if there is one
                    size_t q = p; for (size_t i = 0; i != n; ++i) { size_t t = (p + i) % n; if (f == F_CBOR ? ((unsigned char)b[t] >> 5) == 3 : b[t] == '"') { q = t + 1; break; } }
                    static const unsigned u[] = { 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xD7FF, 0xE000, 0xFFFF, 0, 0x1F, 0x20, 0x22, 0x5C, 0x7F, 0x80, 0x7FF, 0x800 };
                    static const char* const c[] = { "\x7F", "\xC2\x80", "\xC1\xBF", "\xDF\xBF", "\xE0\xA0\x80", "\xE0\x9F\xBF", "\xED\x9F\xBF", "\xED\xA0\x80", "\xEE\x80\x80", "\xEF\xBF\xBF", "\xF0\x90\x80\x80", "\xF0\x8F\xBF\xBF", "\xF4\x8F\xBF\xBF", "\xF4\x90\x80\x80", "\xF8\x88\x80\x80\x80", "\x80", "\xBF", "\xC2", "\xE1\x80", "\xF1\x80\x80", "\xE1\x80\xC0", "\xF1\x80\x80\x20" };
                    std::string t; unsigned m = 1 + s.draw(2);
                    if (f != F_CBOR && s.draw(2)) while (m--) t += fmt("\\u%04x", u[s.draw(16)]); else while (m--) t += c[s.draw(22)];
                    if (f == F_CBOR && q && (b[q - 1] & 31) + t.size() < 24) b[q - 1] = (char)(b[q - 1] + (char)t.size());
                    b.insert(q, t); d += fmt(" chr@%zu=%s", q, hex(t).c_str()); s.fault("characters inserted"); break; }
                default: { size_t m = 1 + s.size(24); std::string t; while (m--) t += (char)s.draw(256); b += t; d += fmt(" junk+%zu", t.size()); s.fault("trailing junk"); break; }
            }
        }
        return d.empty() ? " none" : d;
    }

}
