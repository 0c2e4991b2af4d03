// The model value, and independent codecs for it (shares no code with cxon). C++11.
#ifndef SIM_VAL_HXX_
#define SIM_VAL_HXX_

#include "core.hxx"

namespace sim {

    enum Fmt { F_JSON, F_JSTR, F_CXCF, F_CBOR, F_CXCN, F_N };       // JSTR: JSON with strict numbers; CXCN: CXCF as nodes have it (keys are values)
    inline const char* name(Fmt f) { static const char* const n[] = { "json", "json-strict", "cxcf", "cbor", "cxcf" }; return n[f]; }
    inline bool cx(Fmt f) { return f == F_CXCF || f == F_CXCN; }
    inline bool text(Fmt f) { return f != F_CBOR; }

    struct Val {
        enum Kind { UNDEF, NUL, BOOL, INT, REAL, STR, BYTES, ARR, MAP, TAG, SIMPLE };
        Kind k = UNDEF;
        bool b = false;                 // BOOL; INT: negative
        uint64_t u = 0;                 // INT: u if !b, -1-u if b; TAG: number; SIMPLE: value
        long double d = 0;              // REAL
        int prec = 1;                   // REAL: 0 float, 1 double, 2 long double (how it was produced)
        std::string s;                  // STR (UTF-8), BYTES; numbers parsed from text: the lexeme
        std::vector<Val> a;             // ARR: items; MAP: k0, v0, k1, v1, ...; TAG: one item
        bool quoted = false;            // text: map key given in quotes / number given as a string

        static Val undef() { return Val(); }
        static Val null() { Val v; v.k = NUL; return v; }
        static Val boolean(bool x) { Val v; v.k = BOOL; v.b = x; return v; }
        static Val uint(uint64_t x) { Val v; v.k = INT; v.u = x; return v; }
        static Val nint(uint64_t n) { Val v; v.k = INT; v.b = true; v.u = n; return v; }      // -1-n
        static Val sint(int64_t x) { return x < 0 ? nint((uint64_t)(-1 - x)) : uint((uint64_t)x); }
        static Val real(long double x, int prec = 1) { Val v; v.k = REAL; v.d = x; v.prec = prec; return v; }
        static Val str(const std::string& x) { Val v; v.k = STR; v.s = x; return v; }
        static Val bytes(const std::string& x) { Val v; v.k = BYTES; v.s = x; return v; }
        static Val arr() { Val v; v.k = ARR; return v; }
        static Val map() { Val v; v.k = MAP; return v; }
        static Val tag(uint64_t n, const Val& x) { Val v; v.k = TAG; v.u = n; v.a.push_back(x); return v; }
        static Val simple(unsigned n) { Val v; v.k = SIMPLE; v.u = n; return v; }
        Val& add(const Val& x) { a.push_back(x); return *this; }
        Val& add(const Val& x, const Val& y) { a.push_back(x); a.push_back(y); return *this; }
        bool isnum() const { return k == INT || k == REAL; }
        long double num() const { return k == INT ? (b ? -1.0L - (long double)u : (long double)u) : d; }
    };

    bool operator ==(const Val& a, const Val& b);            // structural; NaNs are equal, -0.0 != 0.0, map order matters
    inline bool operator !=(const Val& a, const Val& b) { return !(a == b); }
    bool less(const Val& a, const Val& b);                   // total order
    std::string show(const Val& v, size_t max = 300);

    // does `got` (parsed from bytes of format f) denote `want` (the value that was written)?
    bool same(const Val& want, const Val& got, Fmt f, bool ordered = true);

    // ---- reference parsers ----

    struct Parse {
        enum R { OK, BAD, SHORT };      // SHORT: bad only because the input ends here
        R r = BAD; size_t end = 0;      // OK: behind the value. otherwise the offset at which the parser gave up
        bool open = false;              // OK, but more bytes could continue the value (number at the end of the input)
        Val v; unsigned depth = 0;      // nesting depth reached (1: scalar)
        const char* why = "";
    };
    // a format of text: JSON, one of its documented customisations
    struct TextOpt {
        enum Keys { QUOTED, STRINGS, RAW, VALUES }; // all between delimiters | strings only | raw text | any value, as it is
        char div = ':', sep = ',', lsep = ',', del = '"';
        Keys keys = QUOTED;
        bool comments = false, trailing = false, nans = false, controls = false, invalid = false, no_escapes = false, js = false, unique = true;
        unsigned max_depth = 1000;
    };
    TextOpt text_opt(Fmt f);
    Parse parse_text(const std::string& s, size_t at, const TextOpt& o);
    struct CborOpt { unsigned max_depth = 1000; };
    Parse parse_cbor(const std::string& s, size_t at, const CborOpt& o);
    Parse parse(const std::string& s, size_t at, Fmt f);

    double to_d(const char* s);                              // in the C locale
    bool utf8_valid(const std::string& s);
    void utf8_put(std::string& o, uint32_t c);
    std::vector<uint32_t> utf8_get(const std::string& s);    // s must be valid

    // ---- reference encoders: one of the many encodings of the same value ----
    // variety 0: plain, 1: forms, 2: also added tags
    // NO_INDEF: definite lengths only; NO_INDEF_MAP: for maps; PLAIN: no \u for letters, digits and such
    // SPACED: comments only behind space and brackets
    enum { NO_INDEF = 16, NO_INDEF_MAP = 8, PLAIN = 32, SPACED = 64 };
    void put_space(Sim& s, std::string& o, const TextOpt& f, unsigned variety);
    void put_text(Sim& s, std::string& o, const Val& v, const TextOpt& f, unsigned variety, bool key = false);
    inline void put_text(Sim& s, std::string& o, const Val& v, Fmt f, unsigned variety, bool key = false) { put_text(s, o, v, text_opt(f), variety, key); }
    void put_cbor(Sim& s, std::string& o, const Val& v, unsigned variety);
    std::string encode(Sim& s, const Val& v, Fmt f, unsigned variety);

    // ---- generators ----
    std::string gen_utf8(Sim& s, size_t max_chars);
    std::string gen_key_cxcf(Sim& s);                        // a name that needs no escapes CXCF keys do not have
    double gen_double(Sim& s);
    float gen_float(Sim& s);
    uint64_t gen_uint(Sim& s, unsigned bits);                // boundary biased
    extern bool gen_plain;  // strings nothing of which is ever escaped
    struct GenOpt { Fmt f; unsigned depth; bool cbor_node; bool json_node; bool real_specials; };
    Val gen_val(Sim& s, const GenOpt& o);

    // ---- damage ----
    // storage and transport faults on bytes; returns a description, counts the faults
    std::string damage(Sim& s, std::string& bytes, Fmt f, unsigned rounds);
}

#endif
