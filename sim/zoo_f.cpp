// user types
#include "zoo.hxx"
#include "cxon/lib/std/string.hxx"
#include "cxon/lib/std/vector.hxx"
#include "cxon/lib/std/map.hxx"
#include "cxon/lib/std/optional.hxx"
#include "cxon/lib/std/memory.hxx"
namespace rec {
    enum class Color { red = 1, green, blue = 300 };
    struct Plain { int a = 0; std::string b; std::vector<int> c; };
    struct Memb {
        double num = 0; int dflt = 7; Plain in; std::optional<std::string> opt; Color col = Color::red; bool flag = false;
        CXON_JSON_CLS_MEMBER(Memb, CXON_JSON_CLS_FIELD_ASIS(num), CXON_JSON_CLS_FIELD_NAME_DFLT("with-default", dflt, self.dflt == 7), CXON_JSON_CLS_FIELD_ASIS(in), CXON_JSON_CLS_FIELD_ASIS(opt), CXON_JSON_CLS_FIELD_NAME("colour", col), CXON_JSON_CLS_FIELD_SKIP("ignored"), CXON_JSON_CLS_FIELD_ASIS(flag))
        CXON_CBOR_CLS_MEMBER(Memb, CXON_CBOR_CLS_FIELD_ASIS(num), CXON_CBOR_CLS_FIELD_NAME_DFLT("with-default", dflt, self.dflt == 7), CXON_CBOR_CLS_FIELD_ASIS(in), CXON_CBOR_CLS_FIELD_ASIS(opt), CXON_CBOR_CLS_FIELD_NAME("colour", col), CXON_CBOR_CLS_FIELD_SKIP("ignored"), CXON_CBOR_CLS_FIELD_ASIS(flag))
    };
    struct Tree { int v = 0; std::vector<Tree> kids; std::map<std::string, Tree> named; };
    struct List { int v = 0; std::unique_ptr<List> next; };
    struct Bare { int a = 0; std::string b; Plain in; };
}
CXON_JSON_ENM(rec::Color, CXON_JSON_ENM_VALUE_ASIS(red), CXON_JSON_ENM_VALUE_NAME("GREEN", green), CXON_JSON_ENM_VALUE_ASIS(blue))
CXON_CBOR_ENM(rec::Color, CXON_CBOR_ENM_VALUE_NAME(1, red), CXON_CBOR_ENM_VALUE_NAME(2, green), CXON_CBOR_ENM_VALUE_NAME(300, blue))
CXON_JSON_CLS(rec::Plain, CXON_JSON_CLS_FIELD_ASIS(a), CXON_JSON_CLS_FIELD_ASIS(b), CXON_JSON_CLS_FIELD_ASIS(c))
CXON_CBOR_CLS(rec::Plain, CXON_CBOR_CLS_FIELD_ASIS(a), CXON_CBOR_CLS_FIELD_ASIS(b), CXON_CBOR_CLS_FIELD_ASIS(c))
CXON_JSON_CLS(rec::Tree, CXON_JSON_CLS_FIELD_ASIS(v), CXON_JSON_CLS_FIELD_ASIS(kids), CXON_JSON_CLS_FIELD_ASIS(named))
CXON_CBOR_CLS(rec::Tree, CXON_CBOR_CLS_FIELD_ASIS(v), CXON_CBOR_CLS_FIELD_ASIS(kids), CXON_CBOR_CLS_FIELD_ASIS(named))
CXON_JSON_CLS(rec::List, CXON_JSON_CLS_FIELD_ASIS(v), CXON_JSON_CLS_FIELD_ASIS(next))
CXON_CBOR_CLS(rec::List, CXON_CBOR_CLS_FIELD_ASIS(v), CXON_CBOR_CLS_FIELD_ASIS(next))
CXON_JSON_CLS_BARE(rec::Bare)
CXON_JSON_CLS(rec::Bare, CXON_JSON_CLS_FIELD_ASIS(a), CXON_JSON_CLS_FIELD_ASIS(b), CXON_JSON_CLS_FIELD_ASIS(in))
namespace zoo {
    template <> struct Tr<std::string> : TrStr<std::string> {};
    template <typename T> struct Tr<std::vector<T>> : TrSeq<std::vector<T>> {};
    template <typename K, typename T> struct Tr<std::map<K, T>> : TrMap<std::map<K, T>> {};
    template <typename T> struct Tr<std::optional<T>> {
        typedef std::optional<T> C;
        static void gen(Sim& s, C& c, unsigned d) { if (s.draw(4) == 3) { c.reset(); return; } T t{}; zoo::gen(s, t, d); c = std::move(t); }
        static Val to(const C& c, Fmt f) { return c ? zoo::to<T>(*c, f) : f == F_CBOR ? Val::undef() : Val::null(); }
        static bool eq(const C& a, const C& b) { return !a || !b ? !a == !b : zoo::eq<T>(*a, *b); }
        static From from(const Val& v, Fmt f, C& c) { if ((f == F_CBOR ? untag(v) : v).k == (f == F_CBOR ? Val::UNDEF : Val::NUL)) { c.reset(); return ACCEPT; } T t{}; From r = zoo::from<T>(v, f, t); if (r == ACCEPT) c = std::move(t); return r; }
    };
    template <> struct Tr<rec::Color> {
        static void gen(Sim& s, rec::Color& t, unsigned) { t = s.draw(3) == 0 ? rec::Color::red : s.draw(2) ? rec::Color::green : rec::Color::blue; }
        static Val to(rec::Color t, Fmt f) { return f == F_CBOR ? Val::uint((uint64_t)t) : Val::str(t == rec::Color::red ? "red" : t == rec::Color::green ? "GREEN" : "blue"); }
        static bool eq(rec::Color a, rec::Color b) { return a == b; }
        static From from(const Val& v, Fmt f, rec::Color& t) {
            for (rec::Color c : { rec::Color::red, rec::Color::green, rec::Color::blue }) {
                if (f == F_CBOR) { const Val& u = untag(v); if (u.k == Val::INT && !u.b && u.u == (uint64_t)c) { t = c; return ACCEPT; } }
                else if (v.k == Val::STR && v.s == to(c, f).s) { t = c; return ACCEPT; }
            }
            return f == F_CBOR || v.k != Val::STR || v.s.find('\0') == v.s.npos ? REJECT : UNKNOWN;
        }
    };
    // the names CXON writes as CBOR keys carry their terminating zero
    inline Val key(const char* n, Fmt f) { std::string k(n); if (f == F_CBOR) k += '\0'; return Val::str(k); }
    struct Members { // a record as the reader sees it
        const Val& u; From r; std::vector<bool> used;
        Members(const Val& v, Fmt f) : u(f == F_CBOR ? untag(v) : v), r(ACCEPT), used(u.a.size() / 2) { if (u.k != Val::MAP) r = REJECT; }
        template <typename T> void get(const char* n, Fmt f, T& t) {
            if (r == REJECT || u.k != Val::MAP) return;
            bool seen = false;
            for (size_t i = 0; i != used.size(); ++i) {
                const std::string& k = u.a[2 * i].s; if (u.a[2 * i].k != Val::STR && u.a[2 * i].k != Val::BYTES) continue;
                if (k != n && (f != F_CBOR || k != std::string(n) + '\0')) continue;
                used[i] = true; if (seen) { r = REJECT; return; } seen = true;
                From q = zoo::from<T>(u.a[2 * i + 1], f, t); if (q == REJECT) { r = q; return; } if (q == UNKNOWN) r = q;
            }
        }
        void skip(const char* n, Fmt f) { for (size_t i = 0; i != used.size(); ++i) { const std::string& k = u.a[2 * i].s; if (k == n || (f == F_CBOR && k == std::string(n) + '\0')) used[i] = true; } }
        From done(Fmt f) { if (r == REJECT) return r; for (bool b : used) if (!b) return f == F_CBOR ? UNKNOWN : REJECT; return r; }
    };
    template <> struct Tr<rec::Plain> {
        typedef rec::Plain C;
        static void gen(Sim& s, C& c, unsigned d) { C n; zoo::gen(s, n.a, 0); zoo::gen(s, n.b, 0); zoo::gen(s, n.c, d ? d - 1 : 0); c = n; }
        static Val to(const C& c, Fmt f) { Val v = Val::map(); v.add(key("a", f), zoo::to<int>(c.a, f)); v.add(key("b", f), zoo::to<std::string>(c.b, f)); v.add(key("c", f), zoo::to<std::vector<int>>(c.c, f)); return v; }
        static bool eq(const C& a, const C& b) { return a.a == b.a && a.b == b.b && a.c == b.c; }
        static From from(const Val& v, Fmt f, C& c) { Members m(v, f); m.get("a", f, c.a); m.get("b", f, c.b); m.get("c", f, c.c); return m.done(f); }
    };
    template <> struct Tr<rec::Memb> {
        typedef rec::Memb C;
        static void gen(Sim& s, C& c, unsigned d) { C n; if (d) --d; zoo::gen(s, n.num, 0); if (s.draw(2)) zoo::gen(s, n.dflt, 0); zoo::gen(s, n.in, d); zoo::gen(s, n.opt, 0); zoo::gen(s, n.col, 0); zoo::gen(s, n.flag, 0); c = n; }
        static Val to(const C& c, Fmt f) {
            Val v = Val::map(); v.add(key("num", f), zoo::to<double>(c.num, f)); if (c.dflt != 7) v.add(key("with-default", f), zoo::to<int>(c.dflt, f));
            v.add(key("in", f), zoo::to<rec::Plain>(c.in, f)); v.add(key("opt", f), zoo::to<std::optional<std::string>>(c.opt, f)); v.add(key("colour", f), zoo::to<rec::Color>(c.col, f)); v.add(key("flag", f), zoo::to<bool>(c.flag, f)); return v;
        }
        static bool eq(const C& a, const C& b) { return zoo::eq<double>(a.num, b.num) && a.dflt == b.dflt && zoo::eq<rec::Plain>(a.in, b.in) && a.opt == b.opt && a.col == b.col && a.flag == b.flag; }
        static From from(const Val& v, Fmt f, C& c) { Members m(v, f); m.get("num", f, c.num); m.get("with-default", f, c.dflt); m.get("in", f, c.in); m.get("opt", f, c.opt); m.get("colour", f, c.col); m.get("flag", f, c.flag); m.skip("ignored", f); return m.done(f); }
    };
    template <> struct Tr<rec::Tree> {
        typedef rec::Tree C;
        static void gen(Sim& s, C& c, unsigned d) { C n; zoo::gen(s, n.v, 0); if (d) { zoo::gen(s, n.kids, d - 1); zoo::gen(s, n.named, d - 1); } c = std::move(n); }
        static Val to(const C& c, Fmt f) { Val v = Val::map(); v.add(key("v", f), zoo::to<int>(c.v, f)); v.add(key("kids", f), zoo::to<std::vector<C>>(c.kids, f)); v.add(key("named", f), zoo::to<std::map<std::string, C>>(c.named, f)); return v; }
        static bool eq(const C& a, const C& b) { return a.v == b.v && zoo::eq<std::vector<C>>(a.kids, b.kids) && zoo::eq<std::map<std::string, C>>(a.named, b.named); }
        static From from(const Val& v, Fmt f, C& c) { Members m(v, f); m.get("v", f, c.v); m.get("kids", f, c.kids); m.get("named", f, c.named); return m.done(f); }
    };
    template <> struct Tr<rec::List> {
        typedef rec::List C;
        static void gen(Sim& s, C& c, unsigned) { C n; zoo::gen(s, n.v, 0); C* p = &n; for (size_t k = s.size(5); k; --k) { p->next.reset(new C()); p = p->next.get(); zoo::gen(s, p->v, 0); } c = std::move(n); }
        static Val to(const C& c, Fmt f) { return Val::map().add(key("v", f), zoo::to<int>(c.v, f)).add(key("next", f), c.next ? to(*c.next, f) : Val::null()); }
        static bool eq(const C& a, const C& b) { return a.v == b.v && !a.next == !b.next && (!a.next || eq(*a.next, *b.next)); }
        static From from(const Val&, Fmt, C&) { return UNKNOWN; }
    };
    template <> struct Tr<rec::Bare> {
        typedef rec::Bare C;
        static void gen(Sim& s, C& c, unsigned d) { C n; zoo::gen(s, n.a, 0); zoo::gen(s, n.b, 0); zoo::gen(s, n.in, d ? d - 1 : 0); c = n; }
        static Val to(const C& c, Fmt f) { Val v = Val::map(); v.add(key("a", f), zoo::to<int>(c.a, f)); v.add(key("b", f), zoo::to<std::string>(c.b, f)); v.add(key("in", f), zoo::to<rec::Plain>(c.in, f)); return v; }
        static bool eq(const C& a, const C& b) { return a.a == b.a && a.b == b.b && zoo::eq<rec::Plain>(a.in, b.in); }
        static From from(const Val&, Fmt, C&) { return UNKNOWN; }
    };
}
namespace { using namespace zoo;
    ZOO_JB("enum", NUMERIC | PLAINTXT, rec::Color)
    ZOO_JCB("Plain", CHARS | CLASS, rec::Plain)
    ZOO_JCB("Memb", CHARS | CLASS | FLOATS, rec::Memb)
    ZOO_JB("Tree", CHARS | CLASS, rec::Tree)
    ZOO_JB("List", CLASS, rec::List)
    ZOO_C("Bare", CHARS | CLASS | BARE, rec::Bare)
}
