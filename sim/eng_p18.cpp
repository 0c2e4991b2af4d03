// P18: records from peers that know more, fewer or other members, and send them in any order
#include "eng.hxx"
using namespace eng;

namespace {
    enum Kind { INT, DBL, BOOL, STR, VEC, ARR3, MAP, OPT, REC, RECS, SUB, RAW };
    struct Fld { std::string name; Kind kind; const char* rec; };
    struct Schema { const char* type; std::vector<Fld> f; std::vector<std::string> skip, never; };
#   define LONG_ "a-name-of-sixty-two-characters-which-is-the-longest-that-is-ok"
    const Schema& schema(const std::string& t) {
        static const std::vector<Schema> all = {
            { "In",   { { "a", INT, 0 }, { "ab", STR, 0 }, { "abc", BOOL, 0 } }, { "z" } },
            { "Rec",  { { "a", INT, 0 }, { "d", DBL, 0 }, { "s", STR, 0 }, { "v", VEC, 0 }, { "w", ARR3, 0 }, { "m", MAP, 0 }, { "o", OPT, 0 }, { "in", REC, "In" }, { "ins", RECS, "In" }, { "b", BOOL, 0 } }, { "skip", "s2" } },
            { "Memb", { { "x", INT, 0 }, { "y", REC, "In" }, { "z", INT, 0 } }, { "skip", "x-skip" } },
            { "Odd",  { { "a b", INT, 0 }, { "q\"t", INT, 0 }, { "\xD0\xBA\xE2\x82\xAC", INT, 0 }, { "t\tt", INT, 0 }, { "=", INT, 0 } }, { "s\\k" } },
            { "Long", { { "a", INT, 0 }, { LONG_, INT, 0 } }, { LONG_ "2" }, { LONG_ "-and-then-some-more-characters" } },
            { "Bare", { { "a", INT, 0 }, { "s", STR, 0 }, { "in", REC, "In" } }, { "skip" } },
            { "Deep", { { "a", INT, 0 }, { "sub", SUB, "Deep" } }, { "skip" } },
            { "Raw",  { { "a", INT, 0 }, { "raw", RAW, 0 }, { "z", INT, 0 } }, {} },
        };
        std::string const n = t.substr(0, t.find(' ')), l = t.substr(t.rfind(' ') + 1); // (the style comes first)
        for (const Schema& c : all) if (n == c.type || l == c.type) return c;
        abort();
    }
    Val fresh(const Schema& c) {
        Val v = Val::map();
        for (const Fld& f : c.f) switch (f.kind) {
            case INT: v.add(Val::str(f.name), Val::sint(0)); break;
            case DBL: v.add(Val::str(f.name), Val::real(0)); break;
            case BOOL: v.add(Val::str(f.name), Val::boolean(false)); break;
            case STR: v.add(Val::str(f.name), Val::str("")); break;
            case REC: v.add(Val::str(f.name), fresh(schema(f.rec))); break;
            case SUB: v.add(Val::str(f.name), Val::null()); break;
            default: v.add(Val::str(f.name), Val::arr()); break;
        }
        return v;
    }

    // what the sender writes, and what the receiver makes of it
    std::string tight(const std::string& t);
    struct Doc {
        Sim& s; const Op& o; sim::TextOpt const t; bool const raw; unsigned var; bool rep; bool cb; bool faults; bool fault = false; bool weird = false; std::string known; std::vector<std::string> told; bool closed = false;
        Doc(Sim& s, const Op& o, unsigned var, bool faults) : s(s), o(o), t(o.style ? *o.style : sim::text_opt(o.f)), raw(t.keys == sim::TextOpt::RAW), var(var), rep(o.style ? !o.style->unique : !!strstr(o.type, "repeats")), cb(o.f == F_CBOR), faults(faults) {}
        unsigned v() const { return (cb && var ? 1 + s.draw(2) : var) | (cb ? NO_INDEF_MAP : 0); }
        void ws(std::string& d, bool need = false) {
            if (cb) return;
            if (!var) { if (need) d += ' '; return; }
            unsigned n = s.chance(1, 3) ? 1 + s.draw(3) : need ? 1 : 0;
            for (unsigned k = 0; k != n; ++k) {
                if (t.comments && !need && s.chance(1, 4) && !d.empty() && d.back() != '/') { d += s.draw(2) ? "// } a=1 \"\n" : "/* ]}\" a=1 */"; }
                d += " \n\t\r"[s.draw(4)];
                if (t.comments && need && s.chance(1, 6)) { d += s.draw(2) ? "// } a=1 \"\n" : "/* ]}\" a=1 */"; }
            }
        }
        void key(std::string& d, const std::string& n) {
            if (cb) {
                std::string k = n; unsigned z = s.draw(3); if (z == 2) z = 0;
                if (k.size() + z > 63) z = 0;
                k.append(z, '\0'); put_cbor(s, d, s.chance(1, 8) ? Val::bytes(k) : Val::str(k), var ? 1 : 0);
            }
            else put_text(s, d, Val::str(n), t, var, true);
        }
        void div(std::string& d) { if (!cb) { if (!raw || s.draw(2)) { if (var && s.chance(1, 4)) d += " \n\t"[s.draw(3)]; } d += t.div; ws(d); } }
        void put(std::string& d, const Val& x) { if (cb) put_cbor(s, d, x, v()); else put_text(s, d, x, t, var); }
        static void tame(Val& x, Fmt f, bool raw) {
            while (x.k == Val::TAG) { Val const t = x.a[0]; x = t; }
            if (f == F_CBOR && (x.k == Val::BYTES || x.k == Val::STR)) for (char& c : x.s) if (c == (char)0xFF) c = 1;
            if (f == F_CXCF && (x.k == Val::SIMPLE || x.k == Val::BYTES)) x = Val::null();
            for (size_t i = 0; i != x.a.size(); ++i) {
                if (raw && x.k == Val::MAP && i % 2 == 0) { std::string& k = x.a[i].s; for (char& c : k) if (strchr("{}[]/", c)) c = '_'; if (k.empty()) k = "k"; }
                tame(x.a[i], f, raw);
            }
        }
        Val any(unsigned depth) {
            GenOpt g = { raw ? F_CXCF : o.f, depth, false, !cb, true };
            Val x = gen_val(s, g); tame(x, o.f, raw); return x;
        }
        void skipped(std::string& d) {
            Val x = any(s.draw(4)); weird = true;
            if (s.chance(1, 400)) {
                if (cb && s.draw(2)) { known = "cbor tag of a skipped member"; x = Val::tag(gen_uint(s, 16), x); }
                else if (cb) { known = "cbor byte FF in a skipped string of indefinite length"; d += "\x5F\x42"; d += "\xFF\x01"; d += "\xFF"; return; }
                else if (o.f == F_CXCF && !o.style) { known = "cxcf bracket in a key of a skipped member"; x = Val::map(); x.add(Val::str(s.draw(2) ? "a}b" : "a{b"), Val::sint(1)); }
            }
            s.probe("skipped member");
            if (cb) put_cbor(s, d, x, var ? 1 : 0); else put_text(s, d, x, t, var ? var | SPACED : 0);
        }
        // a value of a member; m: what the receiver has, updated
        void value(std::string& d, const Fld& f, Val& m, unsigned depth) {
            switch (f.kind) {
                case INT: m = Val::sint((int)s.bits(s.draw(2) ? 7 : 32)); put(d, m); break;
                case DBL: m = Val::real(gen_double(s)); put(d, m); break;
                case BOOL: m = Val::boolean(s.draw(2)); put(d, m); break;
                case STR: { Val x = Val::str(gen_utf8(s, 8)); put(d, x); m.s += x.s; break; }
                case VEC: { Val x = Val::arr(); for (unsigned n = s.draw(5); n; --n) x.add(Val::sint((int)s.bits(16))); put(d, x); for (auto& e : x.a) m.add(e); break; }
                case ARR3: m = Val::arr(); for (int n = 0; n != 3; ++n) m.add(Val::sint((int)s.bits(10))); put(d, m); break;
                case MAP: {
                    Val x = Val::map(); 
                    for (unsigned n = s.draw(4); n; --n) {
                        Val const k = Val::str(raw ? gen_key_cxcf(s) : gen_utf8(s, 4)), y = Val::sint((int)s.bits(12));
                        bool dup = false; for (size_t i = 0; i != x.a.size(); i += 2) if (x.a[i] == k) dup = true;
                        if (dup) continue;
                        x.add(k, y);
                    }
                    put(d, x);
                    for (size_t i = 0; i != x.a.size(); i += 2) {
                        size_t j = 0; while (j != m.a.size() && m.a[j] != x.a[i]) j += 2;
                        if (j == m.a.size()) m.add(x.a[i], x.a[i + 1]); else m.a[j + 1] = x.a[i + 1];
                    }
                    break;
                }
                case OPT: if (s.draw(3) == 2) { m = cb ? Val::undef() : Val::null(); put(d, m); } else { m = Val::sint((int)s.bits(9)); put(d, m); } break;
                case REC: record(d, schema(f.rec), m, depth + 1); break;
                case RECS: {
                    unsigned n = s.draw(3); if (cb) { d += (char)(0x80 | n); } else d += '[';
                    bool const was = faults; faults = false;
                    for (unsigned i = 0; i != n; ++i) {
                        if (i && !cb) { if (t.lsep == ' ') ws(d, true); else d += t.lsep; }
                        Val e = fresh(schema(f.rec)); record(d, schema(f.rec), e, depth + 1); m.add(e);
                    }
                    faults = was;
                    if (!cb) d += ']';
                    break;
                }
                case SUB: {
                    bool const was = faults; faults = false;
                    if (depth < 3 && s.draw(2)) { Val e = fresh(schema(f.rec)); record(d, schema(f.rec), e, depth + 1); m = e; }
                    else { put(d, cb ? Val::null() : Val::null()); m = Val::null(); }
                    faults = was; break;
                }
                case RAW: {
                    Val x = any(s.draw(4)); std::string u;
                    if (cb) put_cbor(s, u, x, var ? 1 : 0); else put_text(s, u, x, t, var ? var | SPACED : 0);
                    d += u; m.s += o.f == F_JSON ? tight(u) : u; break;
                }
            }
        }
        std::string stranger(const Schema& c) {
            if (!c.never.empty() && s.chance(1, 3)) return c.never[0];
            for (;;) {
                std::string n = c.f[s.draw((uint32_t)c.f.size())].name;
                if (!c.skip.empty() && s.chance(1, 4)) n = c.skip[s.draw((uint32_t)c.skip.size())];
                switch (s.draw(7)) {
                    case 0: n += "0"; break;
                    case 1: n.pop_back(); break;
                    case 2: n[0] ^= 0x20; break;
                    case 3: n = gen_utf8(s, 5); break;
                    case 4: n += std::string(s.draw(2) ? 100 : 60, 'x'); break;
                    case 5: n = n.substr(1); break;
                    default: n.insert(n.size(), std::string("\0x", 2)); break;
                }
                if (!utf8_valid(n)) continue;
                if (cb) while (!n.empty() && n.back() == 0) n.pop_back();
                if (raw) { bool ok = !n.empty(); for (char k : n) if (strchr("{}[]/\"\\", k)) ok = false; if (!ok) continue; }
                bool is = false; for (auto& f : c.f) if (f.name == n) is = true;
                for (auto& k : c.skip) if (k == n) is = true;
                if (!is) return n;
            }
        }
        void record(std::string& d, const Schema& c, Val& m, unsigned depth) {
            size_t const nf = c.f.size(), nk = c.skip.size();
            std::vector<unsigned> w; // members sent, in order
            for (unsigned i = 0; i != nf + nk; ++i) if (!s.chance(1, 3)) w.push_back(i);
            for (size_t i = w.size(); i > 1; --i) std::swap(w[i - 1], w[i - 1 - s.draw((uint32_t)i)]);
            unsigned const STRANGER = 1000;
            if (rep) for (unsigned n = s.chance(1, 3) ? 1 + s.draw(3) : 0; n; --n) { unsigned const k = s.draw((uint32_t)(nf + nk)); if (k >= nf || (c.f[k].kind != SUB)) w.insert(w.begin() + s.draw((uint32_t)w.size() + 1), k); s.probe("repeated member"); }
            if (faults && s.chance(1, 6)) {
                unsigned const k = rep ? STRANGER : s.draw(2) || w.empty() ? STRANGER : w[s.draw((uint32_t)w.size())];
                w.insert(w.begin() + s.draw((uint32_t)w.size() + 1), k);
            }
            bool const f0 = fault;
            if (cb) {
                Val h = Val::arr(); std::string t; h.a.resize(w.size()); // the head with any width
                if (w.size() > nf + nk + c.never.size()) { if (!fault) s.fault("more members than there are"); fault = true; }
                unsigned const width = var && s.chance(1, 4) ? s.draw(5) : 0; size_t const n = w.size();
                if (!width && n < 24) d += (char)(0xA0 | n);
                else { unsigned const b = width ? width : 1; d += (char)(0xA0 | (23 + b)); for (int k = (1 << (b - 1)) - 1; k >= 0; --k) d += (char)((uint64_t)n >> (8 * k > 63 ? 63 : 8 * k)); }
            }
            else { if (!(depth == 0 && (o.flags & BARE))) d += '{'; ws(d); }
            std::vector<unsigned> seen;
            for (size_t i = 0; i != w.size(); ++i) {
                if (i && !cb) { if (t.sep == ' ') ws(d, true); else { ws(d); d += t.sep; ws(d); } }
                unsigned const k = w[i]; Val scratch; bool const before = fault;
                if (k == STRANGER) {
                    std::string const n = stranger(c); key(d, n); div(d); if (!fault) { fault = true; s.fault("unknown member"); }
                    put(d, any(s.draw(3)));
                    continue;
                }
                bool again = false; for (unsigned j : seen) if (j == k) again = true;
                seen.push_back(k);
                if (again && (!rep || cb)) { if (!fault) s.fault("repeated member"); fault = true; }
                if (k >= nf) { key(d, c.skip[k - nf]); div(d); skipped(d); continue; }
                key(d, c.f[k].name); div(d); if (depth == 0) told.push_back(c.f[k].name);
                if (fault) { scratch = m.a[2 * k + 1]; bool const was = faults; faults = false; value(d, c.f[k], scratch, depth); faults = was; }
                else value(d, c.f[k], m.a[2 * k + 1], depth);
                (void)before;
            }
            (void)f0;
            if (!cb) { ws(d); if (o.style && t.trailing && t.sep != ' ' && !w.empty() && s.chance(1, 4)) { d += t.sep; ws(d); } if (!(depth == 0 && (o.flags & BARE))) d += '}'; }
        }
    };
    const std::vector<Op*>& all() { static const std::vector<Op*> v = [] { std::vector<Op*> r = zoo::select(zoo::RECORD, 0); return r.empty() ? zoo::select(0, 0) : r; }(); return v; }
    // maps are compared sorted
    void sort_maps(Val& v, bool root = true) {
        for (auto& e : v.a) sort_maps(e, false);
        if (v.k == Val::MAP && !root) for (size_t i = 0; i < v.a.size(); i += 2) for (size_t j = i + 2; j < v.a.size(); j += 2) if (sim::less(v.a[j], v.a[i])) { std::swap(v.a[i], v.a[j]); std::swap(v.a[i + 1], v.a[j + 1]); }
    }
    const Val* member(const Val& r, const std::string& n) { for (size_t i = 0; i < r.a.size(); i += 2) if (r.a[i].s == n) return &r.a[i + 1]; return nullptr; }
    // space between tokens is not part of what was captured
    std::string tight(const std::string& t) { std::string r; bool q = false; for (size_t i = 0; i != t.size(); ++i) { if (t[i] == '\\' && i + 1 != t.size()) { r += t[i++]; r += t[i]; continue; } if (t[i] == '"') q = !q; if (q || !strchr(" \n\t\r", t[i]) || !t[i]) r += t[i]; } return r; }
    bool same_(const Val& a, const Val& b) { Val x = a, y = b; sort_maps(x, false); sort_maps(y, false); return x == y; }
    void compare(const Op& o, const std::string& cls, const Val& want, const Val& got, const std::string& doc, const char* when) {
        for (size_t i = 0; i < want.a.size(); i += 2) {
            const Val* g = member(got, want.a[i].s);
            if (!g || !same_(want.a[i + 1], *g))
                bad(cls + ": " + id(o), "member \"%s\" is %s instead of %s %s: %s", want.a[i].s.c_str(), g ? show(*g).c_str() : "absent", show(want.a[i + 1]).c_str(), when, hex(doc).c_str());
        }
    }
}

SIM_ENGINE(P18, peers, 4) {
    const Op& o = zoo::pick(s, all()); const Schema& c = schema(o.type);
    Obj a(o); zoo::gen_fmt = !o.style ? o.f : o.style->keys == sim::TextOpt::RAW ? F_CXCF : F_JSON; if (s.draw(2)) o.gen(s, a.p);
    Val model = o.to(a.p);
    if (!strcmp(c.type, "Raw")) for (size_t i = 0; i < model.a.size(); i += 2) if (model.a[i].s == "raw") model.a[i + 1].k = Val::STR;
    unsigned n = 1 + s.draw(3); std::vector<Src> ss = zoo::sources(o); std::vector<Src> strict; for (Src k : ss) if (k != LPTR) strict.push_back(k);
    s.nontrivial = true;
    for (unsigned i = 0; i != n; ++i) {
        Doc d(s, o, s.draw(4) ? 1 : 0, s.chance(1, 3)); std::string b; Val next = model;
        d.record(b, c, next, 0);
        Src const k = s.pick(strict);
        bool cut = false; std::string sent = b;
        if (!d.fault && !(o.flags & BARE) && s.chance(1, 8)) { sent.resize(s.draw((uint32_t)b.size())); cut = true; s.fault("cut"); }
        else if (!d.fault && !(o.flags & BARE) && s.chance(1, 6)) sent += s.draw(2) ? " " : "1"; // the next message
        s.ev("%s from %s%s%s: %s", id(o).c_str(), zoo::name(k), d.fault ? " (fault)" : "", cut ? " (cut)" : "", hex(sent).c_str()); s.mix(sent.data(), sent.size());
        s.sample(fmt("%s: %s", id(o).c_str(), hex(sent).c_str()));
        ReadRes const r = read(o, k, a, sent); s.check();
        Val got = o.to(a.p); 
        if (!strcmp(c.type, "Raw")) for (size_t j = 0; j < got.a.size(); j += 2) if (got.a[j].s == "raw") { got.a[j + 1].k = Val::STR; if (o.f == F_JSON) got.a[j + 1].s = tight(got.a[j + 1].s); }
        if (!d.known.empty()) { // recorded as it is
            if (!r.ok) { note(d.known, "%s: %s", show(r).c_str(), hex(sent).c_str()); return; }
            return;
        }
        if (cut) {
            if (r.ok) bad("cut record accepted: " + id(o), "%s", hex(sent).c_str());
            for (size_t j = 0; j < model.a.size(); j += 2) {
                bool told = false; for (auto& t : d.told) if (t == model.a[j].s) told = true;
                if (told) continue;
                if (!same_(model.a[j + 1], *member(got, model.a[j].s))) bad("member changed that was not sent: " + id(o), "\"%s\" became %s by %s", model.a[j].s.c_str(), show(*member(got, model.a[j].s)).c_str(), hex(sent).c_str());
            }
            return;
        }
        if (d.fault) {
            if (r.ok) bad("unknown or repeated member accepted: " + id(o), "%s", hex(sent).c_str());
            compare(o, "members before the fault", next, got, sent, "after the error");
            return;
        }
        if (!r.ok) bad("record refused: " + id(o), "%s: %s", show(r).c_str(), hex(sent).c_str());
        if (!(o.flags & BARE) && (size_t)r.end != b.size()) bad("record not read to its end: " + id(o), "%s of %zu: %s", show(r).c_str(), b.size(), hex(sent).c_str());
        compare(o, "members", next, got, sent, "after the record");
        std::string const st = show(got, 4000); s.state(hash_bytes(st.data(), st.size()));
        model = next;
        if (s.chance(1, 4) && strcmp(c.type, "Raw")) { // as the library sends it
            WriteRes const w = write(o, a); s.check();
            if (!w.ok) bad("record not written: " + id(o), "error %d", w.ec);
            Obj x(o); ReadRes const q = read(o, s.pick(strict), x, w.bytes); s.check();
            if (!q.ok) bad("own record refused: " + id(o), "%s: %s", show(q).c_str(), hex(w.bytes).c_str());
            compare(o, "own record", model, o.to(x.p), w.bytes, "after the way back");
        }
    }
}
