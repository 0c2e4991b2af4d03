// P20: what does not fit a target of fixed capacity or a limit of a token is an error, what fits is read completely
#include "eng.hxx"
#include "cap.hxx"
#include <cerrno>
using namespace eng; using cap::Cap; using cap::Res; using cap::Way;

static void put(std::string& o, uint32_t c) {
    if (c < 0x80) o += (char)c;
    else if (c < 0x800) o += (char)(0xC0 | c >> 6), o += (char)(0x80 | (c & 0x3F));
    else if (c < 0x10000) o += (char)(0xE0 | c >> 12), o += (char)(0x80 | (c >> 6 & 0x3F)), o += (char)(0x80 | (c & 0x3F));
    else o += (char)(0xF0 | c >> 18), o += (char)(0x80 | (c >> 12 & 0x3F)), o += (char)(0x80 | (c >> 6 & 0x3F)), o += (char)(0x80 | (c & 0x3F));
}
static unsigned width(uint32_t c, unsigned unit) { return unit == 1 ? c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4 : unit == 2 ? c < 0x10000 ? 1 : 2 : 1; }
// text of n units; `raw` is what the units are in memory
static std::string text(Sim& s, unsigned n, unsigned unit, std::string& raw) {
    std::string o;
    while (n) {
        uint32_t c;
        do switch (s.draw(6)) {
            case 0: c = 0x80 + s.draw(0x700); break;
            case 1: c = 0xE000 + s.draw(0x1F00); break;
            case 2: c = 0x10000 + s.draw(0x100000); break;
            case 3: c = "\"\\/\n\t{}[]:,"[s.draw(11)]; break;
            default: c = 'a' + s.draw(26); break;
        } while (width(c, unit) > n);
        n -= width(c, unit); put(o, c);
        if (unit == 2) { if (c < 0x10000) { char16_t u = (char16_t)c; raw.append((char*)&u, 2); } else { char16_t u[2] = { (char16_t)(0xD7C0 + (c >> 10)), (char16_t)(0xDC00 | (c & 0x3FF)) }; raw.append((char*)u, 4); } }
        if (unit == 4) { char32_t u = c; raw.append((char*)&u, 4); }
    }
    if (unit == 1) raw = o;
    return o;
}
static const Cap& pick(Sim& s) { static std::vector<const Cap*> v; if (v.empty()) for (Cap* c = cap::caps; c; c = c->next) v.push_back(c); return *v[s.draw((uint32_t)v.size())]; }
static unsigned around(Sim& s, unsigned n) {
    switch (s.draw(10)) {
        case 0: return s.draw(n + 1);
        case 1: return n + 1 + s.draw(80);
        case 2: case 3: return n ? n - 1 : 0;
        case 4: case 5: return n;
        case 6: case 7: case 8: return n + 1;
        default: return n + 2 + s.draw(3);
    }
}
static Val number(Sim& s, bool byte) { return byte ? Val::uint(s.draw(256)) : Val::sint((int)(s.chance(1, 2) ? s.draw(20) : (uint32_t)s.draw(~0u))); }
static const char* outcome(const Res& r) { return r.r.ok ? "accepted" : r.r.threw ? "exception" : "error"; }

static std::string desc(const Cap& c) { return std::string(sim::name(c.f)) + " " + c.type; }

SIM_ENGINE(P20, fixed, 3) {
    const Cap& c = pick(s); unsigned const n = around(s, c.n); std::string const who = desc(c); s.context("%s n %u", who.c_str(), n);
    Val want = Val::arr(), doc; std::string raw; unsigned fl = 0;
    switch (c.shape) {
        case cap::INTS: case cap::BYTES: case cap::TUPLE: for (unsigned i = 0; i != n; ++i) want.a.push_back(number(s, c.shape == cap::BYTES)); doc = want; break;
        case cap::STRS: for (unsigned i = 0; i != n; ++i) { std::string r; want.a.push_back(Val::str(text(s, s.draw(30), 1, r))); } doc = want; break;
        case cap::LISTS: for (unsigned i = 0; i != n; ++i) { Val v = Val::arr(); for (unsigned k = s.draw(5); k; --k) v.a.push_back(number(s, false)); want.a.push_back(v); } doc = want; break;
        case cap::TEXT: doc = Val::str(text(s, n, c.unit, raw));
            if (c.f == F_CBOR && c.unit != 1) { // arrays of units
                doc = Val::arr(); for (size_t i = 0; i != raw.size(); i += c.unit) { uint32_t u = 0; memcpy(&u, raw.data() + i, c.unit); doc.a.push_back(Val::uint(u)); }
            }
            break;
        case cap::BITS: for (unsigned i = 0; i != n; ++i) raw += s.chance(1, 2) ? '1' : '0';
            if (c.f == F_CBOR) {
                unsigned const m = (n + 7) / 8; std::string b(1, (char)(m * 8 - n)), p(m * 8 - n, '0'); p += raw;
                for (unsigned i = 0; i != m; ++i) { int x = 0; for (int k = 0; k != 8; ++k) x = x * 2 + (p[i * 8 + k] - '0'); b += (char)x; }
                doc = Val::bytes(b);
            } else doc = Val::str(raw);
            break;
    }
    if (c.shape == cap::BYTES && c.f == F_CBOR && s.chance(1, 2)) { std::string b; for (auto& e : want.a) b += (char)e.u; doc = Val::bytes(b); }
    if (c.shape == cap::TUPLE || c.shape == cap::BITS) fl |= sim::NO_INDEF | sim::PLAIN;
    std::string bytes = sim::encode(s, doc, c.f, s.draw(2) | fl); size_t const end = bytes.size(); 
    bool const exact = c.shape == cap::TUPLE || c.shape == cap::BITS, fits = exact ? n == c.n : n <= c.n;
    if (c.f != F_CBOR) bytes += "\n";
    s.state(sim::hash_bytes(who.data(), who.size()) * 64 + (n < c.n ? 0 : n == c.n ? 1 : n == c.n + 1 ? 2 : 3));
    (void)end; s.fault(fits ? "fits" : exact && n < c.n ? "too short" : "too long");
    s.nontrivial = true; s.sample(fmt("%s, %u of %u: %s", who.c_str(), n, c.n, hex(bytes, 60).c_str()));
    for (int w = 0; w != cap::WAYS; ++w) {
        sim::Source src(bytes);
        S->step_limit = S->steps_ + 4000000; Res const r = c.read((Way)w, src); s.check();
        s.ev("%s %s n=%u: %s", who.c_str(), cap::name((Way)w), n, outcome(r));
        if (!r.guard) bad("written past the target: " + who, "%s n=%u %s", cap::name((Way)w), n, hex(bytes).c_str());
        if (r.r.threw) bad("exception: " + who, "%s n=%u %s: %s", cap::name((Way)w), n, hex(bytes).c_str(), r.r.what.c_str());
        if (r.r.ok != fits) bad(std::string(fits ? "not accepted although it fits: " : "accepted although it does not fit: ") + who, "%s n=%u of %u %s: %s", cap::name((Way)w), n, c.n, hex(bytes).c_str(), r.r.what.c_str());
        if (!fits) continue;
        if (c.shape == cap::BITS || c.shape == cap::TEXT) {
            if (r.text.compare(0, raw.size(), raw) != 0) bad("other content: " + who, "%s n=%u %s: %s", cap::name((Way)w), n, hex(bytes).c_str(), hex(r.text).c_str());
            if (c.shape == cap::TEXT && n < c.n && std::string(c.unit, 0) != r.text.substr(raw.size(), c.unit)) bad("no terminator: " + who, "%s n=%u %s: %s", cap::name((Way)w), n, hex(bytes).c_str(), hex(r.text).c_str());
            continue;
        }
        if (r.v.a.size() < n || (c.grows && r.v.a.size() != n)) bad("other size: " + who, "%s n=%u %s: %zu", cap::name((Way)w), n, hex(bytes).c_str(), r.v.a.size());
        for (unsigned i = 0; i != n; ++i) if (r.v.a[i] != want.a[i]) bad("other content: " + who, "%s n=%u %s: item %u is %s", cap::name((Way)w), n, hex(bytes).c_str(), i, sim::show(r.v.a[i]).c_str());
    }
}

// ---- tokens ----
using cap::Token;
static std::string digits(Sim& s, unsigned n) { std::string o; while (n--) o += (char)('0' + s.draw(10)); return o; }
// a number that is to be held by what it is read into
static std::string lexeme(Sim& s, Token t, unsigned n) {
    std::string o; if (n > 1 && s.chance(1, 4)) o = "-", --n;
    if (t == cap::T_INT || t == cap::T_LONG || t == cap::T_NODE) {
        unsigned const m = t == cap::T_INT ? 9 : 18; if (n > m) n = m;
        if (n == 1) return o + digits(s, 1);
        return o + (char)('1' + s.draw(9)) + digits(s, n - 1);
    }
    if (n < 3) return o + (n == 1 ? digits(s, 1) : (char)('1' + s.draw(9)) + digits(s, 1));
    switch (s.draw(4)) {
        case 0: if (n < 300) return o + (char)('1' + s.draw(9)) + digits(s, n - 1); break;      // more digits than an integer has
        case 1: if (n > 4) { unsigned const e = s.draw(40); std::string x = "eE"[s.draw(2)] + std::string(s.chance(1, 2) ? "-" : "") + std::to_string(e); if (x.size() + 3 < n) return o + (char)('1' + s.draw(9)) + '.' + digits(s, n - 2 - (unsigned)x.size()) + x; } break;
        case 2: if (n > 4) return o + digits(s, 1) + "e" + std::string(n - 4, '0') + digits(s, 2); break;
        default: break;
    }
    unsigned const i = s.draw(3) ? 1 : 1 + s.draw(n - 2);
    return o + (i == 1 ? digits(s, 1) : (char)('1' + s.draw(9)) + digits(s, i - 1)) + '.' + digits(s, n - i - 1);
}
SIM_ENGINE(P20, token, 2) {
    static const Fmt fs[] = { F_JSON, F_JSON, F_CXCF, F_CBOR };
    Fmt const f = fs[s.draw(4)]; Token const t = f == F_CBOR ? cap::T_MEMBER : (Token)s.draw(cap::TOKENS); unsigned const l = s.draw(cap::LIMITS);
    bool const num = t < cap::T_MEMBER; unsigned const L = cap::limits[l] ? cap::limits[l] : num && (t == cap::T_INT || t == cap::T_LONG) ? 32 : 64;
    std::string const who = std::string(sim::name(f)) + " " + cap::name(t); s.context("%s limit %u", who.c_str(), L);
    std::string tok, bytes; int known = -1, value = 0;
    if (num) {
        unsigned const n = around(s, L); tok = lexeme(s, t, n ? n : 1); bytes = tok + "\n";
    }
    else {
        unsigned const k = s.draw(cap::LENGTHS); tok = cap::names[k];
        switch (s.draw(6)) {                                        // what is cut to the limit may be the name of another
            case 0: tok += std::string(1 + s.draw(3), 'a' + s.draw(26)); break;
            case 1: { unsigned const n = around(s, L); if (tok.size() > n) tok.resize(n); else tok.append(n - tok.size(), "xyz"[s.draw(3)]); break; }
            default: break;
        }
        for (int i = 0; i != cap::LENGTHS; ++i) if (tok == cap::names[i]) known = i;
        value = (int)s.draw(1000);
        if (t == cap::T_MEMBER) bytes = sim::encode(s, Val::map().add(Val::str(tok), Val::sint(value)), f, s.draw(2) | sim::NO_INDEF_MAP);
        else bytes = sim::encode(s, Val::str(tok), f, s.draw(2));
        if (f != F_CBOR) bytes += "\n";
    }
    s.state(sim::hash_bytes(who.data(), who.size()) * 1024 + l * 8 + (tok.size() < L - 1 ? 0 : tok.size() == L - 1 ? 1 : tok.size() == L ? 2 : 3));
    s.nontrivial = true; s.sample(fmt("%s, limit %u, length %zu: %s", who.c_str(), L, tok.size(), hex(bytes, 60).c_str()));
    s.fault(tok.size() < L ? "token within the limit" : "token beyond the limit");
    for (int w = 0; w != cap::WAYS; ++w) {
        sim::Source src(bytes); S->step_limit = S->steps_ + 4000000; Res const r = cap::token(f, t, l, (Way)w, src); s.check();
        s.ev("%s %s limit=%u length=%zu: %s", who.c_str(), cap::name((Way)w), L, tok.size(), outcome(r));
        if (r.r.threw) bad("exception: " + who, "%s limit %u %s: %s", cap::name((Way)w), L, hex(bytes).c_str(), r.r.what.c_str());
        // pointers need no buffer for numbers, nodes only one for what is not integral or cannot be read twice
        errno = 0; bool integral = tok.find_first_not_of("-0123456789") == std::string::npos; uint64_t const u = tok[0] == '-' ? (uint64_t)strtoll(tok.c_str(), nullptr, 10) : strtoull(tok.c_str(), nullptr, 10); integral = integral && !errno;
        bool const free = num && (w == cap::PTR || (w == cap::RA && integral && t >= cap::T_NODE));
        if (t >= cap::T_NODE && t != cap::T_MEMBER && tok.size() == L && !free) continue; // the last place may be for a terminator
        bool const fits = free || tok.size() < L, want = fits && (num || known >= 0);
        if (r.r.ok != want) bad(std::string(want ? "not accepted: " : "accepted: ") + who, "%s limit %u length %zu %s: %s", cap::name((Way)w), L, tok.size(), hex(bytes).c_str(), r.r.what.c_str());
        if (!want) continue;
        Val v = num ? Val::undef() : Val::sint(known);
        if (t == cap::T_MEMBER) { v = Val::arr(); for (int i = 0; i != cap::LENGTHS; ++i) v.a.push_back(Val::sint(i == known ? value : -1)); }
        if (num) {
            bool ok;
            if (r.v.k == Val::INT) ok = integral && r.v.b == (u && tok[0] == '-') && (r.v.b ? ~r.v.u : r.v.u) == u;
            else ok = r.v.k == Val::REAL && (double)r.v.d == strtod(tok.c_str(), nullptr);
            if (!ok) bad("other number: " + who, "%s limit %u %s: %s", cap::name((Way)w), L, tok.c_str(), sim::show(r.v).c_str());
        }
        else if (r.v != v) bad("other result: " + who, "%s limit %u %s: %s", cap::name((Way)w), L, hex(bytes).c_str(), sim::show(r.v).c_str());
    }
}
