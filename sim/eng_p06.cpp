// P06: JSON is accepted exactly where RFC 8259 says so
#include "nodecmp.hxx"
using namespace eng;

static const std::vector<Op*>& all() { static const std::vector<Op*> v = [] { std::vector<Op*> v = zoo::select(NODE, 0, F_JSON), w = zoo::select(NODE, 0, F_JSTR); v.insert(v.end(), w.begin(), w.end()); return v; }(); return v; }
static void run(Sim& s, const Op& o, const std::string& doc, const std::string& how) {
    s.ev("%s%s: %s", id(o).c_str(), how.c_str(), hex(doc).c_str()); s.mix(doc.data(), doc.size());
    s.nontrivial = doc.size() > 1; s.sample(fmt("%s%s: %s", id(o).c_str(), how.c_str(), hex(doc).c_str()));
    std::vector<Src> ss = zoo::sources(o);
    nodecmp::check(s, o, s.pick(ss), doc);
}
static std::string document(Sim& s, const Op& o) {
    Obj a(o); o.gen(s, a.p);
    if (s.draw(2)) { WriteRes const w = write(o, a); s.check(); return w.bytes; }
    return ref_encode(s, o, o.to(a.p), s.draw(2));
}

SIM_ENGINE(P06, corruption, 4) {
    const Op& o = zoo::pick(s, all());
    std::string doc = document(s, o);
    unsigned const n = s.draw(4); std::string how; if (n) how = sim::damage(s, doc, o.f, n);
    run(s, o, doc, how);
}

// numbers, strings and literals, right and almost right
static std::string number(Sim& s) {
    std::string t; unsigned n;
    if (s.chance(1, 3)) t += '-';
    n = s.draw(4) ? 1 + s.draw(3) : 1 + s.draw(22); if (s.chance(1, 3)) t += '0'; else while (n--) t += (char)('0' + s.draw(10));
    if (s.chance(1, 8)) t += s.draw(2) ? "18446744073709551615" : "9223372036854775808";
    if (s.chance(1, 2)) { t += '.'; n = s.draw(8) ? s.draw(4) : s.draw(24); while (n--) t += (char)('0' + s.draw(10)); }
    if (s.chance(1, 2)) { t += s.draw(2) ? 'e' : 'E'; unsigned const g = s.draw(3); if (g) t += g == 1 ? '+' : '-'; n = s.draw(8) ? s.draw(3) : s.draw(5); while (n--) t += (char)('0' + s.draw(10)); }
    if (s.chance(1, 6)) t.insert(s.draw((uint64_t)t.size() + 1), 1, "0+-.eE19 x"[s.draw(10)]);
    return t;
}
static std::string string(Sim& s) {
    std::string t = "\""; unsigned n = s.draw(4) ? s.draw(4) : s.draw(24);
    while (n--) switch (s.draw(8)) {
        case 0: utf8_put(t, (uint32_t)(s.draw(4) ? 0x80 + s.draw(0x780) : 0x800 + s.draw(0x10F800))); break; // surrogates too
        case 1: { static const unsigned char b[] = { 0x80, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xED, 0xEF, 0xF0, 0xF4, 0xF5, 0xFF, 0x9F, 0xA0, 0x90, 0x8F, 0x1F, 0x00, 0x7F }; unsigned m = 1 + s.draw(4); while (m--) t += (char)b[s.draw(sizeof(b))]; break; }
        case 2: t += '\\'; t += "\"\\/bfnrtu'0xa :="[s.draw(16)]; break;
        case 3: { static const unsigned u[] = { 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xD7FF, 0xE000, 0xFFFF, 0, 0x1F, 0x80, 0x7FF, 0x800 }; t += fmt(s.draw(2) ? "\\u%04x" : "\\u%04X", s.draw(3) ? u[s.draw(12)] : (unsigned)s.draw(0x10000)); break; }
        case 4: t += fmt("\\u%04x\\u%04x", 0xD800 + (unsigned)s.draw(0x400), 0xDC00 + (unsigned)s.draw(0x410)); break;
        case 5: t += (char)s.draw(0x20); break;
        default: t += (char)(0x20 + s.draw(0x60)); break;
    }
    if (!s.chance(1, 12)) t += '"';
    return t;
}
static void tokens(Sim& s, std::string& t, unsigned depth) {
    auto ws = [&] { if (s.chance(1, 6)) t += " \t\n\r\v\f/"[s.draw(s.chance(1, 8) ? 7 : 4)]; };
    ws();
    switch (s.draw(depth ? 8 : 5)) {
        case 0: t += number(s); break;
        case 1: t += string(s); break;
        case 2: { static const char* const l[] = { "true", "false", "null", "True", "nul", "tru", "fals", "nulll", "inf", "NaN", "Infinity", "undefined", "'x'" }; t += l[s.draw(s.chance(1, 4) ? 13 : 3)]; break; }
        case 3: t += number(s); break;
        case 4: t += string(s); break;
        case 5: case 6: { t += '['; unsigned n = s.draw(4); while (n--) { tokens(s, t, depth - 1); ws(); if (n && !s.chance(1, 24)) t += ','; if (s.chance(1, 48)) t += ','; } ws(); if (!s.chance(1, 24)) t += ']'; break; }
        default: { t += '{'; unsigned n = s.draw(4); while (n--) { ws(); if (s.chance(1, 24)) tokens(s, t, 0); else t += string(s); ws(); if (!s.chance(1, 24)) t += ':'; tokens(s, t, depth - 1); ws(); if (n && !s.chance(1, 24)) t += ','; if (s.chance(1, 48)) t += ','; } ws(); if (!s.chance(1, 24)) t += '}'; break; }
    }
}
SIM_ENGINE(P06, grammar, 3) {
    const Op& o = zoo::pick(s, all());
    std::string doc; tokens(s, doc, s.draw(4)); s.fault("document off the grammar");
    if (s.chance(1, 4)) doc += s.draw(2) ? " " : number(s);
    run(s, o, doc, "");
}
