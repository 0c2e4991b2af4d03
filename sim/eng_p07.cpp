// P07: CBOR is accepted exactly where RFC 7049 says so
#include "nodecmp.hxx"
using namespace eng;

static const std::vector<Op*>& all() { static const std::vector<Op*> v = [] { std::vector<Op*> v = zoo::select(NODE, 0, F_CBOR), w; for (Op* o : v) if (!strncmp(o->type, "cbor::", 6)) w.push_back(o); return w; }(); return v; }
static void run(Sim& s, const Op& o, const std::string& doc, const std::string& how) {
    s.ev("%s%s: %s", id(o).c_str(), how.c_str(), hex(doc).c_str()); s.mix(doc.data(), doc.size());
    s.nontrivial = doc.size() > 1; s.sample(fmt("%s%s: %s", id(o).c_str(), how.c_str(), hex(doc).c_str()));
    std::vector<Src> ss = zoo::sources(o);
    nodecmp::check(s, o, s.pick(ss), doc);
}
SIM_ENGINE(P07, corruption, 3) {
    const Op& o = zoo::pick(s, all());
    Obj a(o); o.gen(s, a.p); std::string doc, how;
    if (s.draw(2)) { doc = write(o, a).bytes; s.check(); } else doc = ref_encode(s, o, o.to(a.p), s.draw(3));
    unsigned const n = s.draw(4); if (n) how = sim::damage(s, doc, o.f, n);
    run(s, o, doc, how);
}
// data items, right and almost right: every initial byte
static void item(Sim& s, std::string& t, unsigned depth) {
    unsigned const mt = s.draw(8);
    unsigned mn = s.draw(4) ? s.draw(24) : 24 + s.draw(8);
    if ((mt == 4 || mt == 5) && mn < 24) mn %= 4;
    if ((mt == 2 || mt == 3) && mn < 24) mn %= 8;
    if (mt >= 4 && mt <= 6 && !depth) { t += (char)s.draw(24); return; }
    t += (char)(mt << 5 | mn);
    uint64_t u = mn; 
    if (mn >= 24 && mn < 28) {
        unsigned const w = 1u << (mn - 24);
        if (mt == 7 || mt == 0 || mt == 1 || mt == 6) u = s.draw(2) ? s.bits(64) : s.draw(2) ? s.draw(64) : ~0ull - s.draw(2);
        else u = s.chance(1, 12) ? s.bits(64) : s.draw(4);
        if (w < 8) u &= (1ull << (8 * w)) - 1;
        for (unsigned k = w; k--; ) t += (char)(u >> (8 * k));
    }
    if (mn >= 28 && mn < 31) return;
    bool const brk = !s.chance(1, 24);
    switch (mt) {
        case 2: case 3:
            if (mn == 31) { unsigned n = s.draw(4); while (n--) { unsigned const k = s.draw(5); t += (char)((s.chance(1, 24) ? s.draw(8) : mt) << 5 | (s.chance(1, 24) ? 31 : k)); for (unsigned i = 0; i != k; ++i) t += (char)s.draw(256); } if (brk) t += '\xFF'; }
            else { if (u > 64) u = s.draw(64); for (uint64_t i = 0; i != u; ++i) t += (char)(mt == 3 ? 'a' + s.draw(26) : s.draw(256)); }
            break;
        case 4: case 5:
            if (u > 8 || mn == 31) u = s.draw(4);
            if (mt == 5) u *= 2;
            if (mn == 31 && mt == 5 && s.chance(1, 24)) ++u;
            while (u--) item(s, t, depth - 1);
            if (mn == 31 && brk) t += '\xFF';
            break;
        case 6: if (mn != 31) item(s, t, depth - 1); break;
    }
}
SIM_ENGINE(P07, grammar, 3) {
    const Op& o = zoo::pick(s, all());
    std::string doc; item(s, doc, s.draw(5)); s.fault("document off the grammar");
    if (s.chance(1, 6) && !doc.empty()) { doc.resize(s.draw(doc.size())); s.fault("truncation"); }
    run(s, o, doc, "");
}
