// P01: input that ends early
#include "eng.hxx"
using namespace eng;

static const std::vector<Op*>& all() { static const std::vector<Op*> v = zoo::select(0, 0); return v; }

// a complete document of some type
static std::string document(Sim& s, const Op& o, Obj& a) {
    s.context("gen %s", id(o).c_str());
    o.gen(s, a.p);
    if (!(o.flags & NOVARIETY) && s.chance(1, 2)) return ref_encode(s, o, o.to(a.p), s.draw(o.tags() + 1) | o.ef());
    WriteRes const w = write(o, a); s.check();
    if (!w.ok) bad("not written: " + id(o), "%s: error %d %s", id(o).c_str(), w.ec, w.what.c_str());
    return w.bytes;
}
static void inside(const Op& o, Src k, const std::string& doc, const ReadRes& r) {
    if (r.threw) bad("throws: " + id(o), "%s from %s: %s: %s", id(o).c_str(), zoo::name(k), hex(doc).c_str(), show(r).c_str());
    if (r.end < 0 || (size_t)r.end > doc.size()) bad("end outside the input: " + id(o), "%s from %s: %s: %s", id(o).c_str(), zoo::name(k), hex(doc).c_str(), show(r).c_str());
}
static void one(Sim& s, const Op& o, Src k, const std::string& doc) {
    Parse const p = ref_parse(o, doc);
    if (untold(o, doc)) return;
    Obj b(o); ReadRes const r = read(o, k, b, doc); s.check();
    inside(o, k, doc, r);
    s.state(hash_bytes(doc.data(), doc.size(), hash_bytes(o.type, strlen(o.type), k)));
    if (p.r == Parse::OK || (o.flags & BARE && ref_parse(o, doc + "*/").r == Parse::OK)) { // a comment may be left open at the end
         s.probe("the part is itself complete"); return; }
    if (k == LPTR && (o.flags & NUMERIC)) return;   // the default traits read a number's longest good start
    if (r.ok && !vague(o, doc)) bad("incomplete input read as a value: " + id(o), "%s from %s: %s: ends at %ld", id(o).c_str(), zoo::name(k), hex(doc).c_str(), r.end);
}

SIM_ENGINE(P01, cut, 3) {
    const Op& o = zoo::pick(s, all());
    Obj a(o); std::string const doc = document(s, o, a); size_t const n = doc.size();
    s.ev("%s %s", id(o).c_str(), hex(doc).c_str()); s.mix(doc.data(), n);
    std::vector<Src> const ss = zoo::sources(o); Src const k = s.pick(ss);
    s.nontrivial = n > 1; s.sample(fmt("%s (%s) %s", id(o).c_str(), zoo::name(k), hex(doc).c_str()));
    if (n <= 24 || (n <= 400 && s.chance(1, 16))) {
        for (size_t c = 0; c != n; ++c) { s.fault("input ends early"); one(s, o, k, doc.substr(0, c)); }
    }
    else for (unsigned i = 0; i != 6; ++i) { size_t const c = i == 0 ? n - 1 : s.draw((uint32_t)n); s.fault("input ends early"); one(s, o, k, doc.substr(0, c)); }
}

// whatever the bytes are, nothing behind them is looked at
SIM_ENGINE(P01, damage, 2) {
    const Op& o = zoo::pick(s, all());
    Obj a(o); std::string doc = document(s, o, a);
    std::string const d = sim::damage(s, doc, o.f, 1 + s.draw(3));
    if (untold(o, doc)) return;
    s.ev("%s%s: %s", id(o).c_str(), d.c_str(), hex(doc).c_str()); s.mix(doc.data(), doc.size());
    s.nontrivial = doc.size() > 1; s.sample(fmt("%s%s: %s", id(o).c_str(), d.c_str(), hex(doc).c_str()));
    std::vector<Src> const ss = zoo::sources(o); 
    for (unsigned i = 0; i != 4; ++i) {
        Src const k = s.pick(ss); std::string const part = i == 0 ? doc : doc.substr(0, s.draw((uint32_t)doc.size() + 1));
        Obj b(o); ReadRes const r = read(o, k, b, part); s.check();
        inside(o, k, part, r);
        s.state(hash_bytes(part.data(), part.size(), hash_bytes(o.type, strlen(o.type), k)));
    }
}
