// P14: a damaged or hostile length never makes a reader allocate out of proportion
#include "eng.hxx"
using namespace eng;

static const std::vector<Op*>& cbor() { static const std::vector<Op*> v = zoo::select(0, 0, F_CBOR); return v; }
static const std::vector<Op*>& all() { static const std::vector<Op*> v = zoo::select(0, 0); return v; }

// a header that claims
static std::string head(Sim& s, unsigned mt, uint64_t left) {
    unsigned const w = 1u << s.draw(4); uint64_t u;
    switch (s.draw(6)) {
        case 0: u = s.bits(8 * w); break;
        case 1: u = ~0ull >> s.draw(40); break;
        case 2: u = 1ull << s.draw(64); break;
        case 3: u = left + s.draw(4); break;
        case 4: u = (1ull << 20) + s.bits(30); break;
        default: u = (~0ull / (1 + s.draw(64))) - s.draw(3); break;
    }
    if (w < 8) u &= (1ull << (8 * w)) - 1;
    std::string t; t += (char)(mt << 5 | (24 + (w == 1 ? 0 : w == 2 ? 1 : w == 4 ? 2 : 3)));
    for (unsigned k = w; k--; ) t += (char)(u >> (8 * k));
    return t;
}
static void one(Sim& s, const Op& o, Src k, const std::string& doc) {
    s.state(hash_bytes(doc.data(), doc.size(), hash_bytes(o.type, strlen(o.type), k)));
    // memory runs out long before a real machine's would
    // a reader may reserve one element per byte that follows (256 elements when it cannot know); nodes do so at each of at most 64 levels
    uint64_t const bound = o.flags & NODE ? 64 * 1024 + 64 * 128ull * std::max<uint64_t>(doc.size(), k == RA || k == PTR || k == LPTR || k == STR ? 0 : std::min<size_t>(doc.size(), 64) * 256 / 64) + 1024ull * doc.size() : 24 * 1024 + 1024ull * doc.size();
    uint64_t peak, total, acc; ReadRes r;
    {
        Obj b(o); Source src(doc);
        heap::begin(); heap::limit(256 << 20);
        r = read(o, k, b, src);
        heap::Stats const st = heap::stats(); heap::end(); peak = st.peak_bytes; total = st.total_bytes; acc = src.accesses;
        if (st.failed) s.fault("allocation refused");
    }
    s.check();
    auto const where = [&] { return id(o) + " from " + zoo::name(k) + ": " + hex(doc); };
    if (r.threw) bad("throws: " + id(o), "%s: %s (peak %llu bytes)", where().c_str(), show(r).c_str(), (unsigned long long)peak);
    if (peak > bound) bad("allocates: " + id(o), "%s: %s, %llu bytes are allocated at a time for %zu bytes of input", where().c_str(), show(r).c_str(), (unsigned long long)peak, doc.size());
    if (total > 16 * bound) bad("allocates in total: " + id(o), "%s: %s, %llu bytes are allocated in total for %zu bytes of input", where().c_str(), show(r).c_str(), (unsigned long long)total, doc.size());
    if (acc > 4096 + 64 * doc.size() + (k == FWD ? 2 * doc.size() * doc.size() : 0)) bad("reads on: " + id(o), "%s: %s, %llu accesses", where().c_str(), show(r).c_str(), (unsigned long long)acc);
    if (r.end < 0 || (size_t)r.end > doc.size()) bad("end outside the input: " + id(o), "%s: %s", where().c_str(), show(r).c_str());
    s.probe(r.ok ? "success" : "error");
    static const char* const names[] = { "peak / input: under 8", "under 64", "under 256", "under 512", "under 1024", "over 1024" };
    if (doc.size() >= 16) { double const q = peak / (double)doc.size(); s.probe(names[q < 8 ? 0 : q < 64 ? 1 : q < 256 ? 2 : q < 512 ? 3 : q < 1024 ? 4 : 5]); }
}
static Src source(Sim& s, const Op& o) { std::vector<Src> const v = zoo::sources(o); return s.pick(v); }
static std::string document(Sim& s, const Op& o) {
    s.context("gen %s", id(o).c_str());
    Obj a(o); o.gen(s, a.p);
    if ((o.flags & NOVARIETY) || s.draw(2)) { WriteRes const w = write(o, a); s.check(); return w.bytes; }
    return ref_encode(s, o, o.to(a.p), s.draw(o.tags() + 1) | o.ef());
}
static void go(Sim& s, const Op& o, const std::string& doc, const char* how) {
    Src const k = source(s, o);
    s.ev("%s from %s, %s: %s", id(o).c_str(), zoo::name(k), how, hex(doc).c_str()); s.mix(doc.data(), doc.size());
    s.nontrivial = doc.size() > 1; s.sample(fmt("%s from %s, %s: %s", id(o).c_str(), zoo::name(k), how, hex(doc).c_str()));
    one(s, o, k, doc);
}

// lengths of stored documents are damaged
SIM_ENGINE(P14, lengths, 4) {
    const Op& o = zoo::pick(s, cbor()); std::string doc = document(s, o);
    unsigned n = 1 + s.draw(3);
    while (n--) {
        // containers first: scan for something that looks like a header
        size_t p = doc.empty() ? 0 : s.draw((uint32_t)doc.size()); unsigned mt = 2 + s.draw(4);
        for (size_t i = 0; i != doc.size(); ++i) { size_t const q = (p + i) % doc.size(); unsigned const m = (unsigned char)doc[q] >> 5; if (m >= 2 && m <= 5) { p = q; mt = m; break; } }
        if (s.chance(1, 8)) mt = s.draw(8);
        std::string const h = head(s, mt, doc.size() - p);
        if (s.draw(3) && p < doc.size()) doc.replace(p, 1, h); else if (s.draw(2)) doc.insert(p, h); else doc.replace(p, h.size(), h);
        s.fault("length damaged");
    }
    if (s.chance(1, 4)) { doc.resize(s.draw((uint32_t)doc.size() + 1)); s.fault("truncation"); }
    go(s, o, doc, "damaged lengths");
}
// nothing but claims
SIM_ENGINE(P14, claims, 2) {
    const Op& o = zoo::pick(s, cbor()); std::string doc; unsigned n = 1 + s.size(70);
    if (o.flags & CLASS && s.draw(2)) doc = document(s, o);
    unsigned const fixed = s.draw(8);
    while (n--) {
        unsigned const m = fixed >= 2 && fixed <= 5 ? fixed : 2 + s.draw(4);
        if (s.chance(1, 3)) doc += (char)(m << 5 | 31); else doc += head(s, m, doc.size());
        unsigned e = s.chance(1, 3) ? s.draw(4) : 0; while (e--) doc += (char)(s.chance(1, 4) ? 0x61 : s.draw(24));
        s.fault("false length");
    }
    go(s, o, doc, "claims");
}
// many pieces, long and short
SIM_ENGINE(P14, pieces, 1) {
    const Op& o = zoo::pick(s, cbor()); unsigned const m = 2 + s.draw(2); std::string doc; unsigned n = s.draw(2) ? s.draw(8) : s.draw(400), const_ = s.draw(24);
    doc += (char)(m << 5 | 31);
    while (n--) { unsigned const k = s.draw(4) ? const_ : s.draw(24); doc += (char)(m << 5 | k); doc.append(k, 'a'); }
    if (s.draw(4)) doc += head(s, m, doc.size()); else doc += '\xFF';
    s.fault("indefinite length"); go(s, o, doc, "pieces");
}
// any document, any damage
SIM_ENGINE(P14, damage, 2) {
    const Op& o = zoo::pick(s, all()); std::string doc = document(s, o);
    sim::damage(s, doc, o.f, 1 + s.draw(4));
    if (sim::text(o.f) && s.chance(1, 2)) {
        // huge numbers: exponents, and digits without end
        size_t p = 0; for (size_t i = 0; i != doc.size(); ++i) if (isdigit((unsigned char)doc[i])) { p = i + 1; if (s.draw(2)) break; }
        switch (s.draw(4)) { case 0: doc.insert(p, fmt("e%s%llu", s.draw(2) ? "-" : "", (unsigned long long)s.bits(64))); break; case 1: doc.insert(p, std::string(s.draw(3000), '9')); break; case 2: doc.insert(p, "." + std::string(s.draw(3000), '0')); break; default: doc.insert(p, std::string(s.draw(3000), "[ {\"0"[s.draw(6) % 5])); }
        s.fault("endless number");
    }
    go(s, o, doc, "damage");
}
