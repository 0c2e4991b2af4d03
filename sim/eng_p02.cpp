// P02: reading does not depend on how the input is delivered
#include "eng.hxx"
using namespace eng;

static const std::vector<Op*>& all() { static const std::vector<Op*> v = zoo::select(0, 0); return v; }

SIM_ENGINE(P02, deliver, 1) {
    const Op& o = zoo::pick(s, all());
    s.context("gen %s", id(o).c_str());
    Obj a(o); o.gen(s, a.p);
    std::string doc;
    bool const own = (o.flags & NOVARIETY) || s.draw(2);
    if (own) { WriteRes const w = write(o, a); s.check(); doc = w.bytes; }
    else doc = ref_encode(s, o, o.to(a.p), s.draw(o.tags() + 1) | o.ef());
    // damaged or not, and something behind it or not
    std::string how; bool lenient = true;
    if (s.chance(1, 2)) { how = sim::damage(s, doc, o.f, 1 + s.draw(3)); lenient = false; }
    switch (s.draw(4)) {
        case 0: break;
        case 1: { s.fault("bytes behind the value"); Obj n(o); o.gen(s, n.p); WriteRes const w = write(o, n); s.check(); if (sim::text(o.f)) doc += '\n'; doc += w.bytes; break; }
        case 2: { s.fault("bytes behind the value"); if (o.f != F_CBOR) lenient = false; for (unsigned i = 1 + s.draw(4); i; --i) doc += s.draw(2) ? (char)s.draw(256) : "0123456789.eE+-x]}\"',: /*#\\u"[s.draw(29)]; break; }
        case 3: { s.fault("input ends early"); if (!doc.empty()) doc.resize(s.draw((uint32_t)doc.size())); lenient = false; break; }
    }
    s.ev("%s%s: %s", id(o).c_str(), how.c_str(), hex(doc).c_str()); s.mix(doc.data(), doc.size());
    s.nontrivial = doc.size() > 1; s.sample(fmt("%s%s: %s", id(o).c_str(), how.c_str(), hex(doc).c_str()));
    s.state(hash_bytes(doc.data(), doc.size(), hash_bytes(o.type, strlen(o.type))));

    if (untold(o, doc)) return;
    Obj first(o); ReadRes r0; Src k0 = SRC_N;
    for (Src k : zoo::sources(o)) {
        if (k == LPTR && o.f != F_CBOR && !lenient) continue;   // the default traits read numbers leniently from pointers
        Source src(doc);
        if (k == SBUF && s.draw(3)) { for (unsigned i = 1 + s.draw(4); i; --i) src.pieces.push_back(1 + (uint32_t)s.size(15)); s.fault("delivery in pieces"); }
        Obj b(o); ReadRes const r = read(o, k, b, src); s.check();
        s.tick(src.accesses);
        if (r.threw) bad("throws: " + id(o), "%s from %s: %s: %s", id(o).c_str(), zoo::name(k), hex(doc).c_str(), show(r).c_str());
        if (r.end < 0 || (size_t)r.end > doc.size()) bad("end outside the input: " + id(o), "%s from %s: %s: %s", id(o).c_str(), zoo::name(k), hex(doc).c_str(), show(r).c_str());
        if (vague(o, doc)) continue;
        if (k0 == SRC_N) {
            k0 = k; r0 = r; if (r.ok) { o.destroy(first.p); first.p = b.p; b.p = o.make(); }
            if (r.ok && !(o.flags & NOEQ)) s.probe("success"); else s.probe("failure");
            continue;
        }
        if (r.ok != r0.ok) bad("outcome depends on the source: " + id(o), "%s: %s: %s: %s, but %s: %s", id(o).c_str(), hex(doc).c_str(), zoo::name(k0), show(r0).c_str(), zoo::name(k), show(r).c_str());
        if (!r.ok) continue;
        if (r.end != r0.end) bad("end depends on the source: " + id(o), "%s: %s: %s: %s, but %s: %s", id(o).c_str(), hex(doc).c_str(), zoo::name(k0), show(r0).c_str(), zoo::name(k), show(r).c_str());
        if (!(o.flags & NOEQ) && !o.eq(first.p, b.p)) bad("value depends on the source: " + id(o), "%s: %s: %s: %s, but %s: %s", id(o).c_str(), hex(doc).c_str(), zoo::name(k0), sim::show(o.to(first.p)).c_str(), zoo::name(k), sim::show(o.to(b.p)).c_str());
        // nothing behind a value that delimits itself is even looked at
        if (o.f == F_CBOR && src.hwm > (size_t)r.end) bad("looks behind the value: " + id(o), "%s from %s: %s: ends at %ld, looked at %zu", id(o).c_str(), zoo::name(k), hex(doc).c_str(), r.end, src.hwm);
    }
}
