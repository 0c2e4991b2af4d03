// P10: what was written is read back as the same value
#include "eng.hxx"
using namespace eng;

static const std::vector<Op*>& all() { static const std::vector<Op*> v = zoo::select(0, 0); return v; }

static void check_read(Sim& s, const Op& o, const Obj& a, const Val& want, const std::string& doc, const char* how) {
    std::vector<Src> const ss = zoo::sources(o);
    Src const k = s.pick(ss);
    Obj b(o); ReadRes const r = read(o, k, b, doc);
    s.check();
    if (!r.ok) bad("not read back: " + id(o) + " " + how, "%s from %s: %s: %s", id(o).c_str(), zoo::name(k), hex(doc).c_str(), show(r).c_str());
    if (r.end != (long)doc.size()) bad("not consumed: " + id(o) + " " + how, "%s from %s: %s: read ends at %ld of %zu", id(o).c_str(), zoo::name(k), hex(doc).c_str(), r.end, doc.size());
    if (!(o.flags & NOEQ) && !o.eq(a.p, b.p)) bad("different value: " + id(o) + " " + how, "%s from %s: %s: got %s, wrote %s", id(o).c_str(), zoo::name(k), hex(doc).c_str(), sim::show(o.to(b.p)).c_str(), sim::show(want).c_str());
}

SIM_ENGINE(P10, roundtrip, 1) {
    const Op& o = zoo::pick(s, all());
    s.context("gen %s", id(o).c_str());
    Obj a(o); o.gen(s, a.p);
    Val const want = o.to(a.p);
    s.ev("%s %s", id(o).c_str(), sim::show(want).c_str());
    // written, through any sink
    sim::SinkKind const k = s.pick(zoo::sinks(o));
    SinkPlan pl; std::string doc;
    if (k == W_RANGE || k == W_FRANGE) {
        WriteRes const w = write(o, a); s.check();
        if (!w.ok) bad("not written: " + id(o), "%s: %s: error %d %s", id(o).c_str(), sim::show(want).c_str(), w.ec, w.what.c_str());
        pl.capacity = w.bytes.size() + s.size(9); pl.flavour = (int)s.draw(2);
    }
    WriteRes const w = write(o, k, a, pl); s.check();
    if (!w.ok) bad("not written: " + id(o), "%s to %s: %s: error %d %s", id(o).c_str(), sim::name(k), sim::show(want).c_str(), w.ec, w.what.c_str());
    doc = k == W_RANGE || k == W_FRANGE ? w.bytes.substr(0, w.end < 0 ? 0 : (size_t)w.end) : w.bytes;
    s.mix(doc.data(), doc.size()); s.state(hash_bytes(doc.data(), doc.size(), hash_bytes(o.type, strlen(o.type))));
    Parse const p = ref_parse(o, doc);
    if (p.r != Parse::OK || p.end != doc.size()) bad("malformed output: " + id(o), "%s to %s: %s -> %s: reference decoder stops at %zu (%s)", id(o).c_str(), sim::name(k), sim::show(want).c_str(), hex(doc).c_str(), p.end, p.why);
    if (!sim::same(want, p.v, o.vf(), ordered(o))) bad("wrong output: " + id(o), "%s to %s: %s -> %s, which denotes %s", id(o).c_str(), sim::name(k), sim::show(want).c_str(), hex(doc).c_str(), sim::show(p.v).c_str());
    if (!(o.flags & NOEQ)) check_read(s, o, a, want, doc, "(own output)");
    s.nontrivial = doc.size() > 1;
    s.sample(fmt("%s %s -> %s", id(o).c_str(), sim::name(k), hex(doc).c_str()));
    // any other encoding of the same value
    if (o.flags & (NOVARIETY | NOEQ)) return;
    for (unsigned n = s.draw(3); n; --n) {
        std::string const other = ref_encode(s, o, want, (1 + s.draw(o.tags())) | o.ef());
        if (other == doc) continue;
        s.probe("other encoding");
        s.ev("other encoding %s", hex(other).c_str());
        check_read(s, o, a, want, other, "(other encoding)");
    }
}
