// P17: typed reads of damaged data are safe and never yield a silently wrong value
#include "eng.hxx"
using namespace eng;

static const std::vector<Op*>& all() { static const std::vector<Op*> v = zoo::select(0, 0); return v; }
static const std::vector<Op*>& of(Fmt f) { static const std::vector<Op*> v[] = { zoo::select(0, 0, F_JSON), zoo::select(0, 0, F_JSTR), zoo::select(0, 0, F_CXCF), zoo::select(0, 0, F_CBOR) }; return v[f]; }

// CXCF needs no separator: digits followed by e or . can be a number and what follows it, it depends on the target
static bool glued(const Op& o, const std::string& doc) {
    if ((o.style ? o.style->sep != ' ' && o.style->lsep != ' ' : o.f != F_CXCF) || ((o.flags & FLOATS) && !(o.flags & CLASS))) return false;
    for (size_t i = 1; i < doc.size(); ++i) if (isdigit((unsigned char)doc[i - 1]) && (doc[i] == 'e' || doc[i] == 'E' || doc[i] == '.')) return true;
    return false;
}
static void one(Sim& s, const Op& o, Src k, const std::string& doc) {
    if (untold(o, doc)) { s.probe("off the assumptions of the format"); return; }
    Obj b(o); ReadRes const r = read(o, k, b, doc); s.check();
    s.state(hash_bytes(doc.data(), doc.size(), hash_bytes(o.type, strlen(o.type), k)));
    auto const where = [&] { return id(o) + " from " + zoo::name(k) + ": " + hex(doc); };
    if (r.threw) bad("throws: " + id(o), "%s: %s", where().c_str(), show(r).c_str());
    if (r.end < 0 || (size_t)r.end > doc.size()) bad("end outside the input: " + id(o), "%s: %s", where().c_str(), show(r).c_str());
    if (!r.ok) { s.probe("error"); return; }
    if (vague(o, doc)) { s.probe("off the assumptions of the format"); return; }
    s.probe("success");
    // what the consumed bytes denote
    std::string const part = doc.substr(0, (size_t)r.end);
    Parse const p = ref_parse(o, part);
    bool const lenient = k == LPTR && o.f != F_CBOR;
    if (glued(o, part)) s.probe("ambiguous number");
    else if (p.r != Parse::OK || p.end != part.size()) {
        if (!lenient && !(o.flags & BARE && ref_parse(o, part + "*/").r == Parse::OK)) bad("ill-formed input read as a value: " + id(o), "%s: ends at %ld, the reference at %zu (%s)", where().c_str(), r.end, p.end, p.why);
    }
    else if (!(o.flags & NOEQ) && !(lenient && o.f == F_CXCF)) { // read leniently, 01 is one number and not two
        Obj c(o); From f = o.from(p.v, c.p);
        if (f == REJECT && o.style && !o.style->unique && o.flags & CLASS) f = UNKNOWN; // a repeated key is fine there
        if (f == REJECT) bad("accepted: " + id(o), "%s: reads %s, but it is %s", where().c_str(), sim::show(o.to(b.p)).c_str(), sim::show(p.v).c_str());
        if (f == ACCEPT && !o.eq(b.p, c.p)) bad("wrong value: " + id(o), "%s: reads %s, but it is %s", where().c_str(), sim::show(o.to(b.p)).c_str(), sim::show(o.to(c.p)).c_str());
        s.probe(f == UNKNOWN ? "reference has no opinion" : "reference agrees");
    }
    if (o.flags & NOEQ || (lenient && o.flags & NODE)) return; // (read leniently, infinities are numbers to a node)
    // and it survives another trip
    WriteRes const w = write(o, b); s.check();
    if (!w.ok || w.threw) bad("not written: " + id(o), "%s: reads %s, which is not written: error %d %s", where().c_str(), sim::show(o.to(b.p)).c_str(), w.ec, w.what.c_str());
    if (sim::text(o.f) && strstr(o.type, "char") && !sim::utf8_valid(w.bytes)) return; // a char above 0x7F is written as that byte (the tests want it)
    Obj d(o); ReadRes const q = read(o, PTR, d, w.bytes); s.check();
    if (!q.ok || q.end != (long)w.bytes.size()) bad("not read again: " + id(o), "%s: reads %s, written as %s: %s", where().c_str(), sim::show(o.to(b.p)).c_str(), hex(w.bytes).c_str(), show(q).c_str());
    if (!o.eq(b.p, d.p)) bad("not the same again: " + id(o), "%s: reads %s, written as %s, reads %s", where().c_str(), sim::show(o.to(b.p)).c_str(), hex(w.bytes).c_str(), sim::show(o.to(d.p)).c_str());
}

static std::string document(Sim& s, const Op& o) {
    s.context("gen %s", id(o).c_str());
    Obj a(o); o.gen(s, a.p);
    if ((o.flags & NOVARIETY) || s.draw(2)) { WriteRes const w = write(o, a); s.check(); return w.bytes; }
    return ref_encode(s, o, o.to(a.p), s.draw(o.tags() + 1) | o.ef());
}

SIM_ENGINE(P17, damage, 3) {
    const Op& o = zoo::pick(s, all());
    std::string doc = document(s, o);
    std::string const how = sim::damage(s, doc, o.f, 1 + s.draw(3));
    s.ev("%s%s: %s", id(o).c_str(), how.c_str(), hex(doc).c_str()); s.mix(doc.data(), doc.size());
    s.nontrivial = doc.size() > 1; s.sample(fmt("%s%s: %s", id(o).c_str(), how.c_str(), hex(doc).c_str()));
    std::vector<Src> const ss = zoo::sources(o);
    one(s, o, s.pick(ss), doc);
}

// the bytes of something else, damaged or not
SIM_ENGINE(P17, confused, 1) {
    const Op& o = zoo::pick(s, all());
    const Op& p = zoo::pick(s, of(o.f));
    std::string doc = document(s, p); s.fault("document of another type");
    std::string how; if (s.draw(2)) how = sim::damage(s, doc, o.f, 1 + s.draw(2));
    s.ev("%s as %s%s: %s", p.type, id(o).c_str(), how.c_str(), hex(doc).c_str()); s.mix(doc.data(), doc.size());
    s.nontrivial = doc.size() > 1; s.sample(fmt("%s as %s%s: %s", p.type, id(o).c_str(), how.c_str(), hex(doc).c_str()));
    std::vector<Src> const ss = zoo::sources(o);
    one(s, o, s.pick(ss), doc);
}
