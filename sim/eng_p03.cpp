// P03: output into a bounded range
#include "eng.hxx"
using namespace eng;

static const std::vector<Op*>& all() { static const std::vector<Op*> v = zoo::select(0, 0); return v; }

static void one(Sim& s, const Op& o, sim::SinkKind k, const Obj& a, const std::string& full, size_t cap, int fl) {
    size_t const n = full.size(); SinkPlan pl; pl.capacity = cap; pl.flavour = fl;
    if (cap < n) s.fault("range too small");
    WriteRes const w = write(o, k, a, pl); s.check();
    std::string const at = fmt("%s to a %s of %zu cells: %s: %s end %ld", id(o).c_str(), k == W_RANGE ? "range" : fl ? "forward range of unsigned char" : "forward range", cap, hex(full).c_str(), w.ok ? "ok" : w.what.c_str(), w.end);
    std::string const sfx = std::string(": ") + sim::name(o.f) + ' ' + o.type;
    if (w.threw) bad("throws" + sfx, "%s", at.c_str());
    if (cap >= n) {
        if (!w.ok) bad("reports failure of output that fits" + sfx, "%s", at.c_str());
        if (w.end != (long)n) bad("end position" + sfx, "%s", at.c_str());
        if (w.bytes.compare(0, n, full)) bad("different bytes" + sfx, "%s: %s", at.c_str(), hex(w.bytes.substr(0, n)).c_str());
        for (size_t i = n; i != cap; ++i) if (w.bytes[i] != 0x5A) bad("touches cells behind the output" + sfx, "%s: cell %zu", at.c_str(), i);
        return;
    }
    if (w.ok) bad("overflow not reported" + sfx, "%s: %s", at.c_str(), hex(w.bytes).c_str());
    if (w.ec != 1) bad("overflow reported as another error" + sfx, "%s: error %d", at.c_str(), w.ec);
    // what was written is a prefix: cells that differ from the canary must be the output's
    size_t m = 0; while (m != cap && w.bytes[m] == full[m]) ++m;
    for (size_t i = m; i != cap; ++i) if (w.bytes[i] != 0x5A) bad("not a prefix" + sfx, "%s: %s", at.c_str(), hex(w.bytes).c_str());
    if (w.end < 0 || (size_t)w.end > cap) bad("end position outside" + sfx, "%s", at.c_str());
}

SIM_ENGINE(P03, bounded, 1) {
    const Op& o = zoo::pick(s, all());
    s.context("gen %s", id(o).c_str());
    Obj a(o); o.gen(s, a.p);
    WriteRes const f = write(o, a); s.check();
    if (!f.ok) bad("not written: " + id(o), "%s: error %d %s", id(o).c_str(), f.ec, f.what.c_str());
    std::string const& full = f.bytes; size_t const n = full.size();
    s.ev("%s %s", id(o).c_str(), hex(full).c_str()); s.mix(full.data(), n);
    sim::SinkKind const k = s.draw(2) ? W_FRANGE : W_RANGE;
    int const fl = k == W_FRANGE ? (int)s.draw(2) : 0;
    s.nontrivial = n > 1; s.sample(fmt("%s (%s) %s", id(o).c_str(), sim::name(k), hex(full).c_str()));
    if (n <= 24 || s.chance(1, 16)) { // every capacity
        if (n <= 400) { for (size_t c = 0; c != n + 3; ++c) { one(s, o, k, a, full, c, fl); s.state(hash_bytes(full.data(), n, c * 31 + k)); } return; }
    }
    for (unsigned i = 0; i != 6; ++i) {
        size_t const c = i == 0 ? n : i == 1 && n ? n - 1 : i == 2 ? n + 1 + s.draw(8) : s.draw((uint32_t)n + 1);
        one(s, o, k, a, full, c, fl); s.state(hash_bytes(full.data(), n, c * 31 + k));
    }
}
