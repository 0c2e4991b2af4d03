// P04: sinks that refuse
#include "eng.hxx"
using namespace eng;

static const std::vector<Op*>& all() { static const std::vector<Op*> v = zoo::select(0, 0); return v; }

static bool one(Sim& s, const Op& o, sim::SinkKind k, const Obj& a, const std::string& full, const SinkPlan& pl) {
    WriteRes const w = write(o, k, a, pl); s.check();
    std::string const plan = pl.refuse_at == ~0ull ? "never" : fmt("at %s %llu%s%s", pl.by_call ? "call" : "byte", (unsigned long long)pl.refuse_at, pl.once ? " once" : "", pl.partial ? " short" : "");
    std::string const at = fmt("%s to %s (refuses %s): %s: got %s: %s", id(o).c_str(), sim::name(k), plan.c_str(), hex(full).c_str(), hex(w.bytes).c_str(), w.ok ? "ok" : w.what.c_str());
    std::string const sfx = std::string(" (") + sim::name(k) + "): " + id(o);
    if (!w.refused) {
        if (w.threw || !w.ok) bad("reports failure without a refusal" + sfx, "%s", at.c_str());
        if (w.bytes != full) bad("different bytes" + sfx, "%s", at.c_str());
        return false;
    }
    s.state(hash_bytes(full.data(), full.size(), pl.refuse_at * 4 + pl.by_call * 2 + pl.partial));
    if (w.after) bad("writes after a refusal" + sfx, "%s", at.c_str());
    if (w.ok) bad("refusal not reported" + sfx, "%s", at.c_str());
    if (w.threw && !w.sink_error) bad("another exception" + sfx, "%s", at.c_str());
    if (!w.threw && w.ec != 1) bad("refusal reported as another error" + sfx, "%s: error %d", at.c_str(), w.ec);
    if (w.bytes.size() > full.size() || full.compare(0, w.bytes.size(), w.bytes)) bad("not a prefix" + sfx, "%s", at.c_str());
    return true;
}

SIM_ENGINE(P04, refuse, 1) {
    const Op& o = zoo::pick(s, all());
    s.context("gen %s", id(o).c_str());
    Obj a(o); o.gen(s, a.p);
    WriteRes const f = write(o, a); s.check();
    if (!f.ok) bad("not written: " + id(o), "%s: error %d %s", id(o).c_str(), f.ec, f.what.c_str());
    std::string const& full = f.bytes; size_t const n = full.size();
    s.ev("%s %s", id(o).c_str(), hex(full).c_str()); s.mix(full.data(), n);
    static const sim::SinkKind kinds[] = { W_APPEND, W_GOOD, W_THROW, W_OUTIT };
    sim::SinkKind const k = kinds[s.draw(4)];
    s.nontrivial = n > 1; s.sample(fmt("%s (%s) %s", id(o).c_str(), sim::name(k), hex(full).c_str()));
    one(s, o, k, a, full, SinkPlan());
    SinkPlan pl; pl.by_call = s.chance(1, 2); pl.once = s.chance(1, 3); pl.partial = !pl.by_call && s.chance(1, 2);
    if (n <= 24 || (n <= 400 && s.chance(1, 16))) { // every point
        for (pl.refuse_at = 0; pl.refuse_at < n; ++pl.refuse_at) if (!one(s, o, k, a, full, pl)) break;
        return;
    }
    for (unsigned i = 0; i != 5; ++i) { pl.refuse_at = i == 0 ? n - 1 : s.draw((uint32_t)n); one(s, o, k, a, full, pl); }
}
