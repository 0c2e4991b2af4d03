// P15: indentation changes only white space, and meets failing sinks as compact output does
#include "eng.hxx"
#include "tidy.hxx"
#include <functional>
using namespace eng;

static const std::vector<Op*>& all() {
    static const std::vector<Op*> v = [] { std::vector<Op*> r; for (Op* o : zoo::select(0, 0)) if (o->write[W_INDENT]) r.push_back(o); return r; }();
    return v;
}

static bool ws(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }

// the documented layout: every element and member on its own line
static std::string pretty(const std::string& b, unsigned tab, char pad) {
    std::string r; size_t lvl = 0;
    auto line = [&] { r += '\n'; r.append(lvl, pad); };
    for (size_t i = 0; i != b.size(); ++i) {
        char const c = b[i];
        if (ws(c)) continue;
        switch (c) {
            case '"':
                for (r += c, ++i; i != b.size(); ++i) {
                    r += b[i];
                    if (b[i] == '"') break;
                    if (b[i] == '\\' && i + 1 != b.size()) r += b[++i];
                }
                if (i == b.size()) return r;
                break;
            case '{': case '[': {
                size_t j = i + 1; while (j != b.size() && ws(b[j])) ++j;
                r += c;
                if (j != b.size() && b[j] == (c == '{' ? '}' : ']')) { r += b[j]; i = j; }
                else { lvl += tab; line(); }
                break;
            }
            case '}': case ']': lvl -= lvl ? tab : 0; line(); r += c; break;
            case ',': r += c; line(); break;
            case ':': r += ": "; break;
            default: r += c;
        }
    }
    return r;
}
static std::string bare(const std::string& b) { std::string r; for (char c : b) if (!ws(c) && c) r += c; return r; }

static void layout(Sim& s, SinkPlan& pl) {
    static const unsigned tabs[] = { 1, 2, 4, 0, 3, 8, 17, 40 };
    pl.tab = tabs[s.draw(8)]; pl.pad = s.draw(2) ? ' ' : '\t';
}

typedef std::function<WriteRes(const SinkPlan&)> Put;

// into a range of every size: as P03
static void range(Sim& s, const Put& put, SinkPlan pl, const std::string& full, const std::string& what, bool ends) {
    size_t const n = full.size(); bool const every = n <= 64;
    unsigned const N = every ? (unsigned)n + 3 : 6;
    for (unsigned i = 0; i != N; ++i) {
        pl.capacity = every ? i : i == 0 ? n : i == 1 && n ? n - 1 : i == 2 ? n + 1 + s.draw(8) : s.draw((uint32_t)n + 1);
        if (pl.capacity < n) s.fault("range too small");
        WriteRes const w = put(pl); s.check();
        std::string const at = fmt("%s: %zu cells for %s: got %s: %s", what.c_str(), pl.capacity, hex(full).c_str(), hex(w.bytes).c_str(), w.ok ? "ok" : w.what.c_str());
        if (w.threw) bad("throws: " + what, "%s", at.c_str());
        size_t m = 0; while (m != pl.capacity && m != n && w.bytes[m] == full[m]) ++m;
        for (size_t j = m; j != pl.capacity; ++j) if (w.bytes[j] != 0x5A) bad("not a prefix in a range: " + what, "%s", at.c_str());
        if (pl.capacity >= n) {
            if (!w.ok) bad("reports failure of output that fits: " + what, "%s", at.c_str());
            if (m != n) bad("incomplete in a range: " + what, "%s", at.c_str());
        }
        else {
            if (w.ok) bad("overflow not reported: " + what, "%s", at.c_str());
            if (ends && w.ec != 1) bad("overflow reported as another error: " + what, "%s", at.c_str());
        }
    }
}
// into sinks that refuse at some point: as P04
static bool refuse(Sim& s, const Put& put, const SinkPlan& pl, const std::string& full, const std::string& what, bool ends) {
    WriteRes const w = put(pl); s.check();
    std::string const at = fmt("%s: refuses at %lld: %s: got %s: %s", what.c_str(), (long long)pl.refuse_at, hex(full).c_str(), hex(w.bytes).c_str(), w.ok ? "ok" : w.what.c_str());
    if (!w.refused) {
        if (w.threw || !w.ok) bad("reports failure without a refusal: " + what, "%s", at.c_str());
        if (w.bytes != full) bad("different output: " + what, "%s", at.c_str());
        return false;
    }
    if (w.after) bad("writes after a refusal: " + what, "%s", at.c_str());
    if (w.ok) bad("refusal not reported: " + what, "%s", at.c_str());
    if (w.threw && !w.sink_error) bad("another exception: " + what, "%s", at.c_str());
    if (ends && !w.threw && w.ec != 1) bad("refusal reported as another error: " + what, "%s", at.c_str());
    if (w.bytes.size() > full.size() || full.compare(0, w.bytes.size(), w.bytes)) bad("not a prefix: " + what, "%s", at.c_str());
    return true;
}
static void refusals(Sim& s, const Put& put, SinkPlan pl, const std::string& full, const std::string& what, bool ends) {
    size_t const n = full.size();
    refuse(s, put, pl, full, what, ends);
    pl.by_call = s.chance(1, 2); pl.once = s.chance(1, 3); pl.partial = !pl.by_call && s.chance(1, 2);
    if (n <= 64) { for (pl.refuse_at = 0; pl.refuse_at < n; ++pl.refuse_at) if (!refuse(s, put, pl, full, what, ends)) break; return; }
    for (unsigned i = 0; i != 5; ++i) { pl.refuse_at = i == 0 ? n - 1 : s.draw((uint32_t)n); refuse(s, put, pl, full, what, ends); }
}

SIM_ENGINE(P15, indent, 3) {
    const Op& o = zoo::pick(s, all());
    s.context("gen %s", id(o).c_str());
    Obj a(o); o.gen(s, a.p);
    WriteRes const f = write(o, a); s.check();
    if (!f.ok) bad("not written: " + id(o), "%s: error %d %s", id(o).c_str(), f.ec, f.what.c_str());
    SinkPlan pl; layout(s, pl); pl.flavour = (int)s.draw(4);
    std::string const full = pretty(f.bytes, pl.tab, pl.pad); size_t const n = full.size();
    s.ev("%s tab %u: %s", id(o).c_str(), pl.tab, hex(full).c_str()); s.mix(full.data(), n); s.state(hash_bytes(full.data(), n, pl.flavour));
    s.nontrivial = n > f.bytes.size(); s.sample(fmt("%s %s", id(o).c_str(), hex(full).c_str()));
    static const char* const to[] = { "a string", "a sink", "a range", "an output iterator" };
    std::string const what = std::string(to[pl.flavour]) + ": " + id(o);
    Put const put = [&] (const SinkPlan& p) { return write(o, W_INDENT, a, p); };
    switch (pl.flavour) {
        case 1: case 3: refusals(s, put, pl, full, what, true); break;
        case 2: range(s, put, pl, full, what, true); break;
        case 0: {
            WriteRes const w = put(pl); s.check();
            if (!w.ok) bad("indented output fails in " + what, "%s: %s", hex(full).c_str(), w.what.c_str());
            if (w.bytes != full) bad("different output in " + what, "%s: got %s", hex(full).c_str(), hex(w.bytes).c_str());
        }
    }
    // it is the same value
    if (o.flags & NOEQ) return;
    Obj b(o); Src const k = s.pick(zoo::sources(o)); ReadRes const r = read(o, k, b, full); s.check();
    if (!r.ok || r.end != (long)n) bad("indented output is not read back: " + id(o), "from %s: %s: %s", zoo::name(k), hex(full).c_str(), show(r).c_str());
    if (!o.eq(a.p, b.p)) bad("indented output is read as another value: " + id(o), "from %s: %s", zoo::name(k), hex(full).c_str());
}

SIM_ENGINE(P15, tidy, 2) {
    // a text: of a value, with any white space
    const Op& o = zoo::pick(s, all());
    s.context("gen %s", id(o).c_str());
    Obj a(o); o.gen(s, a.p);
    WriteRes const f = write(o, a); s.check();
    if (!f.ok) bad("not written: " + id(o), "%s: error %d %s", id(o).c_str(), f.ec, f.what.c_str());
    std::string text = o.flags & (NOVARIETY | NOEQ) || s.chance(1, 4) ? f.bytes : ref_encode(s, o, o.to(a.p), 1 | o.ef() | sim::SPACED);
    SinkPlan pl; layout(s, pl);
    tidy::By const by = (tidy::By)s.draw(tidy::BY_N); tidy::To const to = (tidy::To)s.draw(tidy::TO_N);
    std::string const what = std::string("tidy of a ") + tidy::name(by) + " to a " + tidy::name(to);
    s.ev("%s tab %u: %s", what.c_str(), pl.tab, hex(text).c_str()); s.mix(text.data(), text.size()); s.state(hash_bytes(text.data(), text.size(), to * 8 + by));
    s.nontrivial = text.size() > 1; s.sample(fmt("%s %s", what.c_str(), hex(text).c_str()));
    uint64_t throw_at = 0;
    Put const put = [&] (const SinkPlan& p) {
        Source src(text); src.throw_at = throw_at; S->step_limit = S->steps_ + 4000000; S->context("%s", what.c_str());
        WriteRes w = tidy::run(by, to, src, p);
        if (to != tidy::OUTIT) { w.refused = false; }
        return w;
    };
    if (s.chance(1, 4)) { // damaged or cut text: whatever is made of it, nothing is lost, added, or written where it must not be
        s.fault("damaged text");
        text = s.chance(1, 2) ? text.substr(0, s.draw((uint32_t)text.size() + 1)) : (sim::damage(s, text, F_JSON, 1 + s.draw(3)), text);
        pl.capacity = text.size() * (2 + 64 * pl.tab) + 64;
        if (to == tidy::RANGE || to == tidy::FRANGE) pl.capacity = s.draw((uint32_t)text.size() + 1);
        WriteRes const w = put(pl); s.check();
        if (w.threw) bad("throws: " + what, "%s", w.what.c_str());
        if (to == tidy::RANGE || to == tidy::FRANGE) return;
        if (bare(w.bytes) != bare(text)) bad("changes more than white space: " + what, "%s: %s", hex(text).c_str(), hex(w.bytes).c_str());
        return;
    }
    std::string const full = pretty(f.bytes, pl.tab, pl.pad), of = pretty(text, pl.tab, pl.pad);
    if (by != tidy::ITERABLE && s.chance(1, 4)) { // the source fails
        throw_at = 1 + s.draw((uint32_t)text.size() * 3 + 1); pl.capacity = of.size() + 8;
        WriteRes const w = put(pl); s.check();
        if (w.threw && w.what != "source error") bad("another exception: " + what, "%s", w.what.c_str());
        return;
    }
    switch (to) {
        case tidy::OUTIT: refusals(s, put, pl, of, what, false); break;
        case tidy::RANGE: case tidy::FRANGE: range(s, put, pl, of, what, false); break;
        default: {
            WriteRes const w = put(pl); s.check();
            if (!w.ok) bad("fails: " + what, "%s: %s", hex(text).c_str(), w.what.c_str());
            if (w.bytes != of) bad("different output: " + what, "%s: got %s, not %s", hex(text).c_str(), hex(w.bytes).c_str(), hex(of).c_str());
        }
    }
}

// what means something in any of the formats is in a key only if it is escaped
static void words(Val& v, char div) {
    for (size_t i = 0; i != v.a.size(); ++i) {
        if (v.k == Val::MAP && i % 2 == 0) { for (char& c : v.a[i].s) if (c != div && strchr(",;:='\"[]{}", c)) c = 'x'; }
        else words(v.a[i], div);
    }
}
// texts of the other formats: other delimiters, separators and keys. layouts of these are not documented, the value is
SIM_ENGINE(P15, tidy_formats, 1) {
    TextOpt f;
    f.del = s.draw(3) ? '\'' : '"'; f.div = s.draw(2) ? '=' : ':';
    static const char seps[] = { ',', ';', ' ' };
    f.sep = seps[s.draw(3)]; f.lsep = seps[s.draw(3)];
    f.trailing = s.draw(2); f.keys = s.draw(2) ? TextOpt::RAW : TextOpt::QUOTED;
    sim::GenOpt g = sim::GenOpt(); g.f = f.keys == TextOpt::RAW ? F_CXCF : F_JSON; g.depth = 1 + s.draw(3); g.json_node = true;
    Val v = sim::gen_val(s, g); if (f.keys == TextOpt::RAW) words(v, f.div);
    std::string text; sim::put_text(s, text, v, f, s.draw(2));
    SinkPlan pl; layout(s, pl);
    tidy::By const by = (tidy::By)s.draw(tidy::BY_N); tidy::To const to = s.draw(2) ? tidy::STRING : tidy::BACK;
    std::string const what = fmt("tidy of a %s, strings in %c, members %c%s, to a %s", tidy::name(by), f.del, f.div, f.keys == TextOpt::RAW ? ", raw keys" : "", tidy::name(to));
    Parse const p = sim::parse_text(text, 0, f);
    if (p.r != Parse::OK) return;           // (the reference reader and encoder disagree on nothing: numbers at the end)
    s.ev("%s tab %u: %s", what.c_str(), pl.tab, hex(text).c_str()); s.mix(text.data(), text.size()); s.state(hash_bytes(text.data(), text.size(), to * 8 + by));
    s.nontrivial = text.size() > 1; s.sample(fmt("%s %s", what.c_str(), hex(text).c_str()));
    Source src(text); S->step_limit = S->steps_ + 4000000; s.context("%s", what.c_str());
    WriteRes const w = tidy::run(by, to, src, pl); s.check();
    if (!w.ok) bad("fails: " + what, "%s: %s", hex(text).c_str(), w.what.c_str());
    Parse const q = sim::parse_text(w.bytes, 0, f);
    if (q.r != Parse::OK) bad("another text: " + what, "%s: %s", hex(text).c_str(), hex(w.bytes).c_str());
    if (!(p.v == q.v)) bad("another value: " + what, "%s: %s", hex(text).c_str(), hex(w.bytes).c_str());
    if (bare(w.bytes) != bare(text)) bad("changes more than white space: " + what, "%s: %s", hex(text).c_str(), hex(w.bytes).c_str());
}
