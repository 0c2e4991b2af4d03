// P13: nesting is bounded by the configured depth, never by the stack
#include "nodecmp.hxx"
#include "deep.hxx"
using namespace eng; using deep::DOp;

static std::vector<DOp*> sel(bool rec) { std::vector<DOp*> v; for (auto& o : deep::ops()) if ((o.limit == 0) == rec) v.push_back(&o); return v; }
static const std::vector<DOp*>& nodes_() { static const std::vector<DOp*> v = sel(false); return v; }
static const std::vector<DOp*>& recs_() { static const std::vector<DOp*> v = sel(true); return v; }
static std::string oid(const DOp& o) { return std::string(sim::name(o.f)) + ' ' + o.type; }

// a document that is built along one path, with siblings that nest less
struct Doc {
    Sim& s; Fmt f; unsigned limit; std::string t; unsigned cur = 0, max = 0, key = 0; long exceed = -1;
    Doc(Sim& s, Fmt f, unsigned limit) : s(s), f(f), limit(limit) {}
    bool cbor() const { return f == F_CBOR; }
    void sp() { if (!cbor() && s.chance(1, 12)) { if (cx(f) && s.draw(2)) t += "/* [[{ */"; else t += " \n\t "[s.draw(4)]; } }
    void sep() { sp(); t += cx(f) ? ' ' : ','; sp(); }
    void in() { if (++cur > max) max = cur; if (cur >= limit && exceed < 0) exceed = (long)t.size(); }
    void out() { --cur; }
    void k() { unsigned const n = key++; if (cbor()) { if (n < 24) t += (char)n; else { t += '\x1A'; for (int i = 4; i--; ) t += (char)(n >> (8 * i)); } } else { t += fmt("\"k%u\"", n); sp(); t += cx(f) ? '=' : ':'; sp(); } }
    void scalar() { if (cbor()) { static const char* const v[] = { "\x05", "\x22", "\x61" "a", "\xF5", "\xF6", "\xF9\x3E\x01", "\x62" "[{", "\x7F\x61z\xFF", "\x7F\xFF" }; t += v[s.draw(9)]; }
        else { static const char* const v[] = { "5", "-7", "\"a\"", "true", "null", "2.5e3", "\"[{\\\"\"", "\"\"" }; t += v[s.draw(8)]; } }
    struct Open { char kind; unsigned after; };   // what closes it and how many siblings come before that
    // opens a container of `1 + before + after` elements up to where the nested one goes
    Open open(unsigned rest) {
        unsigned const before = s.chance(1, 4) ? s.draw(3) : 0, after = s.chance(1, 4) ? s.draw(3) : 0; Open o = { 0, after };
        in();
        if (cbor()) {
            unsigned const c = s.draw(7);
            if (c == 4) { static const char* const tg[] = { "\xC1", "\xD8\x40", "\xD9\x01\x02", "\xDB\x01\x02\x03\x04\x05\x06\x07\x08" }; unsigned const n = s.draw(4); t.append(tg[n], n == 3 ? 9 : strlen(tg[n])); o.kind = 'T'; o.after = 0; return o; }
            bool const map = c == 1 || c == 3 || c >= 5, ind = c == 2 || c == 3 || c == 6; unsigned const n = before + after + 1, mj = map ? 0xA0 : 0x80;
            if (ind) t += (char)(mj | 0x1F); else if (n < 24 && s.draw(4)) t += (char)(mj | n); else { t += (char)(mj | 0x18); t += (char)n; }
            for (unsigned i = 0; i != before; ++i) { if (map) k(); item(rest); }
            o.kind = !map ? ind ? 'a' : 'A' : c >= 5 ? ind ? 'k' : 'K' : ind ? 'm' : 'M';      // K: nested in the key
            if (map && c < 5) k();
        }
        else {
            unsigned const c = s.draw(cx(f) ? 3 : 2);
            t += c ? '{' : '['; sp();
            for (unsigned i = 0; i != before; ++i) { if (c) k(); item(rest); sep(); }
            o.kind = c == 0 ? 'A' : c == 1 ? 'M' : 'K';
            if (c == 1) k();
        }
        return o;
    }
    void close(Open o, unsigned rest) {
        bool const key = o.kind == 'k' || o.kind == 'K', map = key || o.kind == 'm' || o.kind == 'M';
        if (o.kind == 'T') { out(); return; }
        if (cbor()) {
            if (key) scalar();
            for (unsigned i = 0; i != o.after; ++i) { if (map) k(); item(rest); }
            if (o.kind >= 'a') t += '\xFF';
        }
        else {
            if (key) { sp(); t += "="; sp(); scalar(); }
            for (unsigned i = 0; i != o.after; ++i) { sep(); if (map) k(); item(rest); }
            sp(); t += map ? '}' : ']';
        }
        out();
    }
    // something that nests up to `rest` deep
    void item(unsigned rest) {
        unsigned const d = rest > 3 ? s.draw(4) : s.draw(rest + 1);
        chain(s.chance(1, 12) ? rest : d);
    }
    void chain(unsigned d) {
        std::vector<Open> v;
        for (unsigned i = 0; i != d; ++i) v.push_back(open(v.size() > 12 || t.size() > 1000 ? 0 : d - i - 1));
        scalar();
        while (!v.empty()) { unsigned const rest = d - (unsigned)v.size(); close(v.back(), t.size() > 1000 ? 0 : rest); v.pop_back(); }
    }
};

static const DOp& pick_op(Sim& s) { const DOp& o = *s.pick(nodes_()); return o; }
struct Nd { const DOp& o; void* p; Nd(const DOp& o) : o(o), p(o.make()) {} ~Nd() { o.drop(p); } };
static ReadRes rd(Sim& s, const DOp& o, void* p, const std::string& doc, bool stream, bool& deep, uint64_t& acc) {
    Source src(doc); s.step_limit = s.steps_ + 8000000; s.context("read %s from %s, depth limit %u", oid(o).c_str(), stream ? "stream" : "pointer", o.limit);
    ReadRes const r = (stream ? o.stream : o.ptr)(p, src, deep); acc = src.accesses; s.check(); return r;
}
static void one(Sim& s, const DOp& o, void* p, const Doc& d, const std::string& doc, bool whole, bool stream) {
    bool deep = false; uint64_t acc = 0; ReadRes const r = rd(s, o, p, doc, stream, deep, acc);
    std::string const where = oid(o) + fmt(" (limit %u) from %s: nesting %u, ", o.limit, stream ? "stream" : "pointer", d.max) + hex(doc, 64) + ": " + show(r);
    if (r.end < 0 || (size_t)r.end > doc.size()) bad("end outside the input: " + oid(o), "%s", where.c_str());
    bool const over = d.exceed >= 0 && (size_t)d.exceed < doc.size();
    s.probe(over ? "nesting over the limit" : whole ? "nesting within the limit" : "cut within the limit");
    if (over) {
        if (r.ok) bad((o.container ? "no limit inside: " : "deeper than the limit: ") + oid(o), "%s", where.c_str());
        if (!deep && !o.container) bad("wrong error: " + oid(o), "%s", where.c_str());
        if (!o.container && acc > 8ull * (uint64_t)d.exceed + 256) bad("reads on: " + oid(o), "%s: %llu accesses, the limit is exceeded at %ld", where.c_str(), (unsigned long long)acc, d.exceed);
        return;
    }
    if (deep) bad("limit hit too early: " + oid(o), "%s", where.c_str());
    if (whole && !r.ok) bad("within the limit: " + oid(o), "%s", where.c_str());
    if (!whole) { if (r.ok) bad("accepts a part: " + oid(o), "%s", where.c_str()); return; }
}

SIM_ENGINE(P13, profile, 6) {
    const DOp& o = pick_op(s);
    unsigned const lim = o.limit, steps = 1 + s.draw(3); Nd t(o); bool const stream = s.draw(2);
    for (unsigned i = 0; i != steps; ++i) {
        // the container itself is not counted
        Doc d(s, o.f, lim); unsigned depth;
        switch (s.draw(5)) { case 0: depth = lim - 1; break; case 1: depth = lim; break; case 2: depth = lim + 1 + s.draw(4); break; case 3: depth = s.draw(lim < 12 ? lim : 12); break; default: depth = s.draw(2 * lim + 2); }
        if (o.container) { d.t += o.f == F_CBOR ? "\x82" : "["; d.chain(s.draw(2)); if (o.f != F_CBOR) d.t += cx(o.f) ? ' ' : ','; d.chain(depth); if (o.f != F_CBOR) d.t += ']'; }
        else d.chain(depth);
        std::string doc = d.t; bool whole = true;
        if (s.chance(1, 5)) { doc.resize(s.draw((uint32_t)doc.size())); whole = false; s.fault("truncation"); }
        s.ev("%s limit %u depth %u%s: %s", oid(o).c_str(), lim, d.max, whole ? "" : " cut", hex(doc, 60).c_str()); s.mix(doc.data(), doc.size());
        s.nontrivial = d.max > 1; s.state(hash_bytes(doc.data(), doc.size())); s.sample(fmt("%s, limit %u, nesting %u: %s", oid(o).c_str(), lim, d.max, hex(doc, 80).c_str()));
        if (d.max >= lim) s.fault("nesting over the limit"); else s.fault("nesting within the limit");
        if (!whole && o.f != F_CBOR && doc.find_first_of("[{") == doc.npos) continue; // a cut number is a number
        one(s, o, t.p, d, doc, whole, stream);
        if (!whole || o.container || d.max >= lim) continue;
        if (doc.size() > 600 && s.draw(8)) continue;
        Nd t(o); { bool x; uint64_t a; rd(s, o, t.p, doc, stream, x, a); } // (containers append)
        Op k = Op(); k.f = o.f; k.flags = NODE | UNORDERED;
        Parse const p = ref_parse(k, doc); std::string why; Val const g = o.to(t.p);
        if (p.r != Parse::OK) bad("harness", "the reference does not read %s: %s", hex(doc).c_str(), p.why);
        // bytes and tags mean something else to a JSON node: P11's
        if ((o.f != F_CBOR || o.cbor_node) && !nodecmp::denotes(p.v, g, o.f == F_CBOR, strstr(o.type, "ordered") != nullptr, why)) bad("wrong value: " + oid(o), "%s: %s", hex(doc).c_str(), why.c_str());
        // the same limit when it is written, in any format
        if (o.container) continue;
        std::vector<DOp*> w; for (auto& x : nodes_()) if (!strcmp(x->type, o.type) && !(o.f != F_JSON && x->f == F_JSON)) w.push_back(x);
        const DOp& x = *s.pick(w); Nd c(x); if (!x.from(c.p, g)) continue;
        bool deep = false; s.step_limit = s.steps_ + 8000000; s.context("write %s, depth limit %u", oid(x).c_str(), x.limit);
        unsigned depth_ = 0; std::vector<std::pair<const Val*, unsigned>> st(1, std::make_pair(&g, 0u));
        while (!st.empty()) { auto e = st.back(); st.pop_back(); unsigned const n = e.second + (e.first->k == Val::ARR || e.first->k == Val::MAP || e.first->k == Val::TAG); if (n > depth_) depth_ = n; for (auto& q : e.first->a) st.push_back(std::make_pair(&q, n)); }
        WriteRes const r = x.write(c.p, (size_t)-1, deep); s.check();
        s.probe(depth_ >= x.limit ? "written over the limit" : "written within the limit");
        if (depth_ >= x.limit ? r.ok || !deep : !r.ok) bad("write: " + oid(x), "limit %u, nesting %u: %s%s from %s", x.limit, depth_, r.ok ? "succeeds" : "fails ", r.what.c_str(), hex(doc).c_str());
        if (r.ok && s.draw(4) == 0) {
            // and into a range that ends early it is an output failure, or the limit
            bool dp = false; size_t const cap = s.draw((uint32_t)r.bytes.size()); WriteRes const q = x.write(c.p, cap, dp); s.fault("sink refuses");
            if (q.ok || dp) bad("write: " + oid(x), "limit %u, nesting %u, %zu of %zu: %s", x.limit, depth_, cap, r.bytes.size(), q.ok ? "succeeds" : q.what.c_str());
        }
    }
}

// the same few constructs again and again: nothing but the limit can stop it
SIM_ENGINE(P13, bomb, 1) {
    const DOp& o = pick_op(s); if (o.container) return;
    unsigned const n = 1 + s.draw(4); std::string unit;
    Doc d(s, o.f, 0x7FFFFFFF);
    for (unsigned i = 0; i != n; ++i) { d.open(0); d.limit = 0x7FFFFFFF; }
    unit = d.t; if (unit.size() > 200) return;
    unsigned const levels = o.limit + s.draw(30000), reps = levels / n + 1;
    std::string doc; for (unsigned i = 0; i != reps && doc.size() < 200000; ++i) doc += unit;
    Nd t(o); bool deep = false; uint64_t acc = 0; bool const stream = s.draw(2);
    s.ev("%s limit %u: %u times %s", oid(o).c_str(), o.limit, reps, hex(unit).c_str()); s.mix(doc.data(), doc.size()); s.nontrivial = true; s.state(hash_bytes(unit.data(), unit.size(), reps));
    s.sample(fmt("%s, limit %u: %u times %s", oid(o).c_str(), o.limit, reps, hex(unit).c_str())); s.fault("nesting bomb");
    ReadRes const r = rd(s, o, t.p, doc, stream, deep, acc);
    if (r.ok || !deep) bad("wrong error: " + oid(o), "%u times %s: %s", reps, hex(unit).c_str(), show(r).c_str());
    if (acc > 8ull * unit.size() * (o.limit / n + 2) + 512) bad("reads on: " + oid(o), "%u times %s: %llu accesses", reps, hex(unit).c_str(), (unsigned long long)acc);
    // what was entered was left
    Doc e(s, o.f, o.limit); e.chain(o.limit - 1); bool const was = deep; (void)was; deep = false;
    ReadRes const q = rd(s, o, t.p, e.t, stream, deep, acc);
    if (!q.ok) bad("limit hit too early: " + oid(o), "after a failure: %s: %s", hex(e.t).c_str(), show(q).c_str());
}

// a member that is skipped may nest as deep as it likes: there is no limit to skipping, but no stack either
SIM_ENGINE(P13, skip, 1) {
    const DOp& o = *s.pick(recs_()); Nd t(o); bool const cb = o.f == F_CBOR, x = cx(o.f), stream = s.draw(2), whole = s.draw(4) != 3;
    unsigned const n = 1 + s.draw(3); std::string open, close;
    for (unsigned i = 0; i != n; ++i) switch (s.draw(cb ? 4 : 2)) {
        case 0: open += cb ? "\x81" : "["; if (!cb) close.insert(0, "]"); break;
        case 1: open += cb ? std::string("\xA1\x01") : std::string("{\"a\"") + (x ? '=' : ':'); if (!cb) close.insert(0, "}"); break;
        case 2: open += "\x9F"; close.insert(0, "\xFF"); break;
        case 3: open += "\xBF\x01"; close.insert(0, "\xFF"); break;
    }
    unsigned const reps = s.draw(16) ? s.draw(40) : s.draw(40000 / n);
    std::string v; for (unsigned i = 0; i != reps; ++i) v += open; v += cb ? "\x05" : "5"; for (unsigned i = 0; i != reps; ++i) v += close;
    std::string doc = cb ? std::string("\xA3\x61" "a\x07\x67skipped", 12) + v + "\x61" "b\x62" "xy" : x ? "{a = 7 skipped = " + v + " b = \"xy\"}" : "{\"a\":7,\"skipped\":" + v + ",\"b\":\"xy\"}";
    if (!whole) { doc.resize(s.draw((uint32_t)doc.size())); s.fault("truncation"); }
    s.ev("%s: skips %u times %s%s", oid(o).c_str(), reps, hex(open).c_str(), whole ? "" : " cut"); s.mix(doc.data(), doc.size()); s.nontrivial = true; s.fault("deep member to skip"); s.sample(fmt("%s: skips %u times %s", oid(o).c_str(), reps, hex(open).c_str()));
    s.state(hash_bytes(doc.data(), doc.size()));
    bool deep = false; uint64_t acc = 0; ReadRes const r = rd(s, o, t.p, doc, stream, deep, acc);
    if (whole != r.ok) bad("skipping: " + oid(o), "%u times %s%s: %s", reps, hex(open).c_str(), whole ? "" : ", cut", show(r).c_str());
    if (acc > 16ull * doc.size() + 512) bad("reads on: " + oid(o), "skipping %u times %s: %llu accesses", reps, hex(open).c_str(), (unsigned long long)acc);
    if (whole) { Val const g = o.to(t.p); if (!(g.a[0].num() == 7 && g.a[1].s == "xy")) bad("skipping: " + oid(o), "%u times %s: reads %s", reps, hex(open).c_str(), sim::show(g).c_str()); }
}
