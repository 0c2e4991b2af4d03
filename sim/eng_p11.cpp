// P11: nodes pass unchanged through chains of formats
#include "eng.hxx"
#include <cmath>
#include <algorithm>
#include <memory>
using namespace eng;

namespace {

    // does `got` carry the content of `want` after a hop in format f into a node that is (is not) a CBOR one?
    struct Hop { Fmt f; bool cbor; bool ordered; };
    bool is_cbor(const Op& o) { return strncmp(o.type, "cbor", 4) == 0; }

    bool same_num(const Val& w, const Val& g) { return w.num() == g.num() || (w.num() != w.num() && g.num() != g.num()); }
    bool textual(const Val& v) { if (v.k == Val::STR || v.k == Val::MAP) return true; for (const Val& e : v.a) if (textual(e)) return true; return false; }
    void s_probe(const char* w) { S->probe(w); }
    bool carries(const Val& w, const Val& g, const Hop& h, std::string& why);
    bool key_carries(const Val& w, const Val& g, const Hop& h, std::string& why) {
        if (h.f == F_CBOR || h.f == F_CXCN || w.k == Val::STR) return carries(w, g, h, why);
        // JSON has string keys only: what is not a string is one that holds its text
        if (g.k != Val::STR) { why = "the key " + sim::show(g) + " is not a string"; return false; }
        if (textual(w)) { s_probe("a key with strings or maps inside"); return true; } // how they are quoted within the string is open
        Parse const p = sim::parse(g.s, 0, F_JSTR);
        if (p.r != Parse::OK || p.end != g.s.size()) { why = "the key " + sim::show(g) + " is not " + sim::show(w); return false; }
        return carries(w, p.v, h, why);
    }
    bool carries(const Val& w, const Val& g, const Hop& h, std::string& why) {
        auto no = [&] { if (why.empty()) why = sim::show(g) + " instead of " + sim::show(w); return false; };
        bool const bin = h.f == F_CBOR, keeps = bin && h.cbor;
        switch (w.k) {
            case Val::UNDEF: return g.k == (keeps ? Val::UNDEF : Val::NUL) ? true : no();
            case Val::NUL: return g.k == Val::NUL ? true : no();
            case Val::BOOL: return g.k == Val::BOOL && g.b == w.b ? true : no();
            case Val::INT: return g.k == Val::INT && g.b == w.b && g.u == w.u ? true : no();
            case Val::REAL: return (g.k == Val::REAL || (!bin && g.k == Val::INT)) && (same_num(w, g.k == Val::REAL && !g.s.empty() ? Val::real(to_d(g.s.c_str())) : g)) && (g.k != Val::REAL || !bin || std::signbit(g.d) == std::signbit(w.d) || w.d != w.d) ? true : no();
            case Val::STR: return g.k == Val::STR && g.s == w.s ? true : no();
            case Val::BYTES:
                if (keeps) return g.k == Val::BYTES && g.s == w.s ? true : no();
                if (g.k != Val::ARR || g.a.size() != w.s.size()) return no();
                for (size_t i = 0; i != w.s.size(); ++i) if (g.a[i].k != Val::INT || g.a[i].b || g.a[i].u != (unsigned char)w.s[i]) return no();
                return true;
            case Val::SIMPLE: return keeps ? g.k == Val::SIMPLE && g.u == w.u ? true : no() : g.k == Val::INT && !g.b && g.u == w.u ? true : no();
            case Val::TAG: if (!keeps) return carries(w.a[0], g, h, why); return g.k == Val::TAG && g.u == w.u && carries(w.a[0], g.a[0], h, why) ? true : no();
            case Val::ARR:
                if (g.k != Val::ARR || g.a.size() != w.a.size()) return no();
                for (size_t i = 0; i != w.a.size(); ++i) if (!carries(w.a[i], g.a[i], h, why)) return no();
                return true;
            case Val::MAP: {
                if (g.k != Val::MAP || g.a.size() != w.a.size()) return no();
                if (h.ordered) {
                    for (size_t i = 0; i != w.a.size(); ++i) if (!(i % 2 ? carries(w.a[i], g.a[i], h, why) : key_carries(w.a[i], g.a[i], h, why))) return no();
                    return true;
                }
                std::vector<bool> used(g.a.size() / 2); std::string x;
                for (int pass = 0; pass != 2; ++pass) for (size_t i = 0; i + 1 < w.a.size(); i += 2) { // keys that may match several come last
                    if ((w.a[i].k != Val::STR && textual(w.a[i])) != (pass == 1)) continue;
                    bool hit = false;
                    for (size_t j = 0; j + 1 < g.a.size() && !hit; j += 2)
                        if (!used[j / 2] && (x.clear(), key_carries(w.a[i], g.a[j], h, x)) && carries(w.a[i + 1], g.a[j + 1], h, x)) used[j / 2] = hit = true;
                    if (!hit) { why = "the member " + sim::show(w.a[i]) + " of " + sim::show(w) + " is not in " + sim::show(g); return false; }
                }
                return true;
            }
        }
        return no();
    }
    bool special(const Val& v) { if (v.k == Val::REAL && !std::isfinite((double)v.d)) return true; for (const Val& e : v.a) if (special(e)) return true; return false; }
    // keys that are different may become the same (1 and "1" in JSON; 1 and 1.0; with and without tag)
    std::string plain_key(const Val& v) {
        switch (v.k) {
            case Val::TAG: return plain_key(v.a[0]);
            case Val::STR: return v.s;
            case Val::INT: case Val::REAL: { char b[64]; snprintf(b, sizeof b, "%.17Lg", v.num()); return b; }
            case Val::UNDEF: case Val::NUL: return "null";
            case Val::BOOL: return v.b ? "true" : "false";
            case Val::SIMPLE: return fmt("%llu", (unsigned long long)v.u);
            case Val::BYTES: { std::string r = "["; for (unsigned char c : v.s) r += fmt("%u,", c); return r + ']'; }
            case Val::ARR: { std::string r = "["; for (const auto& e : v.a) r += plain_key(e) + ','; return r + ']'; }
            case Val::MAP: { std::string r = "{"; for (const auto& e : v.a) r += plain_key(e) + ','; return r + '}'; }
        }
        return "";
    }
    bool collides(const Val& v) {
        if (v.k == Val::MAP) { std::vector<std::string> ks; for (size_t i = 0; i + 1 < v.a.size(); i += 2) ks.push_back(plain_key(v.a[i])); std::sort(ks.begin(), ks.end()); if (std::adjacent_find(ks.begin(), ks.end()) != ks.end()) return true; }
        for (const Val& e : v.a) if (collides(e)) return true;
        return false;
    }

    const std::vector<Op*>& all() { static const std::vector<Op*> v = zoo::select(NODE, 0); return v; }
    std::vector<Op*> of_type(const char* t) { std::vector<Op*> v; for (Op* o : all()) if (!strcmp(o->type, t)) v.push_back(o); return v; }
    std::vector<Op*> of_fmt(Fmt f) { std::vector<Op*> v; for (Op* o : all()) if (o->f == f) v.push_back(o); return v; }
}

SIM_ENGINE(P11, chain, 1) {
    std::vector<Op*> v; for (Op* o : all()) if (o->f == F_CBOR) v.push_back(o);
    const Op* o = &zoo::pick(s, v);
    Val cur; std::unique_ptr<Obj> a(new Obj(*o)); s.context("gen %s", id(*o).c_str()); o->gen(s, a->p); cur = o->to(a->p);
    Val const first = cur; std::string path = fmt("%s", o->type);
    if (collides(cur)) { s.probe("keys may collide"); return; }
    s.ev("%s: %s", o->type, sim::show(cur).c_str()); bool const faulty = s.draw(2);
    unsigned const hops = 1 + s.size(11);
    for (unsigned n = 0; n != hops; ++n) {
        std::vector<Op*> ws = of_type(o->type);
        if (special(cur)) { ws.clear(); for (Op* w : of_type(o->type)) if (w->f == F_CBOR) ws.push_back(w); } // text has no such numbers
        const Op& w = *ws[s.draw((uint32_t)ws.size())];
        auto const at = [&](const Op* r) { return fmt("hop %u: %s -> %s%s%s: %s", n + 1, path.c_str(), sim::name(w.f), r ? " -> " : "", r ? r->type : "", sim::show(cur).c_str()); };
        // the sender
        std::string doc;
        for (bool done = false; !done; ) {
            SinkPlan pl; sim::SinkKind k = s.pick(zoo::sinks(w)); if (k == W_RANGE || k == W_FRANGE || k == W_GOOD) k = W_STR;
            bool const fail = faulty && s.chance(1, 4);
            heap::begin();
            if (fail) { if (s.draw(2)) heap::fail_at(1 + s.draw(8)); else pl.refuse_at = s.draw(doc.empty() ? 64 : (uint32_t)doc.size()), k = k == W_STR ? W_APPEND : k; }
            WriteRes const r = write(w, k, *a, pl); bool const fired = heap::fired(); heap::fail_at(0); heap::end(); s.check();
            if (fired) s.fault("allocation failure (writer)");
            Val const now = w.to(a->p);
            if (!(now == cur)) bad("the writer changes the value: " + id(w), "%s: is %s now", at(nullptr).c_str(), sim::show(now).c_str());
            if (fired || r.refused) { s.ev("hop %u: the sender fails and starts again", n + 1); continue; }
            if (!r.ok) bad("not written: " + id(w), "%s: error %d %s", at(nullptr).c_str(), r.ec, r.what.c_str());
            if (!doc.empty() && doc != r.bytes) bad("a repeated write gives other bytes: " + id(w), "%s: %s, then %s", at(nullptr).c_str(), hex(doc).c_str(), hex(r.bytes).c_str());
            doc = r.bytes; done = true;
            if (faulty && s.chance(1, 8)) { s.fault("sender restarts after sending"); done = false; }
        }
        // the receiver
        std::vector<Op*> rs = of_fmt(w.f); const Op& r = *rs[s.draw((uint32_t)rs.size())];
        Hop const h = { w.vf(), is_cbor(r), eng::ordered(w) && eng::ordered(r) };
        s.ev("hop %u: %s -> %s: %s", n + 1, sim::name(w.f), r.type, hex(doc).c_str()); s.mix(doc.data(), doc.size());
        std::unique_ptr<Obj> b;
        for (bool done = false; !done; ) {
            Src const k = s.pick(zoo::sources(r)); if (k == LPTR) continue;
            if (!b || s.draw(2)) b.reset(new Obj(r)); else r.clear(b->p); // a restart, or a cleaned target
            std::string part = doc; bool cut = false;
            if (faulty && s.chance(1, 6) && doc.size() > 1 && !cut) { size_t const c = s.draw((uint32_t)doc.size()); part = doc.substr(0, c); cut = true; s.fault("message cut, sent again"); }
            Source src(part);
            bool const fail = faulty && !cut && s.chance(1, 4); heap::begin();
            if (fail) { if (s.draw(2) || k == PTR || k == STR) heap::fail_at(1 + s.draw(12)); else src.throw_at = 1 + s.draw((uint32_t)doc.size() * 4); }
            for (size_t i = s.draw(4); i; --i) src.pieces.push_back(1 + s.draw(9));
            ReadRes const x = read(r, k, *b, src); bool const fired = heap::fired(); heap::fail_at(0); heap::end(); s.check();
            if (fired) s.fault("allocation failure (reader)");
            if (cut) { // a number cut short is still a number: the receiver knows the length of the message
                continue;
            }
            if (fired || src.threw) { if (x.ok) bad("swallowed: " + id(r), "%s: %s", at(&r).c_str(), show(x).c_str()); continue; }
            if (!x.ok) bad("not read: " + id(r), "%s: %s: %s", at(&r).c_str(), hex(doc).c_str(), show(x).c_str());
            if ((size_t)x.end != doc.size()) bad("end: " + id(r), "%s: %s: %s", at(&r).c_str(), hex(doc).c_str(), show(x).c_str());
            Val const got = r.to(b->p); std::string why;
            if (!carries(cur, got, h, why)) bad("content: " + id(w) + " -> " + r.type, "%s: %s: reads %s (%s)", at(&r).c_str(), hex(doc).c_str(), sim::show(got).c_str(), why.c_str());
            if (faulty && s.chance(1, 8)) { s.fault("receiver restarts after receiving"); continue; }
            cur = got; done = true;
        }
        a = std::move(b); o = &r; path += fmt(" -%s-> %s", sim::name(w.f), r.type);
        s.state(hash_bytes(doc.data(), doc.size(), hash_bytes(path.data(), path.size())));
        if (collides(cur)) { s.probe("keys may collide"); break; }
    }
    s.nontrivial = true; s.sample(path + ": " + sim::show(first));
}
