// P05: a read interrupted by an exception leaks nothing and leaves targets usable
#include "eng.hxx"
using namespace eng;

static const std::vector<Op*>& all() { static const std::vector<Op*> v = zoo::select(0, 0); return v; }

static std::string document(Sim& s, const Op& o, const Obj& a) {
    if ((o.flags & NOVARIETY) || s.draw(2)) { WriteRes const w = write(o, a); s.check(); return w.bytes; }
    return ref_encode(s, o, o.to(a.p), s.draw(o.tags() + 1) | o.ef());
}
static bool checked(Src k) { return k == RA || k == FWD || k == BIDI || k == STREAM || k == SBUF; }

enum How { ALLOC, SOURCE, MEMORY };

// one history of a target: filled, read into with a fault, cleaned, read into again
static void history(Sim& s, const Op& o, Src k, const std::string& first, const std::string& doc, const ReadRes& r0, const Obj* want, How how, uint64_t at, bool again, bool assign) {
    static const char* const hows[] = { "allocation", "source access", "memory" };
    auto const where = [&] { return fmt("%s from %s: %s fails at %s %llu%s", id(o).c_str(), zoo::name(k), hex(doc).c_str(), hows[how], (unsigned long long)at, first.empty() ? "" : (", the target is read from " + hex(first)).c_str()); };
    ReadRes r; uint64_t before = 0, live; bool fired = false;
    {
        heap::begin();
        Obj b(o);
        if (!first.empty()) { Source src(first); read(o, k, b, src); s.check(); }
        before = heap::stats().live;
        Source src(doc);
        if (how == ALLOC) heap::fail_at(at);
        if (how == SOURCE) src.throw_at = at;
        if (how == MEMORY) heap::limit(heap::stats().live_bytes + at);
        r = read(o, k, b, src);
        fired = how == SOURCE ? src.threw : heap::fired();
        heap::fail_at(0); heap::limit(0);
        s.check();
        if (fired && how != SOURCE) s.fault(how == ALLOC ? "allocation failure" : "memory exhausted");
        if (fired && how != SOURCE && !r.bad_alloc) bad("swallowed: " + id(o), "%s: %s", where().c_str(), show(r).c_str());
        if (fired && how == SOURCE && !r.source_error) bad("swallowed: " + id(o), "%s: %s", where().c_str(), show(r).c_str());
        if (!fired && r.threw) bad("throws: " + id(o), "%s: %s", where().c_str(), show(r).c_str());
        s.probe(fired ? "interrupted" : "fault not reached");
        if (again) {
            if (assign) o.clear(b.p);
            s.context("read again %s from %s", id(o).c_str(), zoo::name(k));
            if (assign) {
                Source s2(doc); ReadRes const q = read(o, k, b, s2); s.check();
                if (q.ok != r0.ok || q.threw || q.ec != r0.ec || q.end != r0.end) bad("not usable: " + id(o), "%s: reading again: %s, not %s", where().c_str(), show(q).c_str(), show(r0).c_str());
                if (want && q.ok && !o.eq(b.p, want->p)) bad("not usable: " + id(o), "%s: reading again: %s, not %s", where().c_str(), sim::show(o.to(b.p)).c_str(), sim::show(o.to(want->p)).c_str());
                s.probe("read again");
            }
            else { Source s2(doc); read(o, k, b, s2); s.check(); s.probe("read again without cleaning"); } // whatever it gives, it is valid
        }
        s.context("destroy %s read from %s", id(o).c_str(), zoo::name(k));
    }
    live = heap::stats().live; uint64_t const bytes = heap::stats().live_bytes; heap::end();
    s.check();
    (void)before;
    if (live && how == SOURCE && strstr(o.type, "boost::string")) { s.probe("boost::container::string leaks when an iterator given to insert throws"); return; }
    if (live) bad("leak: " + id(o), "%s: %llu blocks (%llu bytes) are never freed", where().c_str(), (unsigned long long)live, (unsigned long long)bytes);
}

static void go(Sim& s, const Op& o, bool damaged) {
    s.context("gen %s", id(o).c_str());
    Obj a(o); o.gen(s, a.p);
    std::string doc = document(s, o, a);
    if (damaged) sim::damage(s, doc, o.f, 1 + s.draw(2));
    std::string first;
    if (!(o.flags & RAWPTR) && s.chance(1, 3)) { Obj c(o); s.context("gen %s", id(o).c_str()); o.gen(s, c.p); first = document(s, o, c); }
    Src const k = s.pick(zoo::sources(o));
    s.ev("%s from %s: %s", id(o).c_str(), zoo::name(k), hex(doc).c_str()); s.mix(doc.data(), doc.size());
    s.sample(fmt("%s from %s: %s", id(o).c_str(), zoo::name(k), hex(doc).c_str()));
    s.state(hash_bytes(doc.data(), doc.size(), hash_bytes(o.type, strlen(o.type), k)));
    // the undisturbed read counts the points at which a fault can strike
    Obj want(o); ReadRes r0; uint64_t allocs, accesses, total;
    {
        Source src(doc); heap::begin(); r0 = read(o, k, want, src);
        heap::Stats const st = heap::stats(); heap::end();
        allocs = st.allocs; accesses = src.accesses; total = st.peak_bytes; s.check();
        if (r0.threw) bad("throws: " + id(o), "%s from %s: %s: %s", id(o).c_str(), zoo::name(k), hex(doc).c_str(), show(r0).c_str());
    }
    { // and without any fault nothing leaks either
        history(s, o, k, first, doc, r0, nullptr, ALLOC, 0, false, false);
        if (!r0.ok) s.probe("failing document");
    }
    if (!first.empty()) allocs += 4, accesses += 8;
    s.nontrivial = allocs || (checked(k) && accesses);
    unsigned n = 1 + s.draw(6);
    while (n--) {
        How how = allocs ? (checked(k) && s.chance(1, 3) ? SOURCE : s.chance(1, 8) ? MEMORY : ALLOC) : SOURCE;
        if (how == SOURCE && !(checked(k) && accesses)) { s.probe("nothing can fail"); break; }
        uint64_t const m = how == ALLOC ? allocs : how == SOURCE ? accesses : total + 1;
        uint64_t at = how == MEMORY ? s.draw((uint32_t)std::min<uint64_t>(m, 1u << 30)) : 1 + s.draw((uint32_t)std::min<uint64_t>(m, 1u << 30));
        bool const again = s.draw(3), assign = (o.flags & RAWPTR) || !s.chance(1, 4); // a plain pointer does not own what it points to
        s.ev("%s %llu fails%s", how == ALLOC ? "allocation" : how == SOURCE ? "access" : "memory after", (unsigned long long)at, again ? assign ? ", clean, read again" : ", read again" : "");
        history(s, o, k, first, doc, r0, o.flags & NOEQ ? nullptr : &want, how, at, again, assign);
    }
}

SIM_ENGINE(P05, complete, 4) { go(s, zoo::pick(s, all()), false); }
SIM_ENGINE(P05, damaged, 2) { go(s, zoo::pick(s, all()), true); }
