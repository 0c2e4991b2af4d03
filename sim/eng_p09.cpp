// P09: a log of concatenated documents is recovered exactly up to the torn tail
#include "eng.hxx"
#include <memory>
using namespace eng;

static const std::vector<Op*>& all(Fmt f) {
    static std::vector<Op*> v[8];
    if (v[f].empty()) for (Op* o : zoo::select(0, BARE | RAWPTR | NOEQ, f)) v[f].push_back(o);
    return v[f];
}
static const Fmt fmts[] = { F_JSON, F_CBOR, F_CXCF };

namespace {
    // one file: what is stored, how much of it survives a crash, how much there is room for, when the machine stops
    struct Disk : SinkHook {
        Sim& s; std::string file; size_t durable = 0, room = ~(size_t)0; uint64_t written = 0, crash_at = ~0ull; bool dead = false;
        explicit Disk(Sim& s) : s(s) {}
        bool put(const char* p, size_t n) override {
            for (size_t i = 0; i != n; ++i) {
                if (dead) return false;                             // nobody is there any more
                if (written == crash_at) { dead = true; s.fault("crash while writing"); return false; }
                if (file.size() >= room) { s.fault("disk full"); return false; }
                file += p[i]; ++written;
            }
            return true;
        }
        void sync() { if (!dead) durable = file.size(); }
        void crash() {                                              // a prefix of what was not synced survives
            if (!dead) s.fault("crash between documents");
            size_t const tail = file.size() - durable, keep = s.draw(4) ? s.draw((uint32_t)tail + 1) : tail;
            if (keep != tail) s.fault("unsynced bytes lost", tail - keep);
            file.resize(durable + keep); dead = false; crash_at = ~0ull;
        }
    };
    struct Doc { Doc() = default; Doc(Doc&&) = default; Doc& operator =(Doc&&) = default; const Op* o; std::unique_ptr<Obj> v; std::string bytes; bool delim; size_t at; }; // at: where it begins in the file
}

static Doc make(Sim& s, Fmt f, const Op* same) {
    Doc d; d.o = same ? same : &zoo::pick(s, all(f)); s.context("gen %s", id(*d.o).c_str());
    d.v.reset(new Obj(*d.o)); d.o->gen(s, d.v->p); d.bytes = eng::write(*d.o, *d.v).bytes; s.check();
    d.delim = f == F_CBOR || (!d.bytes.empty() && strchr("\"[{tfn", d.bytes[0])); d.at = 0;
    return d;
}
// true: stored as a whole (if the machine has not stopped)
static bool append(Sim& s, Disk& disk, Doc& d) {
    std::vector<SinkKind> const ks = zoo::sinks(*d.o); SinkKind const k = s.pick(ks); SinkPlan pl; pl.hook = &disk; d.at = disk.file.size();
    if (k == W_RANGE) { // a mapped file
        size_t const left = disk.room - disk.file.size(), want = d.bytes.size(); pl.hook = nullptr; pl.capacity = left < want + 16 ? left : want + s.draw(16);
        WriteRes const w = eng::write(*d.o, k, *d.v, pl); s.check();
        if (pl.capacity < want) { if (w.ok) bad("full disk not reported: " + id(*d.o), "%s into %zu bytes", hex(d.bytes).c_str(), pl.capacity); s.fault("disk full"); return false; }
        if (!w.ok || (size_t)w.end != want) bad("write fails: " + id(*d.o), "%s into %zu bytes: error %d, end %ld", hex(d.bytes).c_str(), pl.capacity, w.ec, w.end);
        if (!disk.put(w.bytes.data(), w.end)) return false;
    }
    else {
        WriteRes const w = eng::write(*d.o, k, *d.v, pl); s.check();
        if (k == W_STR) { if (!disk.put(w.bytes.data(), w.bytes.size())) return false; }
        else if (w.bytes != d.bytes || w.refused) {
            if (disk.dead) return false;
            if (w.refused && w.ok) bad("full disk not reported: " + id(*d.o), "%s to %s: %s", hex(d.bytes).c_str(), sim::name(k), hex(w.bytes).c_str());
            if (!w.refused) bad("other bytes: " + id(*d.o), "%s to %s: %s", hex(d.bytes).c_str(), sim::name(k), hex(w.bytes).c_str());
            return false;
        }
        else if (!w.ok) bad("write fails: " + id(*d.o), "%s to %s: error %d %s", hex(d.bytes).c_str(), sim::name(k), w.ec, w.what.c_str());
    }
    return d.delim || disk.put("\n", 1);
}

// reads the log from its beginning; docs: everything that was ever appended after the last recovery, in order
static size_t recover(Sim& s, const std::string& file, std::vector<Doc>& docs, size_t& end) {
    size_t n = 0, at = 0; unsigned retries = 0; bool const stream = s.draw(2); Src const sk = s.draw(2) ? STREAM : SBUF;
    Source one(file); one.pieces.assign(1, 1 + s.draw(64));
    size_t const same = s.draw(2); Src const k0 = (Src)s.draw(SRC_N);
    for (;;) {
        
        if (at == file.size()) break;
        if (n == docs.size()) bad("more documents than were written", "%zu, and %s", n, hex(file.substr(at)).c_str());
        Doc& d = docs[n]; Obj t(*d.o); ReadRes r; size_t next; std::string how;
        uint64_t const fault = retries < 2 && s.chance(1, 10) ? 1 + s.draw(2) : 0; uint64_t const when = fault ? 1 + s.draw(30) : 0;
        bool fired = false;
        if (stream) {
            one.cur = at; one.accesses = 0; one.throw_at = fault == 1 ? when : 0; one.threw = false;
            if (fault == 2) heap::fail_at(when);
            r = eng::read(*d.o, sk, t, one); fired = one.threw || heap::fired(); heap::fail_at(0); next = one.cur; how = zoo::name(sk); one.throw_at = 0;
        }
        else {
            std::vector<Src> ss = zoo::sources(*d.o); Src k = s.pick(ss); if (same && d.o->read[k0]) k = k0;
            Source src(file.substr(at)); src.pieces.assign(1, 1 + s.draw(64)); src.throw_at = fault == 1 ? when : 0;
            if (fault == 2) heap::fail_at(when);
            r = eng::read(*d.o, k, t, src); fired = src.threw || heap::fired(); heap::fail_at(0); how = zoo::name(k);
            if (!r.threw && r.end < 0) bad("end: " + id(*d.o), "from %s: %s: the end is not inside", how.c_str(), hex(file.substr(at)).c_str());
            next = at + (size_t)(r.end < 0 ? 0 : r.end);
        }
        s.check();
        bool const whole = d.at + d.bytes.size() + !d.delim <= file.size();
        auto const msg = [&] { return fmt("document %zu: %s from %s: %s at %zu of %zu bytes, %s: %s", n, id(*d.o).c_str(), how.c_str(), hex(d.bytes).c_str(), at, file.size(), whole ? "whole" : "torn", show(r).c_str()); };
        if (d.at != at) bad("position: " + id(*d.o), "%s: it begins at %zu", msg().c_str(), d.at);
        if (r.threw) { if (!fired) bad("throws: " + id(*d.o), "%s", msg().c_str()); s.fault(fault == 1 ? "read error, read again" : "allocation failure, read again"); ++retries; continue; } // from where the last one ended
        retries = 0;
        if (!r.ok) { if (whole) bad("lost: " + id(*d.o), "%s", msg().c_str()); s.probe("torn document reported"); break; }
        if (!d.delim) { if (next >= file.size()) { if (whole) bad("position: " + id(*d.o), "%s", msg().c_str()); s.probe("number without its terminator"); break; } if (file[next] != '\n') { if (whole) bad("position: " + id(*d.o), "%s", msg().c_str()); s.probe("number without its terminator"); break; } ++next; }
        if (!whole) bad("torn document accepted: " + id(*d.o), "%s, value %s", msg().c_str(), sim::show(d.o->to(t.p)).c_str());
        if (!d.o->eq(t.p, d.v->p)) bad("changed: " + id(*d.o), "%s, value %s", msg().c_str(), sim::show(d.o->to(t.p)).c_str());
        ++n; at = next;
    }
    end = at; return n;
}

SIM_ENGINE(P09, log, 1) {
    Fmt const f = fmts[s.draw(3)]; const Op* const one = s.draw(2) ? &zoo::pick(s, all(f)) : nullptr;
    Disk disk(s); std::vector<Doc> docs; unsigned const lives = 1 + s.draw(4); size_t synced = 0; unsigned torn = 0;
    heap::begin();
    for (unsigned life = 0; life != lives; ++life) {
        unsigned const n = s.draw(6), every = 1 + s.draw(3);
        if (s.draw(2)) disk.crash_at = disk.written + s.draw(200);
        if (s.chance(1, 4)) disk.room = disk.file.size() + s.draw(100);
        for (unsigned i = 0; i != n && !disk.dead; ++i) {
            docs.push_back(make(s, f, one)); Doc& d = docs.back();
            bool const ok = append(s, disk, d);
            s.ev("append %s: %s: %s, %zu bytes", id(*d.o).c_str(), hex(d.bytes).c_str(), disk.dead ? "crash" : ok ? "stored" : "refused", disk.file.size()); s.mix(d.bytes.data(), d.bytes.size());
            if (disk.dead) break;
            if (!ok) { disk.file.resize(d.at); if (disk.durable > d.at) disk.durable = d.at; docs.pop_back(); disk.room = ~(size_t)0; s.fault("room is made"); continue; } // taken back, reported
            if ((i + 1) % every == 0) disk.sync(), synced = docs.size();
        }
        disk.crash(); disk.room = ~(size_t)0;
        size_t end = 0; size_t const got = recover(s, disk.file, docs, end);
        s.ev("recovered %zu of %zu (%zu synced), %zu of %zu bytes", got, docs.size(), synced, end, disk.file.size());
        if (got < synced) bad("synced documents lost", "%zu of %zu", got, synced);
        size_t whole = 0; for (auto& d : docs) if (d.at + d.bytes.size() + !d.delim <= disk.file.size()) ++whole;
        if (got != whole) bad("documents recovered", "%zu, stored as a whole %zu", got, whole);
        if (end != disk.file.size()) ++torn;
        disk.file.resize(end); disk.durable = end; docs.resize(got); synced = got;     // the torn tail is cut off
        s.state(hash_bytes(disk.file.data(), disk.file.size()));
    }
    s.nontrivial = docs.size() > 1 || torn; s.sample(fmt("%u lives, %zu documents, %u torn, %zu bytes: %s", lives, docs.size(), torn, disk.file.size(), hex(disk.file, 60).c_str()));
    heap::end();
}
