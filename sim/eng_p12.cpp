// P12: threads that use separate values, or write one shared constant value, do not interfere
#include "eng.hxx"
#include "sched.hxx"
#include "msg.hxx"
#include <memory>
using namespace eng;

static const std::vector<Op*>& all() { static const std::vector<Op*> v = zoo::select(0, RAWPTR); return v; }

namespace {
    enum Kind { READ, WRITE, SHARED, MESSAGE };
    struct Job {
        Kind kind; const Op* o; const Obj* shared = nullptr; std::unique_ptr<Obj> own;
        std::string doc; Src src = PTR; uint64_t throw_at = 0, fail_at = 0; std::vector<uint32_t> pieces;
        SinkKind sink = W_STR; SinkPlan plan;
        std::string got[2]; Val val[2]; bool has = false; // together, alone
    };
}

static void perform(Job& j, int way) {
    std::string r;
    if (j.kind == MESSAGE) { heap::Scope sc; std::string const m = msg::message(j.o->f, (msg::Of)(j.fail_at % 3), (int)j.throw_at); heap::Pause hp; r = std::string(m.data(), m.size()); }
    else if (j.kind == READ) {
        Obj t(*j.o); Source src(j.doc); src.throw_at = j.throw_at; src.pieces = j.pieces;
        if (j.fail_at) heap::fail_at(j.fail_at);
        ReadRes const x = eng::read(*j.o, j.src, t, src);
        heap::fail_at(0);
        r = show(x); if (x.ok) j.val[way] = j.o->to(t.p), j.has = true;
    }
    else {
        const Obj& t = j.kind == SHARED ? *j.shared : *j.own;
        if (j.fail_at) heap::fail_at(j.fail_at);
        WriteRes const x = eng::write(*j.o, j.sink, t, j.plan);
        heap::fail_at(0);
        r = fmt("%s%s%d %s %s", x.ok ? "ok" : "not ok", x.threw ? " threw " : " ", x.ec, x.what.c_str(), hex(x.bytes, 100000).c_str());
    }
    j.got[way] = r;
}
static std::string describe(const Job& j) {
    static const char* const ks[] = { "read", "write", "write shared", "message" };
    if (j.kind == MESSAGE) return "message";
    return fmt("%s %s %s%s%s", ks[j.kind], id(*j.o).c_str(), j.kind == READ ? zoo::name(j.src) : sim::name(j.sink), j.throw_at ? " (source fails)" : "", j.fail_at ? " (allocation fails)" : "");
}

SIM_ENGINE(P12, threads, 1) {
    heap::begin(); uint64_t live = 0;
    {
        // few types, so that threads meet in the same code
        std::vector<const Op*> ops; for (unsigned n = 1 + s.draw(2); n--; ) ops.push_back(&zoo::pick(s, all()));
        std::vector<std::unique_ptr<Obj>> shared;
        for (auto o : ops) { s.context("gen %s", id(*o).c_str()); shared.emplace_back(new Obj(*o)); o->gen(s, shared.back()->p); }
        unsigned const nt = 2 + s.draw(3);
        std::vector<std::vector<Job>> jobs(nt);
        for (auto& js : jobs) {
            unsigned n = 1 + s.draw(3);
            while (n--) {
                js.emplace_back(); Job& j = js.back(); unsigned const k = s.draw((uint32_t)ops.size());
                j.o = ops[k]; j.kind = s.chance(1, 12) ? MESSAGE : (Kind)s.draw(3);
                if (j.kind == MESSAGE) { j.fail_at = s.draw(3); j.throw_at = s.draw(12); continue; }
                std::vector<SinkKind> const ss = zoo::sinks(*j.o);
                if (j.kind == SHARED) j.shared = shared[k].get();
                else {
                    s.context("gen %s", id(*j.o).c_str()); j.own.reset(new Obj(*j.o)); j.o->gen(s, j.own->p);
                    if (j.kind == READ) {
                        std::vector<Src> const rs = zoo::sources(*j.o); j.src = s.pick(rs);
                        if ((j.o->flags & NOVARIETY) || s.draw(2)) j.doc = eng::write(*j.o, *j.own).bytes;
                        else j.doc = ref_encode(s, *j.o, j.o->to(j.own->p), s.draw(j.o->tags() + 1) | j.o->ef());
                        if (s.chance(1, 4)) sim::damage(s, j.doc, j.o->f, 1 + s.draw(2));
                        if (j.src != PTR && j.src != STR && s.chance(1, 6)) j.throw_at = 1 + s.draw(40);
                        if (j.src == SBUF) j.pieces.assign(1, 1 + s.draw(8));
                    }
                }
                if (j.kind != READ) {
                    j.sink = s.pick(ss);
                    if (j.sink == W_RANGE) { uint64_t const n = eng::write(*j.o, j.kind == SHARED ? *j.shared : *j.own).bytes.size(); j.plan.capacity = s.draw(2) ? n : s.draw((uint32_t)n + 1); }
                    else if (j.sink != W_STR && j.sink != W_INDENT && s.chance(1, 4)) j.plan.refuse_at = s.draw(40);
                }
                if (s.chance(1, 6)) j.fail_at = 1 + s.draw(6);
                s.check();
                s.ev("thread %d: %s: %s", (int)(&js - &jobs[0]), describe(j).c_str(), hex(j.doc).c_str()); s.mix(j.doc.data(), j.doc.size());
            }
        }
        if (s.trace_) for (auto& x : shared) s.ev("shared %s: %s", id(x->o).c_str(), sim::show(x->o.to(x->p)).c_str());
        std::vector<std::function<void()>> tasks;
        for (auto& js : jobs) tasks.push_back([&js] { for (auto& j : js) perform(j, 0); });
        unsigned const pre = s.draw(4);
        sched::Stats const st = sched::run(s, tasks, pre);
        s.fault("preemption", st.preemptions); s.probe("scheduling points", st.points); s.probe("switches", st.switches);
        s.nontrivial = st.preemptions > 0; s.sample(fmt("%u threads, first: %s, %llu preemptions", nt, describe(jobs[0][0]).c_str(), (unsigned long long)st.preemptions));
        s.check();
        if (st.deadlock) bad("deadlock", "%s", st.stuck.c_str());
        for (auto& js : jobs) for (auto& j : js) {
            perform(j, 1); s.check();
            if (j.kind == MESSAGE) { if (j.got[0] != j.got[1]) bad("interference: message", "together: %s\nalone: %s", j.got[0].c_str(), j.got[1].c_str()); continue; }
            if (j.throw_at) s.fault("source exception in one thread");
            if (j.fail_at) s.fault("allocation failure in one thread");
            if (j.plan.refuse_at != ~0ull) s.fault("sink refuses in one thread");
            s.state(hash_bytes(j.got[0].data(), j.got[0].size()));
            if (j.got[0] != j.got[1]) bad("interference: " + describe(j), "together: %s\nalone: %s", j.got[0].c_str(), j.got[1].c_str());
            if (j.has && !sim::same(j.val[1], j.val[0], j.o->vf(), ordered(*j.o))) bad("interference: " + describe(j), "together: %s\nalone: %s", sim::show(j.val[0]).c_str(), sim::show(j.val[1]).c_str());
        }
    }
    live = heap::stats().live; heap::end();
    if (live) s.probe("blocks not freed", live); // the domain of P05
}
