// P23: what takes its memory from an allocator takes all of it from there, and gives all of it back
#include "eng.hxx"
#include <algorithm>
#include <cstring>
#include <memory>
#include "mem.hxx"
using namespace eng;

namespace sim { static Res everyday("the heap"); Res* alloc_default = &everyday; }
namespace mem { AOp* aops = nullptr; Ptr* ptrs = nullptr; }
using mem::AOp; using sim::Res;

// strings long enough to need memory
static void lengthen(Sim& s, Val& v) {
    for (auto& e : v.a) lengthen(s, e);
    if ((v.k == Val::STR || v.k == Val::BYTES) && s.draw(2)) v.s += std::string(16 + s.draw(9), 'z');
}
static std::string document(Sim& s, const Op& o) {
    s.context("gen %s", id(o).c_str());
    Obj a(o); o.gen(s, a.p); Val v = o.to(a.p); lengthen(s, v);
    std::string d = ref_encode(s, o, v, s.draw(o.tags() + 1) | o.ef());
    if (s.chance(1, 5)) sim::damage(s, d, o.f, 1);
    return d;
}

enum { RES = 3, DEF = 3 };
struct Slot {
    const AOp& o; void* p; int r; bool known; std::unique_ptr<Obj> twin;
    Slot(const AOp& o, int r) : o(o), p(aligned_alloc(std::max(o.align, alignof(std::max_align_t)), (o.op->size + 63) / 64 * 64)), r(r), known(true), twin(new Obj(*o.op)) {}
    ~Slot() { free(p); }
};
struct Run {
    Sim& s; const AOp& o; Res d; std::unique_ptr<Res> r[RES]; std::vector<std::unique_ptr<Slot>> v; bool failed = false, lost = false; std::string did;
    Run(Sim& s, const AOp& o) : s(s), o(o), d("the default resource") { static const char* const n[] = { "resource 0", "resource 1", "resource 2" }; for (int i = 0; i != RES; ++i) r[i].reset(new Res(n[i])); }
    Res& res(int i) { return i == DEF ? d : *r[i]; }
    // runs f; memory may be taken from the resources of the mask only
    static void off() { std::pmr::set_default_resource(nullptr); sim::alloc_default = &sim::everyday; }
    template <typename F> bool step(unsigned may, F f) {
        uint64_t was[RES + 1]; for (int i = 0; i <= RES; ++i) was[i] = res(i).taken, res(i).fired = false;
        int victim = -1;
        if (s.chance(1, 4)) {
            std::vector<int> m; for (int i = 0; i <= RES; ++i) if (may & (1u << i)) m.push_back(i);
            if (!m.empty()) { victim = s.pick(m); if (s.draw(2)) res(victim).cap = res(victim).bytes + s.draw(200); else res(victim).fail = 1 + s.draw(12); s.ev("%s runs out of memory soon", res(victim).name); }
        }
        s.context("%s: %s", id(*o.op).c_str(), did.c_str()); s.step_limit = s.steps_ + 4000000; s.ops();
        bool threw = false;
        std::pmr::set_default_resource(&d); sim::alloc_default = &d;
        try { f(); } catch (const std::bad_alloc&) { threw = true; } catch (...) { off(); throw; }
        off();
        bool fired = false;
        for (int i = 0; i <= RES; ++i) { fired = fired || res(i).fired; res(i).cap = res(i).fail = 0; }
        s.check();
        for (int i = 0; i <= RES; ++i) if (!(may & (1u << i)) && res(i).taken != was[i]) bad("taken elsewhere: " + id(*o.op), "%s: %llu blocks are taken from %s", did.c_str(), (unsigned long long)(res(i).taken - was[i]), res(i).name);
        if (fired) s.fault("out of memory"), failed = true;
        if (fired != threw) bad((fired ? "swallowed: " : "throws: ") + id(*o.op), "%s", did.c_str());
        return threw;
    }
    void look() {
        off();
        for (size_t i = 0; i != v.size(); ++i) {
            Slot& x = *v[i]; s.context("%s: %s, then slot %zu is looked at", id(*o.op).c_str(), did.c_str(), i);
            if (Res* f = o.passes ? nullptr : o.foreign(x.p, &res(x.r))) bad("foreign part: " + id(*o.op), "%s: slot %zu of %s has a part of %s", did.c_str(), i, res(x.r).name, f == (void*)std::pmr::new_delete_resource() ? "the heap" : f->name);
            if (x.known && !o.op->eq(x.p, x.twin->p)) bad("other content: " + id(*o.op), "%s: slot %zu: %s, not %s", did.c_str(), i, sim::show(o.op->to(x.p)).c_str(), sim::show(o.op->to(x.twin->p)).c_str());
        }
        s.check();
    }
    void drop(size_t i) {
        int const k = v[i]->r;
        did = fmt("slot %zu is destroyed", i); s.ev("%s", did.c_str());
        step(0, [&] { o.destroy(v[i]->p); });
        v.erase(v.begin() + (long)i);
        for (auto& x : v) if (x->r == k) return;
        if (!res(k).live.empty()) bad((failed ? "leak after failure: " : "leak: ") + id(*o.op), "%s: nothing is left of %s, but %zu blocks (%llu bytes)", did.c_str(), res(k).name, res(k).live.size(), (unsigned long long)res(k).bytes);
        if (k != DEF && s.draw(2)) { res(k).gone = true; r[k]->live.clear(); s.ev("%s is gone", res(k).name); static const char* const n[] = { "resource 0", "resource 1", "resource 2" }; old.push_back(std::move(r[k])); r[k].reset(new Res(n[k])); }
    }
    std::vector<std::unique_ptr<Res>> old;
    void go() {
        bool const node = o.node;
        unsigned n = 2 + (unsigned)s.size(node ? 14 : 6);
        while (n--) {
            unsigned const what = s.draw(node ? 10 : 4);
            if (v.empty() || (what == 0 && v.size() < 4)) {
                int const k = (int)s.draw(RES); did = fmt("slot %zu is made on %s", v.size(), res(k).name); s.ev("%s", did.c_str());
                std::unique_ptr<Slot> x(new Slot(o, k));
                if (!step(1u << k, [&] { o.make(x->p, &res(k)); })) v.push_back(std::move(x));
                look(); continue;
            }
            size_t const i = s.draw((uint32_t)v.size()), j = s.draw((uint32_t)v.size()); Slot &x = *v[i], &y = *v[j];
            switch (what) {
                case 0: case 1: {
                    std::string const doc = document(s, *o.op); Src const k = s.pick(zoo::sources(*o.op));
                    did = fmt("slot %zu of %s reads %s from %s", i, res(x.r).name, hex(doc).c_str(), zoo::name(k)); s.ev("%s", did.c_str()); s.mix(doc.data(), doc.size());
                    ReadRes t; { Source src(doc); t = read(*o.op, k, *x.twin, src); } s.check();
                    ReadRes q; Source src(doc);
                    bool const threw = step(1u << x.r, [&] { q = o.op->read[k](x.p, src); if (q.bad_alloc) throw std::bad_alloc(); });
                    if (!threw && (q.ok != t.ok || q.ec != t.ec || q.end != t.end || q.threw != t.threw) && x.known) bad("other result: " + id(*o.op), "%s: %s, not %s", did.c_str(), show(q).c_str(), show(t).c_str());
                    if (threw || !q.ok) x.known = false;
                    if (q.ok) s.nontrivial = true;
                    break; }
                case 2: {
                    int const k = (int)s.draw(RES); did = fmt("slot %zu of %s is written to a string of %s", i, res(x.r).name, res(k).name); s.ev("%s", did.c_str());
                    bool ok = true; if (!step(1u << k, [&] { ok = o.text(x.p, &res(k)); }) && !ok) s.probe("not written");
                    break; }
                case 3: drop(i); look(); continue;
                case 4: case 5: {
                    if (v.size() == 4) { drop(i); look(); continue; }
                    bool const plain = o.passes || s.chance(1, 3), mv = what == 5; // (containers hand their allocator to what is in them only with pmr)
                    int const k = plain ? mv || o.passes ? x.r : DEF : (int)s.draw(RES);
                    did = fmt("slot %zu is %s from slot %zu of %s %s %s", v.size(), mv ? "moved" : "copied", i, res(x.r).name, plain ? "to" : "with", res(k).name); s.ev("%s", did.c_str());
                    std::unique_ptr<Slot> z(new Slot(o, k)); z->known = x.known; o.assign(z->twin->p, x.twin->p);
                    size_t const was = res(k).live.size();
                    bool const threw = step(1u << k, [&] { if (mv) o.move(z->p, x.p, plain ? nullptr : &res(k)); else o.copy(z->p, x.p, plain ? nullptr : &res(k)); });
                    if (mv) x.known = false;
                    if (!threw) v.push_back(std::move(z));
                    else if (!mv && res(k).live.size() != was) bad("leak after failure: " + id(*o.op), "%s: fails, and %zu blocks are left", did.c_str(), res(k).live.size() - was);
                    break; }
                case 6: case 7: {
                    bool const mv = what == 7;
                    did = fmt("slot %zu of %s is %s to slot %zu of %s", j, res(y.r).name, mv ? "moved" : "copied", i, res(x.r).name); s.ev("%s", did.c_str());
                    bool const known = y.known; if (i != j) o.assign(x.twin->p, y.twin->p);
                    int const k = o.passes ? y.r : x.r;
                    bool const threw = step(1u << k, [&] { if (mv) o.massign(x.p, y.p); else o.assign(x.p, y.p); });
                    if (threw && o.passes) { lost = true; n = 0; break; } // the allocator of the target is not specified
                    x.r = k;
                    if (mv && i != j) y.known = false;
                    x.known = known && !threw && !(mv && i == j);
                    break; }
                case 8: {
                    did = fmt("slot %zu of %s and slot %zu of %s are swapped", i, res(x.r).name, j, res(y.r).name); s.ev("%s", did.c_str());
                    o.swap(x.twin->p, y.twin->p);
                    bool const threw = step(1u << x.r | 1u << y.r, [&] { o.swap(x.p, y.p); });
                    if (threw && o.passes) { lost = true; n = 0; break; }
                    if (o.passes) std::swap(x.r, y.r);
                    std::swap(x.known, y.known); if (threw) x.known = y.known = false;
                    break; }
                case 9: {
                    if (i == j) continue;
                    unsigned const e = s.draw(12); if (o.passes && (e == 1 || e == 2 || e == 6 || e == 9 || (x.r != y.r && (e == 3 || e == 7 || e == 10)))) continue; // containers do not hand their allocator to what is put in; it may come from the other one
                     did = fmt("edit %u of slot %zu of %s with slot %zu of %s", e, i, res(x.r).name, j, res(y.r).name); s.ev("%s", did.c_str());
                    if (!x.known || !y.known) { did += " (content unknown)"; x.known = false; }
                    else o.edit(e, x.twin->p, y.twin->p);
                    if (step(1u << x.r, [&] { o.edit(e, x.p, y.p); })) x.known = false;
                    break; }
            }
            if (lost) break;
            look();
        }
        if (lost) {
            did = "the end after a failed assignment"; s.ev("%s", did.c_str());
            for (auto& x : v) step(0, [&] { o.destroy(x->p); });
            v.clear();
            for (int i = 0; i <= RES; ++i) if (!res(i).live.empty()) bad("leak after failure: " + id(*o.op), "%zu blocks (%llu bytes) of %s are left", res(i).live.size(), (unsigned long long)res(i).bytes, res(i).name);
            return;
        }
        did = "the end";
        while (!v.empty()) drop(s.draw((uint32_t)v.size()));
    }
    ~Run() { off(); }
};

SIM_ENGINE(P23, resources, 3) {
    static const std::vector<AOp*> all = [] { std::vector<AOp*> v; for (AOp* o = mem::aops; o; o = o->next) v.push_back(o); std::sort(v.begin(), v.end(), [](AOp* a, AOp* b) { int c = strcmp(a->op->type, b->op->type); return c ? c < 0 : a->op->f < b->op->f; }); return v; }();
    static const std::vector<AOp*> nodes = [] { std::vector<AOp*> v; for (AOp* o : all) if (o->node) v.push_back(o); return v; }();
    const AOp& o = *s.pick(s.draw(3) ? nodes : all);
    s.ev("%s", id(*o.op).c_str()); s.sample(id(*o.op));
    Run r(s, o); r.go();
}
SIM_ENGINE(P23, pointers, 2) {
    static const std::vector<mem::Ptr*> all = [] { std::vector<mem::Ptr*> v; for (mem::Ptr* o = mem::ptrs; o; o = o->next) v.push_back(o); std::sort(v.begin(), v.end(), [](mem::Ptr* a, mem::Ptr* b) { int c = strcmp(a->name, b->name); return c ? c < 0 : a->f < b->f; }); return v; }();
    const mem::Ptr& p = *s.pick(all);
    s.ev("%s %s", sim::name(p.f), p.name); p.run(s, p.name);
}
