#include "core.hxx"
#include "val.hxx"
#include "io.hxx"
#include <cstring>
#include <algorithm>
#define ZOO_NO_LIB
#include "zoo.hxx"
namespace zoo {
    Op* ops = nullptr;
    Fmt gen_fmt = F_JSON;
    std::vector<Op*> select(unsigned all, unsigned none, int fmt) {
        std::vector<Op*> v;
        for (Op* o = ops; o; o = o->next) if ((o->flags & all) == all && !(o->flags & none) && (!(o->flags & RECORD) || all & RECORD) && (fmt < 0 || o->f == fmt)) v.push_back(o);
        std::sort(v.begin(), v.end(), [](Op* a, Op* b) { int c = strcmp(a->type, b->type); return c ? c < 0 : a->f < b->f; }); // not the link order
        return v;
    }
    const Op& pick(Sim& s, const std::vector<Op*>& v) { return *v[s.draw((uint32_t)v.size())]; }
    std::vector<Src> sources(const Op& o) { std::vector<Src> v; for (int i = 0; i != SRC_N; ++i) if (o.read[i]) v.push_back((Src)i); return v; }
    std::vector<sim::SinkKind> sinks(const Op& o) { std::vector<sim::SinkKind> v; for (int i = 0; i != sim::W_N; ++i) if (o.write[i]) v.push_back((sim::SinkKind)i); return v; }
}
