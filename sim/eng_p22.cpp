// P22: formats customised with the documented traits keep the promises of the standard one
// the engines of the single properties, run over the customised formats
#include "nodecmp.hxx"
using namespace eng;
#undef SIM_ENGINE
#define SIM_ENGINE(P, N, W) \
    static void engine_##P##_##N(sim::Sim&); \
    static sim::Engine reg_##P##_##N("P22", #P "-" #N, engine_##P##_##N, W); \
    static void engine_##P##_##N(sim::Sim& s)

namespace p10 {
#include "eng_p10.cpp"
}
namespace p02 {
#include "eng_p02.cpp"
}
namespace p17 {
#include "eng_p17.cpp"
}
namespace p03 {
#include "eng_p03.cpp"
}
namespace p01 {
#include "eng_p01.cpp"
}
namespace p18 {
#include "eng_p18.cpp"
}
#undef SIM_ENGINE
#define SIM_ENGINE(P, N, W) static void engine_##P##_##N(sim::Sim& s)
namespace p06 { // tokens right and almost right, as in JSON
#include "eng_p06.cpp"
}
#undef SIM_ENGINE
#define SIM_ENGINE(P, N, W) \
    static void engine_##P##_##N(sim::Sim&); \
    static sim::Engine reg_##P##_##N(#P, #N, engine_##P##_##N, W); \
    static void engine_##P##_##N(sim::Sim& s)

static const std::vector<Op*>& nodes() { static const std::vector<Op*> v = zoo::select(NODE, 0); return v; }

// a document of the format or almost, read as a node: accepted exactly where the format says so
static std::string retell(Sim& s, const std::string& d, const TextOpt& f) {
    std::string o; bool const mixed = s.chance(1, 8);
    for (size_t i = 0; i != d.size(); ++i) {
        char c = d[i];
        if (mixed && s.chance(1, 8)) { o += c; continue; }
        switch (c) {
            case '"': c = f.del; break;
            case ':': c = f.div; break;
            case ',': c = s.draw(2) ? f.sep : f.lsep; if (s.chance(1, 12)) o += c; break;
            case '[': case '{': break;
            case ']': case '}': if (s.chance(1, 12)) o += c == ']' ? f.lsep : f.sep; break;
            case ' ': if (s.chance(1, 4)) { static const char* const t[] = { "/**/", "//\n", "/*/*/", "/* ]} */", "/", "/*", "//", "/***/", "\v", "/x" }; o += t[s.draw(s.draw(4) ? 4 : 10)]; } break;
            case 'n': if (s.chance(1, 6)) { static const char* const t[] = { "NaN", "Infinity", "-Infinity", "-NaN", "Inf", "+Infinity", "nan" }; o += t[s.draw(s.draw(4) ? 4 : 7)]; while (i + 1 < d.size() && isalpha((unsigned char)d[i + 1])) ++i; continue; } break;
        }
        o += c;
    }
    return o;
}
SIM_ENGINE(P22, grammar, 6) {
    const Op& o = zoo::pick(s, nodes());
    std::string t; p06::tokens(s, t, s.draw(4)); t = retell(s, t, *o.style); s.fault("document off the grammar");
    p06::run(s, o, t, "");
}
SIM_ENGINE(P22, corruption, 3) {
    const Op& o = zoo::pick(s, nodes());
    std::string doc = p06::document(s, o);
    unsigned const n = s.draw(4); std::string how; if (n) how = sim::damage(s, doc, o.f, n);
    p06::run(s, o, doc, how);
}

// a document of one format read in another
SIM_ENGINE(P22, confused, 2) {
    const Op& o = zoo::pick(s, nodes()); const Op& p = zoo::pick(s, nodes());
    p06::run(s, o, p06::document(s, p), std::string(" from ") + p.type); s.fault("document of another format");
}

// scripts
SIM_ENGINE(P22, script, 1) {
    static const std::vector<Op*> all = [] { std::vector<Op*> v; for (Op* o : zoo::select(0, 0)) if (o->style->js && !strstr(o->type, "char")) v.push_back(o); return v; }();
    const Op& o = zoo::pick(s, all);
    Obj a(o); o.gen(s, a.p);
    WriteRes const w = write(o, a); s.check();
    if (!w.ok) bad("not written: " + id(o), "%s: error %d %s", id(o).c_str(), w.ec, w.what.c_str());
    s.mix(w.bytes.data(), w.bytes.size()); s.ev("%s %s", id(o).c_str(), hex(w.bytes).c_str()); s.nontrivial = w.bytes.size() > 1; s.sample(fmt("%s -> %s", id(o).c_str(), hex(w.bytes).c_str()));
    for (const char* l : { "\xE2\x80\xA8", "\xE2\x80\xA9" }) if (w.bytes.find(l) != w.bytes.npos) bad("line terminator in a script: " + id(o), "%s: %s", id(o).c_str(), hex(w.bytes).c_str());
}
