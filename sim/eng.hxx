// helpers shared by the engines
#ifndef SIM_ENG_HXX_
#define SIM_ENG_HXX_

#define ZOO_NO_LIB
#include "zoo.hxx"

namespace eng {

    using namespace sim; using namespace zoo;

    inline std::string id(const Op& o) { return std::string(sim::name(o.f)) + ' ' + o.type; }
    inline ReadRes read(const Op& o, Src k, Obj& t, Source& src) {
        S->step_limit = S->steps_ + 4000000; S->context("read %s from %s", id(o).c_str(), zoo::name(k));
        return o.read[k](t.p, src);
    }
    inline ReadRes read(const Op& o, Src k, Obj& t, const std::string& b) { Source src(b); return read(o, k, t, src); }
    inline WriteRes write(const Op& o, sim::SinkKind k, const Obj& t, const SinkPlan& p) {
        S->step_limit = S->steps_ + 4000000; S->context("write %s to %s", id(o).c_str(), sim::name(k));
        return o.write[k](t.p, p);
    }
    // fault-free output
    inline WriteRes write(const Op& o, const Obj& t) { return write(o, W_STR, t, SinkPlan()); }
    template <typename... A> void bad(const std::string& cls, const char* f, A... a) { S->fail(cls.c_str(), f, a...); }
    template <typename... A> void note(const std::string& cls, const char* f, A... a) { S->violate(cls.c_str(), f, a...); }
    inline const char* show(const ReadRes& r, std::string& b) { b = r.threw ? "threw " + r.what : r.ok ? fmt("ok@%ld", r.end) : fmt("error %d (%s)@%ld", r.ec, r.what.c_str(), r.end); return b.c_str(); }
    inline std::string show(const ReadRes& r) { std::string b; show(r, b); return b; }
    // the reference codec; a bare class has the members without the braces
    inline Parse ref_parse(const Op& o, const std::string& b) {
        if (o.style) return sim::parse_text(b, 0, *o.style);
        if (!(o.flags & BARE)) return sim::parse(b, 0, o.vf());
        std::string const t = '{' + b + "\n}";
        Parse p = sim::parse(t, 0, o.vf());
        if (p.r == Parse::OK && p.end == t.size()) p.end = b.size(); else { if (p.r == Parse::OK) p.r = Parse::BAD; p.end = p.end ? p.end - 1 : 0; if (p.end > b.size()) p.end = b.size(); }
        return p;
    }
    inline std::string ref_encode(Sim& s, const Op& o, const Val& v, unsigned variety) {
        if (o.style) { std::string b; if (variety) sim::put_space(s, b, *o.style, variety); sim::put_text(s, b, v, *o.style, variety); return b; }
        std::string b = sim::encode(s, v, o.vf(), variety);
        if (o.flags & BARE) { // braces in comments are not the ones
            size_t i = 0;
            while (i < b.size() && b[i] != '{') if (b[i] != '/') ++i; else i = b[i + 1] == '*' ? b.find("*/", i + 2) + 2 : b.find('\n', i) + 1;
            size_t const e = sim::parse(b, 0, o.vf()).end;
            b = b.substr(0, i) + b.substr(i + 1, e - i - 2);
        }
        return b;
    }
    // off what the format assumes of its documents: any outcome
    // UTF-8 is taken for granted: there is nothing to be said about what is not, not even that it can be read
    inline bool untold(const Op& o, const std::string& d) { return o.style && o.style->invalid && !sim::utf8_valid(d); }
    inline bool vague(const Op& o, const std::string& d) { return o.style && ((o.style->no_escapes && d.find('\\') != d.npos) || (o.style->invalid && !sim::utf8_valid(d))); }
    inline bool ordered(const Op& o) { return !(o.flags & UNORDERED); }
}

#endif
