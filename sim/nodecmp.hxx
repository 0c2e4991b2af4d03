// what a node must hold after reading a document, according to the reference parser
#ifndef SIM_NODECMP_HXX_
#define SIM_NODECMP_HXX_

#include "eng.hxx"

namespace nodecmp {

    using namespace eng;

    enum Verdict { MUST, MAY, MUST_NOT };                   // be read

    static inline bool fits(const Val& v) { return v.k == Val::INT && (!v.b || v.u <= (uint64_t)std::numeric_limits<long long>::max()); }

    // can a node hold it?
    static Verdict verdict(const Val& v, bool cbor) {
        if (v.isnum() && v.s.size() > 60) return MAY;                       // num_len_max
        switch (v.k) {
            case Val::INT: return cbor && !fits(v) ? MUST_NOT : MUST;       // in text a number that fits no integral type is real
            case Val::REAL: if (!cbor && !v.s.empty()) { // of text
                    double const d = to_d(v.s.c_str());
                    if (std::isinf(d)) return MAY;                          // overflow
                    if (std::fabs(d) < std::numeric_limits<double>::min()) return MAY; // underflow
                }
                return MUST;
            case Val::ARR: case Val::MAP: case Val::TAG: {
                Verdict r = MUST;
                for (const Val& e : v.a) { Verdict const x = verdict(e, cbor); if (x > r) r = x; }
                return r;
            }
            default: return MUST;
        }
    }

    static bool has_nan(const Val& v) { if (v.k == Val::REAL && v.d != v.d) return true; for (const Val& e : v.a) if (has_nan(e)) return true; return false; }
    // does `got` (taken from the node) denote what was parsed?
    static bool denotes(const Val& want, const Val& got, bool cbor, bool ordered, std::string& why) {
        auto no = [&](const char* w) { why = fmt("%s: %s instead of %s", w, sim::show(got).c_str(), sim::show(want).c_str()); return false; };
        switch (want.k) {
            case Val::INT:
                if (fits(want)) {
                    if (got.k == Val::REAL && !cbor && want.s == "-0") return got.d == 0;
                    return got.k == Val::INT && got.num() == want.num() ? true : no("integer");
                }
                return got.k == Val::REAL && got.d == (long double)to_d(want.s.c_str()) ? true : no("large integer");
            case Val::REAL:
                if (got.k != Val::REAL) return no("real");
                if (want.d != want.d) return got.d != got.d ? true : no("nan");
                { double const d = want.s.empty() ? (double)want.d : to_d(want.s.c_str()); return got.d == (long double)d && std::signbit(got.d) == std::signbit(d) ? true : no("real"); }
            case Val::STR: return got.k == Val::STR && got.s == want.s ? true : no("string");
            case Val::BYTES: return got.k == Val::BYTES && got.s == want.s ? true : no("bytes");
            case Val::BOOL: return got.k == Val::BOOL && got.b == want.b ? true : no("boolean");
            case Val::SIMPLE: return got.k == Val::SIMPLE && got.u == want.u ? true : no("simple");
            case Val::NUL: case Val::UNDEF: return got.k == want.k ? true : no("null");
            case Val::TAG: if (got.k != Val::TAG || got.u != want.u) return no("tag"); return denotes(want.a[0], got.a[0], cbor, ordered, why);
            case Val::ARR:
                if (got.k != Val::ARR || got.a.size() != want.a.size()) return no("array");
                for (size_t i = 0; i != want.a.size(); ++i) if (!denotes(want.a[i], got.a[i], cbor, ordered, why)) return false;
                return true;
            case Val::MAP: {
                if (got.k != Val::MAP) return no("map");
                if (ordered) {
                    if (got.a.size() != want.a.size()) return no("map size");
                    for (size_t i = 0; i != want.a.size(); ++i) if (!denotes(want.a[i], got.a[i], cbor, ordered, why)) return false;
                    return true;
                }
                // not-a-number has no place in the order of keys
                for (size_t i = 0; i + 1 < want.a.size(); i += 2) if (has_nan(want.a[i])) return true;
                // every member came from the document, and every key that was there is there (once, repeated keys: any of their values)
                std::string w; std::vector<bool> hit(want.a.size() / 2);
                for (size_t j = 0; j + 1 < got.a.size(); j += 2) {
                    bool ok = false; unsigned n = 0; // (the values of a repeated key are read into one object, appending: RFC 8259 leaves it open)
                    for (size_t i = 0; i + 1 < want.a.size(); i += 2)
                        if (denotes(want.a[i], got.a[j], cbor, ordered, w)) { hit[i / 2] = true; if (++n > 1 || denotes(want.a[i + 1], got.a[j + 1], cbor, ordered, w)) ok = true; }
                    if (!ok) return no("member");
                    for (size_t i = 0; i < j; i += 2) if (got.a[i] == got.a[j] && !(got.a[i].k == Val::REAL)) return no("repeated member");
                }
                for (size_t i = 0; i != hit.size(); ++i) if (!hit[i]) {
                    // keys that compare equal are one (1 and 1.0)
                    bool dup = false;
                    for (size_t k = 0; k + 1 < want.a.size() && !dup; k += 2) dup = k / 2 != i && hit[k / 2] && want.a[k].isnum() && want.a[2 * i].isnum();
                    if (!dup) return no("lost member");
                }
                return true;
            }
        }
        return false;
    }

    // the deciding comparison
    static void check(Sim& s, const Op& o, Src k, const std::string& doc) {
        bool const cbor = o.f == F_CBOR; unsigned const LIMIT = 64;
        if (untold(o, doc)) { s.probe("off the assumptions of the format"); return; }
        Obj b(o); ReadRes const r = read(o, k, b, doc); s.check();
        s.state(hash_bytes(doc.data(), doc.size(), hash_bytes(o.type, strlen(o.type), k)));
        auto const where = [&] { return id(o) + " from " + zoo::name(k) + ": " + hex(doc); };
        if (r.threw) bad("throws: " + id(o), "%s: %s", where().c_str(), show(r).c_str());
        if (r.end < 0 || (size_t)r.end > doc.size()) bad("end outside the input: " + id(o), "%s: %s", where().c_str(), show(r).c_str());
        if (vague(o, doc)) { s.probe("off the assumptions of the format"); return; }
        Parse const p = ref_parse(o, doc);
        if (p.r != Parse::OK) {
            s.probe("not a document");
            // numbers are read from a pointer with from_chars by default, which takes `Infinity` and `NaN` too (documented leniency)
            if (r.ok && k == LPTR && doc.find_first_of("IN") != doc.npos) { s.probe("lenient numbers"); return; }
            if (r.ok) bad("accepted: " + id(o), "%s: read ends at %ld, but it is no document: %s at %zu", where().c_str(), r.end, p.why, p.end);
            return;
        }
        if (p.depth >= LIMIT) { // nesting is P13's
            s.probe("deep"); if (p.depth > LIMIT + 1 && r.ok) bad("too deep: " + id(o), "%s: depth %u", where().c_str(), p.depth);
            if (p.depth > LIMIT - 1) return;
        }
        Verdict const v = verdict(p.v, cbor);
        s.probe(v == MUST ? "document" : v == MAY ? "document with extreme numbers" : "document no node can hold");
        if (v == MUST_NOT && r.ok) bad("accepted: " + id(o), "%s: reads %s, but no node can hold %s", where().c_str(), sim::show(o.to(b.p)).c_str(), sim::show(p.v).c_str());
        if (v == MUST && !r.ok) bad("rejected: " + id(o), "%s: %s, but it is %s", where().c_str(), show(r).c_str(), sim::show(p.v).c_str());
        if (!r.ok) return;
        if ((size_t)r.end != p.end) bad("wrong end: " + id(o), "%s: read ends at %ld, the value at %zu", where().c_str(), r.end, p.end);
        std::string why; Val const g = o.to(b.p);
        if (!denotes(p.v, g, cbor, !(o.flags & UNORDERED), why)) bad("wrong value: " + id(o), "%s: reads %s, but it is %s (%s)", where().c_str(), sim::show(g).c_str(), sim::show(p.v).c_str(), why.c_str());
    }
}

#endif
