// P19: what is read and written does not depend on the environment of the process
#include "eng.hxx"
#include "env.hxx"
#include <clocale>
#include <locale>
#include <cerrno>
#include <alloca.h>
using namespace eng; using env::Ty;

namespace {
    struct Odd : std::numpunct<char> { char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\1"; } std::string do_truename() const override { return "ja"; } std::string do_falsename() const override { return "nein"; } };
    const std::locale& odd() { static const std::locale l(std::locale::classic(), new Odd()); return l; }
    __attribute__((noinline)) void stack(uint32_t how) {
        size_t const n = 24 * 1024; unsigned char* const p = (unsigned char*)alloca(n);
        if (how < 2) memset(p, how ? 0xFF : 0, n);
        else { for (size_t i = 0; i != 64; ++i) p[i] = how == 2 ? "1234567890.e"[i % 12] : (unsigned char)(i * how); for (size_t k = 64; k < n; k += 64) memcpy(p + k, p, 64); }
        asm volatile("" : : "r"(p) : "memory");
    }
    struct World {
        bool c_locale = false, cxx_locale = false; int err = 0; uint32_t st = 0;
        bool plain() const { return !c_locale && !cxx_locale && !err && !st; }
    };
    void enter(const World& w) {
        static locale_t const keep = newlocale(LC_ALL_MASK, "odd", (locale_t)0); (void)keep; // stays loaded
        if (w.c_locale && !setlocale(LC_ALL, "odd")) S->fail("no locale", "LOCPATH %s", getenv("LOCPATH"));
        if (w.cxx_locale) std::locale::global(odd());
        stack(w.st); errno = w.err;
    }
    void leave() { errno = 0; std::locale::global(std::locale::classic()); setlocale(LC_ALL, "C"); }
    World draw(Sim& s) {
        World w;
        if (s.chance(1, 2)) { w.c_locale = true; s.fault("C locale"); }
        if (s.chance(1, 4)) { w.cxx_locale = true; s.fault("C++ locale"); }
        if (s.chance(1, 3)) { static const int e[] = { ERANGE, EINVAL, ENOMEM, EILSEQ, 12345 }; w.err = e[s.draw(5)]; s.fault("stale errno"); }
        if (s.chance(1, 2)) { w.st = 1 + s.draw(5); s.fault("stack contents"); }
        return w;
    }
    // changes the world when the byte `at` is asked for
    struct Turning : sim::Source {
        size_t at; World w; bool on; explicit Turning(const std::string& b) : sim::Source(b), at(~(size_t)0), on(false) {}
        bool need(size_t p) override { if (p == at && !on) { on = true; enter(w); S->fault("changed in the middle of a read"); } return sim::Source::need(p); }
    };
    struct Hook : sim::SinkHook { size_t n = 0, at = ~(size_t)0; World w; bool put(const char*, size_t k) override { if (n <= at && at < n + k) { enter(w); S->fault("changed in the middle of a write"); } n += k; return true; } };

    struct Got { sim::ReadRes r; std::string v; };
    Got read(const Ty& t, int way, sim::Source& src, const World& w, const char* build) {
        S->step_limit = S->steps_ + 4000000; S->context("%s read %s %s from %s", build, sim::name(t.f), t.name, env::name(way));
        void* const p = t.make(); Got g; enter(w); g.r = t.read(p, way, src); leave(); g.v = t.bytes(p); t.del(p); S->check(); return g;
    }
}
static Val number(Sim& s, const Ty& t) {
    if (t.shape == env::FLT || t.shape == env::ARR_FLT || t.shape == env::PAIR || (t.shape != env::INT && t.shape != env::ARR_INT && s.chance(1, 2)))
        return s.chance(1, 5) ? Val::sint((int)s.draw(1000)) : t.bits == 24 ? Val::real(sim::gen_float(s), 0) : Val::real(sim::gen_double(s), 1);
    unsigned const b = t.bits > 1 && t.bits <= 64 ? t.bits : 32; uint64_t const u = sim::gen_uint(s, b);
    if (!t.sign) return Val::uint(u);
    int64_t const i = b == 16 ? (int16_t)u : b == 32 ? (int32_t)u : (int64_t)u; return Val::sint(i);
}
static Val value(Sim& s, const Ty& t) {
    Val v; unsigned n = s.draw(6);
    switch (t.shape) {
        case env::INT: case env::FLT: return number(s, t);
        case env::ARR_INT: case env::ARR_FLT: v = Val::arr(); while (n--) v.add(number(s, t)); return v;
        case env::PAIR: return Val::arr().add(number(s, t)).add(number(s, t));
        case env::MAP_INT: v = Val::map(); while (n--) v.add(Val::sint((int)sim::gen_uint(s, 32)), Val::real(sim::gen_double(s))); return v;
        case env::STR: return Val::str(sim::gen_utf8(s, 20));
        case env::WORDS: v = Val::arr(); while (n--) v.add(Val::str(sim::gen_utf8(s, 8))); return v;
        case env::REC: return Val::map().add(Val::str("a"), Val::sint((int)sim::gen_uint(s, 32))).add(Val::str("b"), Val::real(sim::gen_double(s))).add(Val::str("c"), Val::real(sim::gen_float(s), 0));
        default: { sim::GenOpt o = sim::GenOpt(); o.f = F_JSON; o.depth = 3; o.json_node = true; return sim::gen_val(s, o); }
    }
}
// numbers as they should not be
static std::string odd_number(Sim& s) {
    static const char* const n[] = { " 1", "+1", "-", "--1", "0x10", "0X1p3", "1,5", "1.5", "1.", ".5", "1e", "1e+", "1e5", "1E-5", "inf", "nan", "-inf", "infinity", "Infinity", "NaN", "\"inf\"", "\"-inf\"", "\"nan\"", "007", "-0", "0", "-0.0", "1e400", "-1e400", "1e-400", "1e-310", "4.9e-324",
        "2.2250738585072012e-308", "1.7976931348623157e308", "1.7976931348623159e308", "3.4028236e38", "1e-46", "32767", "32768", "-32768", "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808",
        "-9223372036854775809", "18446744073709551615", "18446744073709551616", "1.234.567", "1'000", "1_0", "1 2", "0.1", "123456789.123456789", "9007199254740993", "1e23", "8.5e22", "\t1", "\v1", "\xA0""1", "1a", "1f", "1L", "1d0", "0b1", "0e0", "00", "1e0000000005" };
    return n[s.draw(sizeof(n) / sizeof(*n))];
}
SIM_ENGINE(P19, environment, 1) {
    static std::vector<std::pair<const Ty*, const Ty*>> ts; if (ts.empty()) for (const Ty *a = env::built20, *b = env::built11; a && b; a = a->next, b = b->next) ts.push_back({ a, b });
    auto const tt = ts[s.draw((uint32_t)ts.size())]; const Ty* const two[] = { tt.first, tt.second }; static const char* const builds[] = { "C++20", "C++11" };
    const Ty& t = *tt.first; std::string const who = std::string(sim::name(t.f)) + ' ' + t.name; s.context("gen %s", who.c_str());
    bool const odd = t.f != F_CBOR && s.chance(1, 4); std::string bytes;
    if (odd) { bytes = odd_number(s); if (t.shape == env::ARR_FLT || t.shape == env::ARR_INT) bytes = "[" + bytes + "]"; if (s.chance(1, 2)) bytes += "\n"; }
    else {
        bytes = sim::encode(s, value(s, t), t.f, s.draw(2) | (t.shape == env::PAIR || t.shape == env::REC ? sim::NO_INDEF | sim::NO_INDEF_MAP : 0));
        if (t.f != F_CBOR && s.chance(3, 4)) bytes += "\n";
        if (s.chance(1, 6)) sim::damage(s, bytes, t.f, 1);
    }
    s.nontrivial = true; s.sample(fmt("%s: %s", who.c_str(), hex(bytes, 60).c_str()));
    int way = (int)s.draw(env::WAYS); if (way == env::LAX && t.bits == 64 && t.shape == env::FLT) way = env::PTR; // libstdc++'s from_chars(long double) reads past "inf"
    Got clean[2]; World const none;
    for (int b = 0; b != 2; ++b) {
        sim::Source src(bytes); clean[b] = read(*two[b], way, src, none, builds[b]);
        s.ev("%s %s from %s: %s", builds[b], who.c_str(), env::name(way), eng::show(clean[b].r).c_str());
    }
    if (clean[0].r.ok != clean[1].r.ok || (clean[0].r.ok && (clean[0].v != clean[1].v || clean[0].r.end != clean[1].r.end)))
        bad("C++11 and C++20 differ: " + who + " from " + env::name(way), "%s: C++20 %s %s, C++11 %s %s", hex(bytes).c_str(), eng::show(clean[0].r).c_str(), hex(clean[0].v).c_str(), eng::show(clean[1].r).c_str(), hex(clean[1].v).c_str());
    for (int b = 0; b != 2; ++b) {
        Turning src(bytes); World w = draw(s); bool const mid = way == env::STREAM && s.chance(1, 2);
        if (s.chance(1, 3)) { // something else was read before
            const Ty& o = *two[b]; std::string const before = sim::encode(s, value(s, o), o.f, 0) + "\n"; sim::Source x(before); World z; z.st = 3; read(o, way, x, z, builds[b]); w.st = ~0u; s.fault("history");
        }
        if (mid) { src.at = s.draw((uint32_t)bytes.size() + 1); src.w = w; }
        Got const g = read(*two[b], way, src, mid ? none : w, builds[b]);
        if (g.r.ok != clean[b].r.ok || g.r.ec != clean[b].r.ec || g.r.end != clean[b].r.end || g.v != clean[b].v)
            bad(std::string("the environment changes what is read: ") + builds[b] + ' ' + who, "%s from %s (locale %d, C++ locale %d, errno %d, stack %u, in the middle %d): %s %s, clean %s %s", hex(bytes).c_str(), env::name(way), w.c_locale, w.cxx_locale, w.err, w.st, mid,
                eng::show(g.r).c_str(), hex(g.v).c_str(), eng::show(clean[b].r).c_str(), hex(clean[b].v).c_str());
    }
    if (!clean[0].r.ok) return;
    sim::WriteRes out[2];
    for (int b = 0; b != 2; ++b) {
        const Ty& o = *two[b]; void* const p = o.make(); sim::Source src(bytes); o.read(p, way, src);
        bool const app = s.chance(1, 2); World const w = draw(s); bool const mid = app && s.chance(1, 2);
        S->context("%s write %s", builds[b], who.c_str()); enter(none); out[b] = o.write(p, false, SinkPlan()); leave();
        Hook h; SinkPlan pl; if (mid) { h.at = s.draw((uint32_t)out[b].bytes.size() + 1); h.w = w; pl.hook = &h; }
        enter(mid ? none : w); sim::WriteRes const g = o.write(p, app, pl); leave(); o.del(p); s.check();
        s.ev("%s %s: %s", builds[b], who.c_str(), hex(g.bytes).c_str());
        if (g.ok != out[b].ok || g.bytes != out[b].bytes)
            bad(std::string("the environment changes what is written: ") + builds[b] + ' ' + who, "%s (locale %d, C++ locale %d, errno %d, stack %u, in the middle %d): %s, clean %s", hex(bytes).c_str(), w.c_locale, w.cxx_locale, w.err, w.st, mid, hex(g.bytes).c_str(), hex(out[b].bytes).c_str());
    }
    if (out[0].bytes != out[1].bytes) bad("C++11 and C++20 write differently: " + who, "%s: C++20 %s, C++11 %s", hex(bytes).c_str(), hex(out[0].bytes).c_str(), hex(out[1].bytes).c_str());
    s.state(sim::hash_bytes(out[0].bytes.data(), out[0].bytes.size()));
}
