// P08: messages over a byte stream arrive once, in order, without blocking
#include "eng.hxx"
#include "pipe.hxx"
#include <memory>
using namespace eng;

static const std::vector<Op*>& all(Fmt f) {
    static std::vector<Op*> v[8];
    if (v[f].empty()) for (Op* o : zoo::select(0, BARE | RAWPTR | NOEQ, f)) v[f].push_back(o);
    return v[f];
}

namespace {
    struct Msg {
        const Op* o; std::unique_ptr<Obj> v; std::string doc; bool delim = false; // delim: the document says where it ends
        Src src = STREAM; SinkKind sink = W_STR;
    };
}
static const Fmt fmts[] = { F_JSON, F_CBOR, F_CXCF };

static Msg make(Sim& s, Fmt f, const Op* same) {
    Msg m; m.o = same ? same : &zoo::pick(s, all(f));
    s.context("gen %s", id(*m.o).c_str()); m.v.reset(new Obj(*m.o)); m.o->gen(s, m.v->p);
    m.doc = eng::write(*m.o, *m.v).bytes; s.check();
    m.delim = f == F_CBOR || (!m.doc.empty() && (strchr("\"[{tfnIN", m.doc[0]) || (m.doc.size() > 1 && m.doc[1] == 'I')));
    std::vector<Src> const ss = zoo::sources(*m.o); m.src = s.pick(ss);
    std::vector<SinkKind> const ks = zoo::sinks(*m.o); m.sink = s.pick(ks);
    return m;
}
// the whole of the message has been accepted
static bool send(Msg& m, Pipe& p) {
    SinkPlan pl; pl.hook = &p; WriteRes const w = eng::write(*m.o, m.sink, *m.v, pl);
    if (w.threw && w.what == sched::Cancelled().what()) throw sched::Cancelled();
    if (m.sink == W_STR) { if (!p.put(m.doc.data(), m.doc.size())) return false; }
    else {
        if (p.broken) { if (w.ok) bad("broken connection not reported: " + id(*m.o), "%s to %s", hex(m.doc).c_str(), sim::name(m.sink)); return false; }
        if (!w.ok) bad("write fails: " + id(*m.o), "%s to %s: error %d %s", hex(m.doc).c_str(), sim::name(m.sink), w.ec, w.what.c_str());
        if (w.bytes != m.doc) bad("other bytes: " + id(*m.o), "%s to %s: %s", hex(m.doc).c_str(), sim::name(m.sink), hex(w.bytes).c_str());
    }
    if (!m.delim && !p.put("\n", 1)) return false;
    return true;
}
enum Got { YES, TORN, OTHER };
// reads one message and compares it with the one expected
static Got receive(Msg& m, PipeSource& src, std::string& how) {
    Obj t(*m.o); size_t const at = src.cur;
    ReadRes const r = eng::read(*m.o, m.src, t, src);
    if (r.threw && r.what == sched::Cancelled().what()) throw sched::Cancelled();
    how = fmt("%s from %s: %s, got %s: %s", id(*m.o).c_str(), zoo::name(m.src), hex(m.doc).c_str(), hex(src.bytes.substr(at < src.bytes.size() ? at : src.bytes.size(), 200)).c_str(), show(r).c_str());
    if (!r.ok) return src.cur >= src.bytes.size() && (src.p.closed || src.p.broken) && src.p.wire.empty() ? TORN : OTHER;
    if (!m.delim) { // the terminator shows that the number is complete
        if (!src.need(src.cur)) return TORN;
        if (src.bytes[src.cur] != '\n') return OTHER;
        ++src.cur;
    }
    if (!m.o->eq(t.p, m.v->p)) { how += ", value " + sim::show(m.o->to(t.p)); return OTHER; }
    return YES;
}
static void finish(Sim& s, const sched::Stats& st, const char* what) {
    s.fault("preemption", st.preemptions); s.probe("switches", st.switches); s.probe("blocked", st.waits);
    s.check();
    if (st.deadlock) bad(std::string("deadlock: ") + what, "%s", st.stuck.c_str());
}

// every message is sent before the next is awaited: each side waits for the other
SIM_ENGINE(P08, conversation, 3) {
    Fmt const f = fmts[s.draw(3)]; unsigned const n = 1 + s.draw(4);
    Pipe ab(s, "client cannot send"), ba(s, "server cannot send"); std::vector<Msg> req, rep; std::string first;
    const Op* const one = s.draw(2) ? &zoo::pick(s, all(f)) : nullptr;
    for (unsigned i = 0; i != n; ++i) { req.push_back(make(s, f, one)); rep.push_back(make(s, f, one)); s.ev("request %s: %s; reply %s: %s", id(*req[i].o).c_str(), hex(req[i].doc).c_str(), id(*rep[i].o).c_str(), hex(rep[i].doc).c_str()); s.mix(req[i].doc.data(), req[i].doc.size()); }
    PipeSource sa(ba, "client waits for a byte"), sb(ab, "server waits for a byte"); sb.pieces.assign(1, 1 + s.draw(32));
    unsigned served = 0, answered = 0; std::string now_a, now_b;
    // a message that is not delimited by itself is followed by a line feed: reading the number needs that byte
    auto const client = [&] {
        for (unsigned i = 0; i != n; ++i) {
            std::string how; now_a = id(rep[i].o[0]) + " from " + zoo::name(rep[i].src);
            if (!send(req[i], ab)) bad("cannot send", "%u", i);
            if (receive(rep[i], sa, how) != YES) bad("reply: " + now_a, "%s", how.c_str());
            ++answered;
        }
        ab.close();
    };
    auto const server = [&] {
        for (unsigned i = 0; i != n; ++i) {
            std::string how; now_b = id(req[i].o[0]) + " from " + zoo::name(req[i].src);
            if (receive(req[i], sb, how) != YES) bad("request: " + now_b, "%s", how.c_str());
            ++served;
            if (!send(rep[i], ba)) bad("cannot send", "%u", i);
        }
        std::string how; if (sb.need(sb.cur)) bad("more than was sent", "%s", hex(sb.bytes.substr(sb.cur)).c_str());
    };
    sched::Stats const st = sched::run(s, { client, server }, s.draw(4));
    s.nontrivial = st.switches > 2; s.sample(fmt("conversation, %u rounds, first %s: %s", n, id(*req[0].o).c_str(), hex(req[0].doc, 40).c_str()));
    s.state(hash_bytes(&s.sig_, 8));
    s.check();
    if (st.deadlock) {
        // who waits for a byte of a message that is complete?
        std::string const& w = served == answered ? now_b : now_a;
        bad("needs a byte behind the message: " + w, "%s (requests served %u, replies received %u)", st.stuck.c_str(), served, answered);
    }
    finish(s, st, "conversation");
}

// one writer, one reader, everything at once; then the connection ends
SIM_ENGINE(P08, stream, 2) {
    Fmt const f = fmts[s.draw(3)]; unsigned const n = 1 + s.draw(8);
    Pipe ab(s, "writer cannot send"); std::vector<Msg> ms; const Op* const one = s.draw(3) ? nullptr : &zoo::pick(s, all(f));
    for (unsigned i = 0; i != n; ++i) { ms.push_back(make(s, f, one)); s.ev("message %s: %s", id(*ms[i].o).c_str(), hex(ms[i].doc).c_str()); s.mix(ms[i].doc.data(), ms[i].doc.size()); }
    PipeSource src(ab, "reader waits for a byte"); src.pieces.assign(1, 1 + s.draw(32));
    bool const cut = s.draw(2); uint64_t total = 0; for (auto& m : ms) total += m.doc.size() + !m.delim;
    if (cut) ab.cut_at = s.draw((uint32_t)total + 1);
    unsigned sent = 0, got = 0;
    auto const writer = [&] { for (auto& m : ms) { if (!send(m, ab)) break; ++sent; } ab.close(); };
    auto const reader = [&] {
        for (auto& m : ms) {
            std::string how; Got const g = receive(m, src, how);
            if (g == OTHER && !(ab.broken && !m.delim)) bad("message: " + id(*m.o), "%s", how.c_str());
            if (g != YES) break;
            ++got;
        }
    };
    sched::Stats const st = sched::run(s, { writer, reader }, s.draw(4));
    s.nontrivial = st.switches > 2; s.sample(fmt("stream, %u messages%s, first %s: %s", n, cut ? ", cut" : "", id(*ms[0].o).c_str(), hex(ms[0].doc, 40).c_str()));
    finish(s, st, "stream");
    // what arrived as a whole is received, and nothing else
    uint64_t const arrived = src.bytes.size() + ab.wire.size(); uint64_t at = 0; unsigned whole = 0;
    for (auto& m : ms) { at += m.doc.size() + !m.delim; if (at > arrived) break; ++whole; }
    if (got != whole) bad("messages received: " + id(*ms[got < whole ? got : whole].o), "%u of %u messages, %llu of %llu bytes arrived: that is %u messages", got, n, (unsigned long long)arrived, (unsigned long long)total, whole);
    if (!cut && sent != n) bad("messages sent", "%u of %u", sent, n);
}

// connections break; what is not acknowledged is sent again, with a number in front: every message is delivered once, in order
SIM_ENGINE(P08, resend, 2) {
    Fmt const f = fmts[s.draw(3)]; unsigned const n = 1 + s.draw(6);
    std::vector<Msg> ms, ids; static const Op* num[8];
    if (!num[f]) for (Op* o : zoo::select(0, 0, f)) if (!strcmp(o->type, "int")) num[f] = o;
    if (!num[f]) { s.fail("harness", "no number type"); }
    for (unsigned i = 0; i != n; ++i) { ms.push_back(make(s, f, nullptr)); s.ev("message %s: %s", id(*ms[i].o).c_str(), hex(ms[i].doc).c_str()); s.mix(ms[i].doc.data(), ms[i].doc.size()); }
    for (unsigned i = 0; i <= n; ++i) { ids.emplace_back(); Msg& m = ids.back(); m.o = num[f]; m.v.reset(new Obj(*m.o)); m.o->from(Val::uint(i), m.v->p); m.doc = eng::write(*m.o, *m.v).bytes; m.delim = f == F_CBOR; m.src = STREAM; m.sink = zoo::sinks(*m.o)[s.draw((uint32_t)zoo::sinks(*m.o).size())]; }
    unsigned delivered = 0, acked = 0, connections = 0;
    while (acked != n) {
        s.check();
        if (++connections > 64) bad("no progress", "%u of %u messages delivered, %u acknowledged", delivered, n, acked);
        Pipe ab(s, "sender cannot send"), ba(s, "receiver cannot acknowledge"); PipeSource sa(ba, "sender waits for a byte"), sb(ab, "receiver waits for a byte"); sb.pieces.assign(1, 1 + s.draw(32));
        ba.cap = 1 << 20; // else both sides may wait for room
        if (connections < 8 && s.draw(2)) (s.draw(4) == 3 ? ba : ab).cut_at = s.draw(200);
        bool over = false;
        auto const up = [&] { return !over && !ab.broken && !ba.broken; };
        auto const hang_up = [&] { over = true; ab.close(); ba.close(); if (ab.broken || ba.broken) ab.broken = ba.broken = true; };
        unsigned const window = 1 + s.draw(3);
        auto const sender = [&] {
            unsigned next = acked; // the first not acknowledged
            while (up() && acked != n) {
                if (next < n && next < acked + window) { if (!send(ids[next], ab) || !send(ms[next], ab)) break; ++next; continue; }
                std::string how; Obj t(*num[f]); Msg& m = ids[acked + 1];
                Got const g = receive(m, sa, how);
                if (g == OTHER && !(ba.broken && !m.delim)) bad("acknowledgement", "%s", how.c_str());
                if (g != YES) break;
                ++acked;
            }
            hang_up();
        };
        auto const receiver = [&] {
            while (up()) {
                std::string how; Obj t(*num[f]); if (!sb.need(sb.cur)) break;
                ReadRes const r = eng::read(*num[f], STREAM, t, sb);
                if (r.threw && r.what == sched::Cancelled().what()) throw sched::Cancelled();
                if (!r.ok) { if (up()) bad("number", "%s", show(r).c_str()); break; }
                if (!ids[0].delim) { if (!sb.need(sb.cur)) break; if (sb.bytes[sb.cur] != '\n') bad("number", "%s", hex(sb.bytes).c_str()); ++sb.cur; }
                unsigned const k = (unsigned)num[f]->to(t.p).u;
                if (k >= n || k > delivered) bad("number", "message %u of %u after %u", k, n, delivered);
                Got const g = receive(ms[k], sb, how);
                if (g == OTHER && !(ab.broken && !ms[k].delim)) bad("message: " + id(*ms[k].o), "%s", how.c_str());
                if (g != YES) break;
                if (k == delivered) ++delivered; else s.probe("received again");
                if (!send(ids[k + 1], ba)) break;
            }
            hang_up();
        };
        sched::Stats const st = sched::run(s, { sender, receiver }, s.draw(4));
        s.nontrivial = s.nontrivial || connections > 1;
        finish(s, st, "resend");
        if (connections > 1) s.fault("connected again");
    }
    if (delivered != n) bad("delivered", "%u of %u", delivered, n);
    s.sample(fmt("resend, %u messages, %u connections", n, connections));
}
