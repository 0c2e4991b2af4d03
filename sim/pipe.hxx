// A byte stream between two tasks: bounded, delivered in scheduled pieces with scheduled delays, may be cut. Harness only.
#ifndef SIM_PIPE_HXX_
#define SIM_PIPE_HXX_

#include "io.hxx"
#include "sched.hxx"

namespace sim {

    struct Pipe : SinkHook {
        Sim& s; size_t cap; uint32_t piece, delay; const char* name;
        std::string wire;                   // on the way
        uint64_t sent = 0, cut_at = ~0ull;  // bytes accepted in all; connection is cut when that many were
        bool closed = false, broken = false;
        Pipe(Sim& s, const char* name) : s(s), cap(1 + s.draw(s.draw(2) ? 8 : 256)), piece(s.draw(3) ? 1 + s.draw(16) : 1 << 20), delay(s.draw(3) == 2 ? 1 + s.draw(1000) : 0), name(name) {}
        bool put(const char* p, size_t n) override {
            while (n) {
                if (wire.size() >= cap) sched::wait([this] { return wire.size() < cap || broken; }, name);
                if (broken) return false;
                size_t k = cap - wire.size() < n ? cap - wire.size() : n;
                if (sent + k >= cut_at) { k = (size_t)(cut_at - sent); wire.append(p, k); sent += k; cut(); return false; }
                wire.append(p, k); sent += k; p += k; n -= k;
            }
            return true;
        }
        void cut() { broken = true; s.fault("connection cut"); if (!wire.empty()) { size_t const k = s.draw((uint32_t)wire.size() + 1); if (k) s.fault("bytes lost with the connection", k); wire.resize(wire.size() - k); } }
        void close() { closed = true; }
    };

    // the reading end
    struct PipeSource : Source {
        Pipe& p; const char* name;
        PipeSource(Pipe& p, const char* name) : Source(""), p(p), name(name) {}
        bool need(size_t at) override {
            while (at >= bytes.size()) {
                if (p.wire.empty()) {
                    if (p.closed || p.broken) return false;
                    sched::wait([this] { return !p.wire.empty() || p.closed || p.broken; }, name);
                    continue;
                }
                heap::Pause hp;
                if (p.delay) { sched::sleep(p.delay); p.s.fault("delay"); if (p.wire.empty()) continue; }
                size_t const k = p.piece < p.wire.size() ? p.piece : p.wire.size();
                if (k < p.wire.size()) p.s.fault("delivery in pieces");
                bytes.append(p.wire, 0, k); p.wire.erase(0, k);
            }
            return true;
        }
    };

}

#endif
