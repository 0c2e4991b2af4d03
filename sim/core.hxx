// Deterministic simulation core: one choice sequence decides everything.
// C++11 (also included by translation units built as C++11).
#ifndef SIM_CORE_HXX_
#define SIM_CORE_HXX_

#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <string>
#include <vector>

namespace sim {

    // ---- the run -----------------------------------------------------------

    struct Failed {};       // thrown by Sim::fail in harness code (never through library frames)

    class Sim {
        public:
            // choices; 0 is always the simplest / fault-free alternative
            uint32_t draw(uint32_t n);                              // uniform in [0,n)
            uint32_t range(uint32_t a, uint32_t b) { return a + draw(b - a + 1); }
            bool chance(uint32_t num, uint32_t den) { return draw(den) >= den - num; }
            uint64_t bits(unsigned n);                              // n random bits, simplest is 0
            size_t size(size_t max);                                // small-biased size in [0,max]
            template <typename T> const T& pick(const std::vector<T>& v) { return v[draw((uint32_t)v.size())]; }

            // recording (never draws, never reads a real clock)
            void ev(const char* f, ...) __attribute__((format(printf, 2, 3)));
            void mix(uint64_t v);                                   // into the event hash
            void mix(const void* p, size_t n);
            void state(uint64_t v);                                 // a distinct state/interleaving reached
            void fault(const char* kind, uint64_t n = 1);           // a fault that actually fired
            void probe(const char* what, uint64_t n = 1);           // a rare condition that was hit
            void tick(uint64_t n = 1) { clock_ += n; }              // simulated time (1 tick = 1us)
            uint64_t now() const { return clock_; }
            void step(uint64_t n = 1);                              // simulated step; bounded per run
            void ops(uint64_t n = 1) { ops_ += n; }                 // library operations executed
            void context(const char* f, ...) __attribute__((format(printf, 2, 3))); // what is under test, for crashes
            const char* context() const;
            void sample(const std::string& s) { sample_ = s; }      // human readable description of the case

            // violations: the first one wins
            void violate(const char* cls, const char* f, ...) __attribute__((format(printf, 3, 4))); // record only
            void fail(const char* cls, const char* f, ...) __attribute__((format(printf, 3, 4)));    // record and throw Failed
            bool violated() const { return violated_; }
            void check() { if (violated_) throw Failed(); }

            // set-up
            void reset(uint64_t seed, const std::vector<uint32_t>* replay, bool trace);
            uint64_t hash() const { return hash_; }
            bool nontrivial = false;                                // set by the engine when the case counts

            uint64_t rng_ = 0, hash_ = 0, clock_ = 0, steps_ = 0, ops_ = 0, sig_ = 0;
            bool violated_ = false, trace_ = false;
            std::string cls_, msg_, sample_;
            int trace_fd_ = -1;
            const std::vector<uint32_t>* replay_ = nullptr;
            size_t pos_ = 0;
            uint64_t step_limit = 4000000;
    };

    extern Sim* S; // the current run

    // ---- the heap ----------------------------------------------------------

    // Everything allocated through operator new while a Scope is open belongs to the library call under test.
    namespace heap {
        struct Stats { uint64_t allocs, frees, live, live_bytes, peak_bytes, total_bytes, failed; };
        void begin();                       // start accounting (resets statistics); scoped blocks alive before are not counted
        void end();
        Stats stats();
        void enter(); void leave();         // open/close the scope
        void fail_at(uint64_t nth);         // the nth scoped allocation from now fails (0 = never); one shot
        void limit(uint64_t bytes);         // scoped live bytes above this fail (0 = off)
        bool fired();                       // the armed failure fired
        size_t size_of(const void* p);      // as asked for
        uint64_t count();                   // scoped allocations since fail_at/begin
        struct Scope { Scope() { enter(); } ~Scope() { leave(); } };
        struct Pause { int was; Pause(); ~Pause(); };  // harness code running inside a scope
    }

    // ---- engines -----------------------------------------------------------

    typedef void (*engine_fn)(Sim&);
    struct Engine { const char* property; const char* name; engine_fn fn; uint32_t weight; Engine* next;
        Engine(const char* p, const char* n, engine_fn f, uint32_t w);
    };
#   define SIM_ENGINE(P, N, W) \
        static void engine_##P##_##N(sim::Sim&); \
        static sim::Engine reg_##P##_##N(#P, #N, engine_##P##_##N, W); \
        static void engine_##P##_##N(sim::Sim& s)

    std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
    std::string hex(const std::string& s, size_t max = 96);     // printable rendering of bytes
    inline uint64_t mix64(uint64_t z) {
        z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31);
    }
    uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull);

}

#endif
