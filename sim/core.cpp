#include "core.hxx"
#include "shm.hxx"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <map>
#include <unistd.h>

namespace sim {

    Sim* S = nullptr;
    Shm* shm = nullptr;
    void (*step_hook)() = nullptr;      // scheduling points
    void (*alloc_hook)() = nullptr;

    static uint64_t next64(uint64_t& s) { s += 0x9E3779B97F4A7C15ull; uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }

    uint64_t hash_bytes(const void* p, size_t n, uint64_t h) {
        auto b = (const unsigned char*)p;
        for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 1099511628211ull;
        return h;
    }

    void Sim::reset(uint64_t seed, const std::vector<uint32_t>* replay, bool trace) {
        *this = Sim();
        rng_ = seed, replay_ = replay, trace_ = trace, hash_ = 1469598103934665603ull, sig_ = 88172645463325252ull;
        if (shm) shm->nchoices = 0, shm->context[0] = 0;
    }
    uint32_t Sim::draw(uint32_t n) {
        if (n <= 1) return 0;
        uint32_t v;
        if (replay_)    v = pos_ < replay_->size() ? (*replay_)[pos_] % n : 0;
        else            v = (uint32_t)((next64(rng_) >> 32) * (uint64_t)n >> 32);
        ++pos_;
        if (shm && shm->nchoices < Shm::max_choices) shm->choices[shm->nchoices++] = v;
        mix(v);
        return v;
    }
    uint64_t Sim::bits(unsigned n) {
        uint64_t r = 0;
        for (unsigned i = 0; i < n; i += 16) { unsigned k = n - i < 16 ? n - i : 16; r |= (uint64_t)draw(1u << k) << i; }
        return r;
    }
    size_t Sim::size(size_t max) {
        if (max == 0) return 0;
        switch (draw(8)) {
            case 0: case 1: case 2:  return draw((uint32_t)(max < 3 ? max : 3) + 1);
            case 3: case 4: case 5:  return draw((uint32_t)(max < 8 ? max : 8) + 1);
            default:                 return draw((uint32_t)max + 1);
        }
    }
    void Sim::mix(uint64_t v) { hash_ = (hash_ ^ v) * 1099511628211ull; hash_ ^= hash_ >> 29; }
    void Sim::mix(const void* p, size_t n) { hash_ = hash_bytes(p, n, hash_); }
    void Sim::state(uint64_t v) { heap::Pause hp; sig_ = mix64(sig_ ^ v); if (shm) shm->add_state(mix64(v)); }
    void Sim::fault(const char* k, uint64_t n) { heap::Pause hp; if (shm) shm->count(shm->faults, k, n); mix(k, strlen(k)); sig_ = mix64(sig_ ^ hash_bytes(k, strlen(k))); if (trace_) ev("fault: %s", k); }
    void Sim::probe(const char* k, uint64_t n) { heap::Pause hp; if (shm) shm->count(shm->probes, k, n); }
    void Sim::step(uint64_t n) {
        clock_ += n; steps_ += n;
        if (steps_ > step_limit) {
            heap::Pause hp;
            fprintf(stderr, "SIM-STEP-LIMIT: more than %llu steps in %s\n", (unsigned long long)step_limit, context());
            fflush(stderr); _exit(98);
        }
        if (step_hook) step_hook();
    }
    void Sim::context(const char* f, ...) {
        if (!shm) return;
        va_list a; va_start(a, f); vsnprintf(shm->context, sizeof shm->context, f, a); va_end(a);
    }
    const char* Sim::context() const { return shm ? shm->context : ""; }
    void Sim::ev(const char* f, ...) {
        heap::Pause hp;
        char b[1024];
        va_list a; va_start(a, f); int n = vsnprintf(b, sizeof b, f, a); va_end(a);
        if (n < 0) n = 0;
        if (n >= (int)sizeof b) n = sizeof b - 1;
        mix(b, n);
        if (trace_ && trace_fd_ >= 0) {
            char l[1100]; int const m = snprintf(l, sizeof l, "[%llu] %s\n", (unsigned long long)clock_, b);
            if (m > 0) (void)!write(trace_fd_, l, m);
        }
    }
    static std::string vfmt(const char* f, va_list a) {
        va_list b; va_copy(b, a); int n = vsnprintf(nullptr, 0, f, b); va_end(b);
        std::string s(n > 0 ? n : 0, 0); if (n > 0) { std::vector<char> t(n + 1); vsnprintf(t.data(), n + 1, f, a); s.assign(t.data(), n); }
        return s;
    }
    std::string fmt(const char* f, ...) { va_list a; va_start(a, f); auto s = vfmt(f, a); va_end(a); return s; }
    void Sim::violate(const char* cls, const char* f, ...) {
        if (violated_) return;
        heap::Pause hp;
        va_list a; va_start(a, f); msg_ = vfmt(f, a); va_end(a);
        cls_ = cls; violated_ = true;
        ev("VIOLATION %s: %s", cls, msg_.c_str());
    }
    void Sim::fail(const char* cls, const char* f, ...) {
        if (!violated_) {
            heap::Pause hp;
            va_list a; va_start(a, f); msg_ = vfmt(f, a); va_end(a);
            cls_ = cls; violated_ = true;
            ev("VIOLATION %s: %s", cls, msg_.c_str());
        }
        throw Failed();
    }
    std::string hex(const std::string& s, size_t max) {
        std::string r = "\"";
        for (size_t i = 0; i < s.size() && i < max; ++i) {
            unsigned char c = s[i]; char b[8];
            if (c == '"' || c == '\\') r += '\\', r += c;
            else if (c >= 0x20 && c < 0x7F) r += c;
            else snprintf(b, sizeof b, "\\x%02X", c), r += b;
        }
        r += '"';
        if (s.size() > max) r += fmt("...(%zu bytes)", s.size());
        return r;
    }

    static Engine* head = nullptr;
    Engine::Engine(const char* p, const char* n, engine_fn f, uint32_t w) : property(p), name(n), fn(f), weight(w), next(nullptr) {
        Engine** q = &head; while (*q && (strcmp((*q)->property, p) < 0 || (strcmp((*q)->property, p) == 0 && strcmp((*q)->name, n) < 0))) q = &(*q)->next;
        next = *q, *q = this;
    }
    Engine* engines() { return head; }

    // ---- heap --------------------------------------------------------------

    namespace heap {
        // one block = header + payload, so that sanitizers still see the exact end of the payload
        struct Hdr { uint64_t magic; uint32_t gen; uint32_t off; uint64_t size; };
        static const uint64_t MAGIC = 0x51AD0C7E5EED0001ull;
        static __thread int depth_ = 0;         // scopes are per thread
        static bool     on_ = false;
        static uint32_t gen_ = 0;
        static Stats    st_;
        static __thread uint64_t fail_ = 0, cnt_ = 0; // and so are the failures
        static uint64_t limit_ = 0;
        static __thread bool fired_ = false;
        static void (*transition_)(bool) = nullptr;   // told when a thread enters or leaves the library
        void on_transition(void (*f)(bool)) { transition_ = f; }
        bool inside() { return depth_ > 0; }
        void thread_reset() { depth_ = 0, fail_ = cnt_ = 0, fired_ = false; }
        void begin() { ++gen_; on_ = true; st_ = Stats(); fail_ = cnt_ = limit_ = 0; fired_ = false; }
        void end() { on_ = false; fail_ = limit_ = 0; }
        Stats stats() { return st_; }
        void enter() { if (!depth_++ && transition_) transition_(true); }
        void leave() { if (!--depth_ && transition_) transition_(false); }
        void fail_at(uint64_t n) { fail_ = n, cnt_ = 0, fired_ = false; }
        void limit(uint64_t b) { limit_ = b; }
        bool fired() { return fired_; }
        uint64_t count() { return cnt_; }
        size_t size_of(const void* p) { return (size_t)((const Hdr*)((const char*)p - sizeof(Hdr)))->size; }
        Pause::Pause() : was(depth_) { if (was && transition_) transition_(false); depth_ = 0; }
        Pause::~Pause() { depth_ = was; if (was && transition_) transition_(true); }
        static void* raw(size_t n, size_t al) {
            size_t const off = al > sizeof(Hdr) ? al : ((sizeof(Hdr) + 15) & ~(size_t)15);
            if (n > (size_t)1 << 40) return nullptr;
            void* p = nullptr;
            if (al > 16) { if (posix_memalign(&p, al, n + off)) return nullptr; }
            else p = malloc(n + off);
            if (!p) return nullptr;
            auto q = (char*)p + off; auto h = (Hdr*)(q - sizeof(Hdr));
            h->magic = MAGIC, h->gen = 0, h->off = (uint32_t)off, h->size = n;
            return q;
        }
        static void* alloc(size_t n, size_t al) {
            if (!on_ || !depth_) return raw(n, al);
            if (alloc_hook) alloc_hook();
            ++cnt_;
            if (fail_ && cnt_ == fail_) { fired_ = true, ++st_.failed; return nullptr; }
            if (n > (256u << 20) || st_.live_bytes + n > (1ull << 30)) { ++st_.failed; fired_ = true; st_.total_bytes += n; return nullptr; } // the sandbox has its limits
            if (limit_ && (n > limit_ || st_.live_bytes + n > limit_)) { fired_ = true, ++st_.failed; st_.total_bytes += n; if (st_.live_bytes + n > st_.peak_bytes) st_.peak_bytes = st_.live_bytes + n; return nullptr; }
            auto p = raw(n, al);
            if (!p) return nullptr;
            auto h = (Hdr*)((char*)p - sizeof(Hdr));
            h->gen = gen_;
            ++st_.allocs, ++st_.live, st_.live_bytes += n, st_.total_bytes += n;
            if (st_.live_bytes > st_.peak_bytes) st_.peak_bytes = st_.live_bytes;
            return p;
        }
        static void sized(const void* p, size_t n) { // what is given back as less or more than it was
            if (!p || !S) return;
            auto h = (const Hdr*)((const char*)p - sizeof(Hdr));
            if (h->magic == MAGIC && h->size != n) { Pause q; S->violate("wrong size", "%s: a block of %llu bytes is given back as one of %llu", S->context(), (unsigned long long)h->size, (unsigned long long)n); }
        }
        static void release(void* p) {
            if (!p) return;
            auto h = (Hdr*)((char*)p - sizeof(Hdr));
            if (h->magic != MAGIC) {
                free(h); // let the sanitizer report it (double free / bad free)
                fprintf(stderr, "SIM-BAD-FREE: %s\n", S ? S->context() : ""); fflush(stderr); abort();
            }
            if (h->gen && h->gen == gen_) ++st_.frees, --st_.live, st_.live_bytes -= h->size;
            h->magic = 0;
            free((char*)p - h->off);
        }
    }

}

void* operator new(size_t n)                                            { auto p = sim::heap::alloc(n, 0); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n)                                          { auto p = sim::heap::alloc(n, 0); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept            { return sim::heap::alloc(n, 0); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept          { return sim::heap::alloc(n, 0); }
void* operator new(size_t n, std::align_val_t a)                        { auto p = sim::heap::alloc(n, (size_t)a); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n, std::align_val_t a)                      { auto p = sim::heap::alloc(n, (size_t)a); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept                                  { sim::heap::release(p); }
void operator delete[](void* p) noexcept                                { sim::heap::release(p); }
void operator delete(void* p, size_t n) noexcept                          { sim::heap::sized(p, n); sim::heap::release(p); }
void operator delete[](void* p, size_t n) noexcept                        { sim::heap::sized(p, n); sim::heap::release(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept           { sim::heap::release(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept         { sim::heap::release(p); }
void operator delete(void* p, std::align_val_t) noexcept                { sim::heap::release(p); }
void operator delete[](void* p, std::align_val_t) noexcept              { sim::heap::release(p); }
void operator delete(void* p, size_t n, std::align_val_t) noexcept        { sim::heap::sized(p, n); sim::heap::release(p); }
void operator delete[](void* p, size_t n, std::align_val_t) noexcept      { sim::heap::sized(p, n); sim::heap::release(p); }
