// Compiled without sanitizers: see sched.hxx
#include "sched.hxx"
#include <pthread.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sys/syscall.h>
#include <linux/futex.h>

extern "C" void __tsan_ignore_thread_begin() __attribute__((weak));
extern "C" void __tsan_ignore_thread_end() __attribute__((weak));

namespace sim { extern void (*step_hook)(); extern void (*alloc_hook)(); namespace heap { void on_transition(void (*)(bool)); bool inside(); void thread_reset(); } }

namespace sim { namespace sched {

    enum { MAX = 8 };
    struct Task {
        const std::function<void()>* fn; const std::function<bool()>* ready; const char* what; uint64_t until;
        int word; bool done, blocked; pthread_t th;
    };
    static Task t_[MAX]; static int n_, cur_ = -1, main_word_; static bool on_, cancel_; static uint64_t left_; static unsigned preempt_;
    static Sim* s_; static Stats* st_;

    static void sleep_on(int* w) { while (!__atomic_load_n(w, __ATOMIC_ACQUIRE)) syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); __atomic_store_n(w, 0, __ATOMIC_RELAXED); }
    static void wake(int* w) { __atomic_store_n(w, 1, __ATOMIC_RELEASE); syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

    bool active() { return on_; }
    int self() { return cur_; }
    static void quantum() {
        left_ = ~0ull;
        if (!preempt_) return;
        if (!s_->draw(24)) return;
        static const uint32_t m[] = { 1, 2048, 256, 32 };
        left_ = 1 + s_->draw(s_->draw(4) ? m[preempt_ & 3] : 4);
    }
    static bool can(int i) { return !t_[i].done && (!t_[i].blocked || cancel_ || (t_[i].ready && (*t_[i].ready)())); }
    // the next to run, or -1
    static int choose(int avoid) {
        int r[MAX], n = 0;
        for (int i = 0; i != n_; ++i) { int const k = cur_ >= 0 ? (cur_ + i) % n_ : i; if (k != avoid && can(k)) r[n++] = k; }
        if (!n && avoid >= 0 && can(avoid)) return avoid;
        if (!n) { // time passes
            uint64_t at = ~0ull;
            for (int i = 0; i != n_; ++i) if (!t_[i].done && t_[i].blocked && t_[i].until && t_[i].until < at) at = t_[i].until;
            if (at != ~0ull) {
                if (at > s_->clock_) s_->clock_ = at;
                for (int i = 0; i != n_; ++i) if (!t_[i].done && t_[i].blocked && t_[i].until && t_[i].until <= s_->clock_) t_[i].blocked = false, t_[i].until = 0, r[n++] = i;
            }
        }
        if (!n) return -1;
        return r[s_->draw(n)];
    }
    static void go(int i) { // from the current thread to task i
        int const from = cur_;
        if (i == from) return;
        ++st_->switches; s_->mix(i + 1); s_->sig_ = mix64(s_->sig_ ^ (uint64_t)(i + 1));
        cur_ = i; t_[i].blocked = false; t_[i].until = 0;
        wake(&t_[i].word);
        if (from >= 0 && !t_[from].done) sleep_on(&t_[from].word);
    }
    static void deadlock() {
        heap::Pause hp;
        st_->deadlock = true; cancel_ = true;
        for (int i = 0; i != n_; ++i) if (!t_[i].done) { st_->stuck += fmt("%stask %d: %s", st_->stuck.empty() ? "" : "; ", i, t_[i].what ? t_[i].what : "?"); }
        s_->ev("deadlock: %s", st_->stuck.c_str());
    }
    static void sw(int avoid) {
        int k = choose(avoid);
        if (k < 0) { deadlock(); k = choose(-1); }
        quantum(); go(k);
    }
    void point() {
        if (!on_ || cur_ < 0) return;
        ++st_->points;
        if (--left_) return;
        heap::Pause hp;
        ++st_->preemptions; sw(cur_);
    }
    void yield() { if (on_ && cur_ >= 0) { heap::Pause hp; sw(cur_); } }
    static void block(const std::function<bool()>* ready, const char* what, uint64_t until) {
        heap::Pause hp;
        Task& t = t_[cur_]; int const me = cur_;
        if (cancel_) throw Cancelled();
        t.ready = ready; t.what = what; t.until = until; t.blocked = true; ++st_->waits;
        int k = choose(-1);
        if (k < 0) { deadlock(); k = me; }
        quantum();
        if (k == me) t.blocked = false, t.until = 0; else go(k);
        t.ready = nullptr;
        if (cancel_) throw Cancelled();
    }
    void wait(const std::function<bool()>& ready, const char* what) { while (!ready()) { if (!on_ || cur_ < 0) throw Cancelled(); block(&ready, what, 0); } }
    void sleep(uint64_t ticks) {
        if (!ticks) return;
        if (!on_ || cur_ < 0) { s_ ? s_->tick(ticks) : void(); return; }
        static const std::function<bool()> never = [] { return false; };
        block(&never, "asleep", s_->clock_ + ticks);
    }
    static void* main_of(void* p) {
        Task& t = *(Task*)p;
        sleep_on(&t.word);
        heap::thread_reset();
        if (__tsan_ignore_thread_begin) __tsan_ignore_thread_begin();
        try { (*t.fn)(); }
        catch (const Failed&) {}
        catch (const Cancelled&) {}
        catch (const std::exception& x) { s_->violate("escaped-exception", "%s: %s", s_->context(), x.what()); }
        if (__tsan_ignore_thread_end) __tsan_ignore_thread_end();
        t.done = true;
        bool left = false; for (int i = 0; i != n_; ++i) left = left || !t_[i].done;
        if (!left) { cur_ = -1; wake(&main_word_); return nullptr; }
        int k = choose(-1);
        if (k < 0) { deadlock(); k = choose(-1); }
        quantum(); go(k);
        return nullptr;
    }
    // in the library or not
    static void transition(bool in) {
        if (cur_ < 0) return;
        if (in) { if (__tsan_ignore_thread_end) __tsan_ignore_thread_end(); }
        else if (__tsan_ignore_thread_begin) __tsan_ignore_thread_begin();
    }
    Stats run(Sim& s, const std::vector<std::function<void()>>& tasks, unsigned preempt) {
        Stats st; if (tasks.empty()) return st;
        if (tasks.size() > MAX) abort();
        s_ = &s; st_ = &st; n_ = (int)tasks.size(); cur_ = -1; cancel_ = false; preempt_ = preempt; main_word_ = 0;
        memset((void*)t_, 0, sizeof t_);
        for (int i = 0; i != n_; ++i) t_[i].fn = &tasks[i];
        for (int i = 0; i != n_; ++i) if (pthread_create(&t_[i].th, nullptr, main_of, &t_[i])) { fprintf(stderr, "pthread_create\n"); _exit(97); }
        on_ = true; step_hook = point; alloc_hook = point; heap::on_transition(transition);
        int const k = choose(-1); quantum(); go(k); sleep_on(&main_word_);
        step_hook = nullptr; alloc_hook = nullptr; heap::on_transition(nullptr); on_ = false; cur_ = -1;
        for (int i = 0; i != n_; ++i) pthread_join(t_[i].th, nullptr);
        s.mix(st.points);
        return st;
    }

}}

// every edge of instrumented library code is a scheduling point
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t*) { if (sim::sched::on_ && sim::heap::inside()) sim::sched::point(); }
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* b, uint32_t* e) { for ( ; b < e; ++b) *b = 1; }

// function-local statics: a task that finds one being initialised by another waits for it in the scheduler (linked with --wrap)
extern "C" int __real___cxa_guard_acquire(uint64_t*) __attribute__((weak));
extern "C" void __real___cxa_guard_release(uint64_t*) __attribute__((weak));
extern "C" void __real___cxa_guard_abort(uint64_t*) __attribute__((weak));
static uint64_t* guards_[16]; static int nguards_;
static bool held(uint64_t* g) { for (int i = 0; i != nguards_; ++i) if (guards_[i] == g) return true; return false; }
static void drop(uint64_t* g) { for (int i = 0; i != nguards_; ++i) if (guards_[i] == g) { guards_[i] = guards_[--nguards_]; return; } }
extern "C" int __wrap___cxa_guard_acquire(uint64_t* g) {
    if (sim::sched::active() && sim::sched::self() >= 0 && held(g)) { sim::heap::Pause hp; sim::S->probe("waits for an initialisation"); sim::sched::wait([g] { return !held(g); }, "initialisation of a static"); }
    int const r = __real___cxa_guard_acquire(g);
    if (r && nguards_ != 16) guards_[nguards_++] = g;
    return r;
}
extern "C" void __wrap___cxa_guard_release(uint64_t* g) { drop(g); __real___cxa_guard_release(g); }
extern "C" void __wrap___cxa_guard_abort(uint64_t* g) { drop(g); __real___cxa_guard_abort(g); }
