// Memory shared between the supervising process and the process that runs simulations.
#ifndef SIM_SHM_HXX_
#define SIM_SHM_HXX_
#include <cstdint>
#include <cstring>
namespace sim {
    struct Counter { char name[48]; uint64_t n; };
    struct Shm {
        enum { max_choices = 1 << 18, max_counters = 96, state_slots = 1 << 20 };
        // progress
        uint64_t next_run, done_runs, nontrivial, steps, ticks, ops, draws;
        // current run
        uint32_t run_active; uint64_t cur_run; uint32_t nchoices; uint32_t choices[max_choices]; char context[512];
        // violation found by the run
        uint32_t violated; char cls[256]; char msg[4096]; uint64_t hash;
        // statistics
        Counter faults[max_counters], probes[max_counters];
        uint64_t states_dropped, nstates, nsigs; uint64_t states[state_slots]; uint64_t sigs[state_slots];
        uint32_t nsamples; char samples[6][1200];

        static void count(Counter* c, const char* k, uint64_t n) {
            for (int i = 0; i < max_counters; ++i) {
                if (!c[i].name[0]) strncpy(c[i].name, k, sizeof c[i].name - 1);
                if (strncmp(c[i].name, k, sizeof c[i].name - 1) == 0) { c[i].n += n; return; }
            }
        }
        bool add(uint64_t* tab, uint64_t& n, uint64_t v) {
            if (v == 0) v = 1;
            if (n > state_slots * 3 / 4) { ++states_dropped; return false; }
            for (uint64_t i = v & (state_slots - 1); ; i = (i + 1) & (state_slots - 1)) {
                if (tab[i] == v) return false;
                if (tab[i] == 0) return tab[i] = v, ++n, true;
            }
        }
        void add_state(uint64_t v)  { add(states, nstates, v); }
        bool add_sig(uint64_t v)    { return add(sigs, nsigs, v); }
    };
    extern Shm* shm;
}
#endif
