// json::tidy on simulated sources and sinks
#ifndef SIM_TIDY_HXX_
#define SIM_TIDY_HXX_
#include "io.hxx"
namespace tidy {
    enum To { STRING, BACK, OUTIT, RANGE, FRANGE, TO_N };
    inline const char* name(To t) { static const char* const n[] = { "string", "back inserter", "output iterator", "range", "forward range" }; return n[t]; }
    enum By { ITERABLE, STREAM, FORWARD, BY_N };
    inline const char* name(By b) { static const char* const n[] = { "string", "stream", "forward" }; return n[b]; }
    sim::WriteRes run(By by, To to, sim::Source& src, const sim::SinkPlan& pl);
}
#endif
