#include "tidy.hxx"
#include "zoo.hxx"
using namespace sim;

namespace {
    template <typename R> void to_string(WriteRes& r, R f) { std::string o; zoo::guard(r, [&] { o = f(); r.ok = true; }); heap::Pause p; r.bytes.assign(o.data(), o.size()); }
    template <typename... I> void go(tidy::To to, const SinkPlan& pl, WriteRes& r, const I&... i) {
        using cxon::json::tidy; size_t const n = pl.capacity;
        switch (to) {
            case tidy::STRING: to_string(r, [&] { return tidy<>(i..., pl.tab, pl.pad); }); break;
            case tidy::BACK: { std::string o; zoo::guard(r, [&] { r.ok = tidy<>(std::back_inserter(o), i..., pl.tab, pl.pad); }); heap::Pause p; r.bytes.assign(o.data(), o.size()); break; }
            case tidy::OUTIT: { SinkState st; st.plan = pl; OutIt<char> o; o.st = &st; zoo::guard(r, [&] { r.ok = tidy<>(o, i..., pl.tab, pl.pad); }); zoo::keep(r, st); break; }
            case tidy::FRANGE: { RangeBuf<char> rb(n); typedef RangeIt<char> O; zoo::guard(r, [&] { r.ok = tidy<>(O(&rb, 0), O(&rb, n), i..., pl.tab, pl.pad); }); heap::Pause p; r.bytes.assign(rb.cells.data(), n); break; }
            default: {
                heap::Pause hp; char* const blk = (char*)malloc(n + 16); char* const b = blk + 16; memset(blk, 0x5A, n + 16);
                zoo::guard(r, [&] { r.ok = tidy<>(b, b + n, i..., pl.tab, pl.pad); });
                for (int k = 0; k != 16; ++k) if (blk[k] != 0x5A) S->violate("range-overrun", "%s: writes before the range", S->context());
                r.bytes.assign(b, n); free(blk);
            }
        }
    }
}

WriteRes tidy::run(By by, To to, Source& src, const SinkPlan& pl) {
    WriteRes r;
    switch (by) {
        case ITERABLE: { const std::string& c = src.bytes; go(to, pl, r, c); break; }
        case STREAM: { StreamIt b(&src), e; go(to, pl, r, b, e); break; }
        default: { typedef It<std::forward_iterator_tag> I; go(to, pl, r, I(&src, 0), I(&src, (long)src.bytes.size())); }
    }
    return r;
}
