// Sources and sinks the simulator owns: every byte the library reads or writes goes through these. C++11.
#ifndef SIM_IO_HXX_
#define SIM_IO_HXX_

#include "core.hxx"
#include <iterator>
#include <type_traits>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <streambuf>

namespace sim {

    struct SourceError : std::exception { const char* what() const noexcept override { return "source error"; } };
    struct SinkError   : std::exception { const char* what() const noexcept override { return "sink error"; } };


    // the storage/stream behind the checked iterators
    struct Source {
        std::string bytes;          // what will ever be delivered
        size_t cur = 0;             // position of the (single-pass) stream
        size_t hwm = 0;             // one past the furthest byte looked at
        uint64_t accesses = 0;      // element accesses and increments
        uint64_t throw_at = 0;      // access at which the source fails (0: never)
        bool threw = false;
        bool polled_end = false;    // the end was tested while standing at the end of what is delivered
        explicit Source(const std::string& b) : bytes(b) {}
        virtual ~Source() {}
        // the stream needs the byte at position p, or needs to know whether there is one: true if there is
        virtual bool need(size_t p) { return p < bytes.size(); }

        std::vector<uint32_t> pieces; size_t piece_ = 0; // sizes in which a buffered stream gets its bytes, repeating
        size_t piece(size_t left) { size_t const n = pieces.empty() ? left : pieces[piece_++ % pieces.size()]; return n < left ? n : left; }

        void access() {
            ++accesses; S->step();
            if (throw_at && accesses == throw_at) { threw = true; S->fault("source exception"); throw SourceError(); }
        }
        char at(size_t p, const char* how) {
            access();
            if (p >= bytes.size()) { S->violate("over-read", "%s: reads byte %zu of %zu (%s)", S->context(), p, bytes.size(), how); return 0; }
            if (p + 1 > hwm) hwm = p + 1;
            return bytes[p];
        }
        void moved(size_t p) {      // an iterator moved to p
            access();
            if (p > bytes.size()) S->violate("over-advance", "%s: advances to %zu of %zu", S->context(), p, bytes.size());
        }
    };

    // multi-pass
    template <typename Cat> struct It {
        using iterator_category = Cat; using value_type = char; using difference_type = std::ptrdiff_t; using pointer = const char*; using reference = const char&;
        Source* s; std::ptrdiff_t p;
        It() : s(nullptr), p(0) {}
        It(Source* s, std::ptrdiff_t p) : s(s), p(p) {}
        reference operator *() const { static const char z = 0; char const c = s->at((size_t)p, "*"); (void)c; return (size_t)p < s->bytes.size() ? s->bytes[(size_t)p] : z; }
        pointer operator ->() const { return &**this; }
        It& operator ++() { ++p; s->moved((size_t)p); return *this; }
        It operator ++(int) { It t = *this; ++*this; return t; }
        static void bidi() { static_assert(std::is_base_of<std::bidirectional_iterator_tag, Cat>::value, "not bidirectional"); }
        static void ra() { static_assert(std::is_base_of<std::random_access_iterator_tag, Cat>::value, "not random access"); }
        It& operator --() { bidi(); --p; s->moved((size_t)p); return *this; }
        It operator --(int) { bidi(); It t = *this; --*this; return t; }
        It& operator +=(difference_type n) { ra(); p += n; s->moved((size_t)p); return *this; }
        It& operator -=(difference_type n) { ra(); p -= n; s->moved((size_t)p); return *this; }
        friend It operator +(It i, difference_type n) { return i += n; }
        friend It operator +(difference_type n, It i) { return i += n; }
        friend It operator -(It i, difference_type n) { return i -= n; }
        friend difference_type operator -(const It& a, const It& b) { ra(); return a.p - b.p; }
        reference operator [](difference_type n) const { return *(*this + n); }
        friend bool operator ==(const It& a, const It& b) { S->step(); return a.p == b.p; }
        friend bool operator !=(const It& a, const It& b) { S->step(); return a.p != b.p; }
        friend bool operator <(const It& a, const It& b) { ra(); return a.p < b.p; }
        friend bool operator >(const It& a, const It& b) { ra(); return a.p > b.p; }
        friend bool operator <=(const It& a, const It& b) { ra(); return a.p <= b.p; }
        friend bool operator >=(const It& a, const It& b) { ra(); return a.p >= b.p; }
    };

    // single-pass: all copies share the stream; only a copy standing at the stream's position may be used
    struct StreamIt {
        using iterator_category = std::input_iterator_tag; using value_type = char; using difference_type = std::ptrdiff_t; using pointer = const char*; using reference = char;
        static const size_t END = (size_t)-1;
        Source* s; size_t p;
        StreamIt() : s(nullptr), p(END) {}
        explicit StreamIt(Source* s) : s(s), p(s->cur) {}
        struct Proxy { char c; char operator *() const { return c; } };
        bool stale() const {
            if (p != s->cur) { S->violate("single-pass-reuse", "%s: uses a copy at %zu of a stream that is at %zu", S->context(), p, s->cur); return true; }
            return false;
        }
        char operator *() const {
            stale();
            if (!s->need(p)) { s->access(); S->violate("over-read", "%s: reads byte %zu of %zu (stream)", S->context(), p, s->bytes.size()); return 0; }
            return s->at(p, "stream");
        }
        StreamIt& operator ++() {
            stale();
            if (!s->need(p)) { s->access(); S->violate("over-advance", "%s: advances past %zu (stream)", S->context(), s->bytes.size()); return *this; }
            s->access(); if (p + 1 > s->hwm) s->hwm = p + 1;
            p = ++s->cur;
            return *this;
        }
        Proxy operator ++(int) { Proxy r = { **this }; ++*this; return r; }
        bool at_end() const {
            if (!s || p == END) return true;
            S->step();
            if (p != s->cur) return false; // a copy left behind: not at the end of anything
            if (s->need(p)) return false;
            s->polled_end = true; return true;
        }
        friend bool operator ==(const StreamIt& a, const StreamIt& b) { return a.at_end() == b.at_end(); }
        friend bool operator !=(const StreamIt& a, const StreamIt& b) { return !(a == b); }
    };

    // a stream buffer that is refilled with pieces of scheduled sizes, each in its own exactly sized block
    struct PieceBuf : std::streambuf {
        Source& s; size_t next; char* blk = nullptr;
        explicit PieceBuf(Source& s) : s(s), next(s.cur) {}
        ~PieceBuf() { s.cur = consumed(); free(blk); }
        int_type underflow() override {
            heap::Pause pause;
            s.access();
            if (!s.need(next)) { s.polled_end = true; return traits_type::eof(); }
            size_t const n = s.piece(s.bytes.size() - next);
            free(blk); blk = (char*)malloc(n); memcpy(blk, s.bytes.data() + next, n);
            setg(blk, blk, blk + n); next += n;
            return traits_type::to_int_type(*gptr());
        }
        size_t consumed() const { return next - (size_t)(egptr() - gptr()); }
    };

    // exactly sized heap memory: the byte behind the last is poisoned under AddressSanitizer
    struct Exact {
        char* blk; char* b; size_t n;
        explicit Exact(const std::string& s) : n(s.size()) { blk = (char*)malloc(n + 16); b = blk + 16; memset(blk, 0xA5, 16); if (n) memcpy(b, s.data(), n); }
        ~Exact() { free(blk); }
        Exact(const Exact&) = delete; Exact& operator =(const Exact&) = delete;
    };

    struct ReadRes {
        bool ok = false, threw = false; int ec = 0; long end = 0; std::string what; // end: offset, -1 if not inside
        bool bad_alloc = false, source_error = false;
    };

    // ---- sinks -------------------------------------------------------------

    enum SinkKind { W_STR, W_RANGE, W_APPEND, W_GOOD, W_THROW, W_OUTIT, W_FRANGE, W_INDENT, W_N };
    inline const char* name(SinkKind k) { static const char* const n[] = { "string", "range", "append", "good", "throw", "outit", "frange", "indenter" }; return n[k]; }

    struct SinkHook { virtual bool put(const char* p, size_t n) = 0; virtual ~SinkHook() {} };   // where accepted bytes go: false if they cannot

    struct SinkPlan {
        SinkHook* hook = nullptr;
        uint64_t refuse_at = ~0ull;     // offset of the first byte that is not accepted
        bool by_call = false;           // refuse_at counts calls, not bytes
        bool once = false;              // refuses that one call only
        bool partial = false;           // a refused piece is accepted up to the limit (short write)
        size_t capacity = 0;            // ranges
        int flavour = 0;                // forward ranges: 0 of char, 1 of unsigned char; indenter: of 0 string, 1 append sink, 2 range, 3 output iterator
        unsigned tab = 1; char pad = '\t';
    };
    struct SinkState {
        SinkPlan plan; std::string got; uint64_t calls = 0, through = 0; bool refused = false; uint64_t after = 0; // after: bytes offered after a refusal was reported
        bool bad = false;
        // true: accept n bytes
        size_t accept(size_t n) {
            S->step();
            if (!n) return 0; // nothing to refuse
            ++calls;
            if (refused) { after += n; if (!plan.once) return 0; return n; }
            bool const hit = plan.by_call ? calls > plan.refuse_at : got.size() + n > plan.refuse_at;
            if (!hit) return n;
            refused = true; S->fault(plan.once ? "sink refuses once" : "sink refuses");
            return plan.partial && !plan.by_call && plan.refuse_at > got.size() ? (size_t)(plan.refuse_at - got.size()) : 0;
        }
    };

    inline size_t take(SinkState& st, const char* p, size_t n) {
        size_t const k = st.accept(n); heap::Pause hp; st.got.append(p, k);
        if (k && st.plan.hook && !st.plan.hook->put(p, k)) { st.refused = true; return 0; }
        return k;
    }
    // reports refusal by append() == false
    template <typename C> struct AppendSink {
        using value_type = C;
        SinkState& st; std::vector<C> none;
        explicit AppendSink(SinkState& s) : st(s) {}
        void push_back(C c) { append(c); }
        bool append(C c) { char const x = (char)c; return take(st, &x, 1) == 1; }
        bool append(const C* p, std::size_t n) { return take(st, (const char*)p, n) == n; }
        template <typename II> bool append(II f, II l) {
            heap::Pause hp; std::string t; for ( ; f != l; ++f) t += (char)*f;
            return take(st, t.data(), t.size()) == t.size();
        }
        bool append(unsigned n, C c) { heap::Pause hp; std::string const t(n, (char)c); return take(st, t.data(), n) == n; }
        const C* begin() const { return nullptr; } const C* end() const { return nullptr; }
    };
    // reports refusal by good() == false, drops output while bad
    template <typename C> struct GoodSink {
        using value_type = C;
        SinkState& st;
        explicit GoodSink(SinkState& s) : st(s) {}
        void push_back(C c) {
            if (st.bad) { S->step(); st.after += reported; return; }
            char const x = (char)c; if (!take(st, &x, 1)) st.bad = true;
        }
        bool good() const { if (st.bad) reported = 1; return !st.bad; }
        mutable unsigned reported = 0;  // the library has been told
        const C* begin() const { return nullptr; } const C* end() const { return nullptr; }
    };
    // throws
    template <typename C> struct ThrowSink {
        using value_type = C;
        SinkState& st;
        explicit ThrowSink(SinkState& s) : st(s) {}
        void push_back(C c) { size_t k = st.accept(1); if (!k) throw SinkError(); heap::Pause hp; st.got += (char)c; }
        const C* begin() const { return nullptr; } const C* end() const { return nullptr; }
    };
    template <typename C> struct OutIt {
        using iterator_category = std::output_iterator_tag; using value_type = void; using difference_type = std::ptrdiff_t; using pointer = void; using reference = void;
        SinkState* st; uint64_t at = 0; // how many bytes this copy has seen written: only the current one may be written through
        OutIt& operator *() { return *this; } OutIt& operator ++() { return *this; } OutIt operator ++(int) { return *this; }
        OutIt& operator =(C c) {
            if (at != st->through) S->violate("stale output iterator", "%s: writes at %llu through a copy left at %llu", S->context(), (unsigned long long)st->through, (unsigned long long)at);
            char const x = (char)c; if (!take(*st, &x, 1)) throw SinkError();
            at = ++st->through; return *this;
        }
    };
    // bounded forward range
    template <typename C> struct RangeBuf { std::vector<C> cells; size_t cap; bool over = false; explicit RangeBuf(size_t n) : cells(n + 1, (C)0x5A), cap(n) {} };
    template <typename C> struct RangeIt {
        using iterator_category = std::forward_iterator_tag; using value_type = C; using difference_type = std::ptrdiff_t; using pointer = C*; using reference = C&;
        RangeBuf<C>* r; size_t p;
        RangeIt() : r(nullptr), p(0) {}
        RangeIt(RangeBuf<C>* r, size_t p) : r(r), p(p) {}
        reference operator *() const {
            S->step();
            if (p >= r->cap) { S->violate("range-overrun", "%s: touches cell %zu of %zu", S->context(), p, r->cap); return r->cells[r->cap]; }
            return r->cells[p];
        }
        RangeIt& operator ++() { S->step(); if (p >= r->cap) S->violate("range-overrun", "%s: advances past %zu", S->context(), r->cap); else ++p; return *this; }
        RangeIt operator ++(int) { RangeIt t = *this; ++*this; return t; }
        friend bool operator ==(const RangeIt& a, const RangeIt& b) { return a.p == b.p; }
        friend bool operator !=(const RangeIt& a, const RangeIt& b) { return a.p != b.p; }
    };

    struct WriteRes {
        bool ok = false, threw = false; int ec = 0; std::string what; std::string bytes; long end = -1; uint64_t after = 0; bool refused = false; uint64_t calls = 0;
        bool bad_alloc = false, sink_error = false;
    };

}

#endif
