// simulated memory resources: everything taken from one is given back to it, as it was taken
#ifndef SIM_RES_HXX_
#define SIM_RES_HXX_
#include "core.hxx"
#include <map>
#include <new>
#include <cstdlib>
#include <memory_resource>

namespace sim {

    struct Res : std::pmr::memory_resource {
        struct Block { size_t size, align; };
        const char* name; std::map<void*, Block> live; uint64_t taken = 0, bytes = 0, fail = 0, cap = 0; bool fired = false, gone = false;
        explicit Res(const char* n) : name(n) {}
        ~Res() { heap::Pause p; for (auto& b : live) free(b.first); }
        void* take(size_t n, size_t al) {
            heap::Pause p;
            if (gone) S->violate("allocator gone", "%s: takes %zu bytes from %s, which is gone", S->context(), n, name);
            ++taken; S->step();
            if ((fail && !--fail) || (cap && bytes + n > cap) || n > (64u << 20)) { fired = true; return nullptr; }
            void* m = nullptr;
            if (al > alignof(std::max_align_t)) m = aligned_alloc(al, (n + al - 1) / al * al); else m = malloc(n ? n : 1);
            live[m] = Block { n, al }; bytes += n;
            return m;
        }
        void give(void* m, size_t n, size_t al) {
            heap::Pause p;
            auto const i = live.find(m);
            if (i == live.end()) { S->violate("not its own", "%s: gives %s %zu bytes that are not its own%s", S->context(), name, n, gone ? " (it is gone)" : ""); return; } // better leaked than freed twice
            if (i->second.size != n || i->second.align != al) S->violate("wrong size", "%s: gives %s back %zu bytes (alignment %zu) as %zu (%zu)", S->context(), name, i->second.size, i->second.align, n, al);
            bytes -= i->second.size; live.erase(i); free(m);
        }
        void* do_allocate(size_t n, size_t al) override { void* m = take(n, al); if (!m) throw std::bad_alloc(); return m; }
        void do_deallocate(void* m, size_t n, size_t al) override { give(m, n, al); }
        bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
    };

    // an allocator with state, and nothing but what is required; if P, containers pass it on
    extern Res* alloc_default; // of allocators made without a resource
    template <typename T, bool P = false> struct SimAlloc {
        using value_type = T;
        using propagate_on_container_move_assignment = std::integral_constant<bool, P>;
        using propagate_on_container_copy_assignment = std::integral_constant<bool, P>;
        using propagate_on_container_swap = std::integral_constant<bool, P>;
        using is_always_equal = std::false_type;
        template <typename U> struct rebind { using other = SimAlloc<U, P>; };
        Res* r;
        SimAlloc() : r(alloc_default) {}
        SimAlloc(Res* r) : r(r) {}
        template <typename U> SimAlloc(const SimAlloc<U, P>& o) : r(o.r) {}
        Res* resource() const { return r; }
        T* allocate(size_t n) { void* m = r->take(n * sizeof(T), alignof(T)); if (!m) throw std::bad_alloc(); return (T*)m; }
        void deallocate(T* p, size_t n) { r->give(p, n * sizeof(T), alignof(T)); }
        template <typename U> bool operator ==(const SimAlloc<U, P>& o) const { return r == o.r; }
        template <typename U> bool operator !=(const SimAlloc<U, P>& o) const { return r != o.r; }
    };

}
#endif
