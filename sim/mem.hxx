// types that take their memory from an allocator given to them
#ifndef SIM_MEM_HXX_
#define SIM_MEM_HXX_
#include "res.hxx"
#include "zoo.hxx"

namespace mem {

    using sim::Sim; using sim::Res;

    struct AOp {    // all pointers are to storage of op->size bytes
        zoo::Op* op; size_t align; bool node, passes;    // passes: assignment and swap pass the allocator on
        void (*make)(void*, Res*);
        void (*copy)(void*, const void*, Res*);         // without the resource: the copy constructor
        void (*move)(void*, void*, Res*);
        void (*assign)(void*, const void*); void (*massign)(void*, void*); void (*swap)(void*, void*);
        void (*edit)(unsigned, void*, const void*);     // a value is set, a part is taken from the other one
        bool (*text)(const void*, Res*);                // written to a string of the resource
        void (*destroy)(void*);
        Res* (*foreign)(const void*, Res*);             // a part that does not use the resource
        AOp* next;
    };
    extern AOp* aops;

    struct Ptr {    // a plain pointer whose memory comes from the allocator passed with the call
        const char* name; zoo::Fmt f;
        void (*run)(Sim&, const char* name);
        Ptr* next;
    };
    extern Ptr* ptrs;
    struct RegPtr : Ptr { RegPtr(const char* n, zoo::Fmt fm, void (*r)(Sim&, const char*)) { name = n; f = fm; run = r; next = ptrs; ptrs = this; } };

#ifndef ZOO_NO_LIB

    template <typename T> using pal = std::pmr::polymorphic_allocator<T>;
    template <typename T> T& at(void* p) { return ((zoo::Box<T>*)p)->t; }
    template <typename T> const T& at(const void* p) { return ((const zoo::Box<T>*)p)->t; }

    template <typename T> struct Foreign { static Res* get(const T&, Res*) { return nullptr; } };
    template <typename T> struct Edit { static void go(unsigned, T&, const T&) {} };
    template <typename A> Res* other(const A& a, Res* r) { return a.resource() == r ? nullptr : (Res*)a.resource(); }

    template <typename T, bool Node, typename E = void> struct Whole {
        static void fill(AOp& o) { o.copy = nullptr; o.move = nullptr; o.assign = nullptr; o.massign = nullptr; o.swap = nullptr; o.edit = nullptr; }
    };
    template <typename T> struct Whole<T, true> {
        static void fill(AOp& o) {
            o.copy = [] (void* d, const void* s, Res* r) { if (r) new (&at<T>(d)) T(at<T>(s), typename T::allocator_type(r)); else new (&at<T>(d)) T(at<T>(s)); };
            o.move = [] (void* d, void* s, Res* r) { if (r) new (&at<T>(d)) T(std::move(at<T>(s)), typename T::allocator_type(r)); else new (&at<T>(d)) T(std::move(at<T>(s))); };
            o.assign = [] (void* d, const void* s) { at<T>(d) = at<T>(s); };
            o.massign = [] (void* d, void* s) { at<T>(d) = std::move(at<T>(s)); };
            o.swap = [] (void* d, void* s) { at<T>(d).swap(at<T>(s)); };
            o.edit = [] (unsigned n, void* d, const void* o) { Edit<T>::go(n, at<T>(d), at<T>(o)); };
        }
    };
    template <typename T, zoo::Fmt F, bool Node, typename X, typename XL> struct RegA : zoo::Reg<T, F>, AOp {
        RegA(const char* n, unsigned fl) : zoo::Reg<T, F>(n, fl) {
            zoo::Fill<X, XL, T, F == sim::F_CBOR>::read(*this); zoo::Fill<X, XL, T, F == sim::F_CBOR>::write(*this);
            AOp& o = *this;
            o.op = this; o.align = alignof(T); o.node = Node; o.passes = std::allocator_traits<typename T::allocator_type>::propagate_on_container_move_assignment::value;
            o.make = [] (void* p, Res* r) { new (&at<T>(p)) T(typename T::allocator_type(r)); };
            o.destroy = [] (void* p) { at<T>(p).~T(); };
            o.foreign = [] (const void* p, Res* r) -> Res* { return Foreign<T>::get(at<T>(p), r); };
            o.text = [] (const void* p, Res* r) -> bool { std::pmr::string s{pal<char>(r)}; return !cxon::to_bytes<X>(s, at<T>(p)).ec; };
            Whole<T, Node>::fill(o);
            o.next = aops; aops = this;
        }
    };
#   define MEM_N(F, X, XL, FL, ...) static mem::RegA<__VA_ARGS__, F, true, X, XL> ZOO_CAT(an_, __COUNTER__)(#__VA_ARGS__, FL);
#   define MEM_C(F, X, XL, FL, ...) static mem::RegA<__VA_ARGS__, F, false, X, XL> ZOO_CAT(ac_, __COUNTER__)(#__VA_ARGS__, FL);

#endif
}
#endif
