// readers and writers of the same types built as C++20 and as C++11 (the library renamed to cxon11)
#ifndef SIM_ENV_HXX_
#define SIM_ENV_HXX_
#include "io.hxx"
#include "val.hxx"
namespace env {
    enum Way { PTR, LAX, RA, FWD, STREAM, WAYS };           // LAX: pointers with the traits as they come (not strict)
    inline const char* name(int w) { static const char* const n[] = { "pointer", "pointer (not strict)", "random-access", "forward", "stream" }; return n[w]; }
    enum Shape { INT, FLT, ARR_INT, ARR_FLT, MAP_INT, PAIR, ANY, STR, WORDS, REC, SHAPES };
    struct Ty {
        const char* name; sim::Fmt f; Shape shape; int bits; bool sign;   // bits: of integers; 24, 53, 64: of floating-point numbers
        void* (*make)(); void (*del)(void*);
        sim::ReadRes (*read)(void*, int, sim::Source&); sim::WriteRes (*write)(const void*, bool append, const sim::SinkPlan&);
        std::string (*bytes)(const void*);                  // what the value is made of
        Ty* next;
    };
    extern Ty* built20; extern Ty* built11;
}
#endif
