// targets of fixed capacity between guard zones, and reads with token limits
#ifndef SIM_CAP_HXX_
#define SIM_CAP_HXX_
#include "io.hxx"
#include "val.hxx"
namespace cap {
    using sim::ReadRes; using sim::Source; using sim::Val; using sim::Fmt;
    enum Way { PTR, RA, FWD, STREAM, WAYS };
    inline const char* name(Way w) { static const char* const n[] = { "pointer", "random-access", "forward", "stream" }; return n[w]; }
    enum Shape { INTS, STRS, LISTS, BYTES, TEXT, BITS, TUPLE };     // what the target holds
    struct Res { ReadRes r; Val v; std::string text; bool guard = true; };    // v: the elements, or the number read
    struct Cap {
        const char* type; Fmt f; Shape shape; unsigned n, unit; bool grows; // unit: bytes of a character; grows: it has only what was read
        Res (*read)(Way, Source&);
        Cap* next;
    };
    extern Cap* caps;
    // a token (number, name of a member, name of an enumeration) read with a limit of so many characters
    enum Token { T_INT, T_LONG, T_DOUBLE, T_NODE, T_NODE_REAL, T_MEMBER, T_ENUM, TOKENS };
    inline const char* name(Token t) { static const char* const n[] = { "int", "long long", "double", "node integer", "node real", "member name", "enumeration" }; return n[t]; }
    enum { LIMITS = 6, LENGTHS = 17 };
    extern const unsigned limits[LIMITS];                           // 0: the default
    extern const unsigned lengths[LENGTHS];                         // of the names of members and enumerations
    extern const char* const names[LENGTHS];
    Res token(Fmt f, Token t, unsigned limit, Way w, Source& s);    // limit: index; v: the number, or an array of the values of the members, or the index of the enumeration
}
#endif
