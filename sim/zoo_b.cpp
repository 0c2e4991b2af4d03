// strings
#include "zoo.hxx"
#include "cxon/lib/std/string.hxx"
namespace zoo {
    template <typename C, typename A> struct Tr<std::basic_string<C, std::char_traits<C>, A>> : TrStr<std::basic_string<C, std::char_traits<C>, A>> {};
    // owning character pointers, as the readers make them
    template <typename C> struct TrPtr {
        static void gen(Sim& s, C*& t, unsigned) {
            Life<C*>::end(t); t = nullptr; if (s.draw(6) == 5) return;
            std::basic_string<C> u; units(u, sim::gen_utf8(s, 12)); size_t const z = u.find(C(0)); if (z != u.npos) u.resize(z);
            t = std::allocator<C>().allocate(u.size() + 1); for (size_t i = 0; i <= u.size(); ++i) t[i] = u.c_str()[i];
        }
        static Val to(C* const& t, Fmt f) {
            if (!t) return Val::null();
            std::basic_string<C> u(t); if (f == F_CBOR) u.push_back(C(0));
            return str_val(u, f);
        }
        static bool eq(C* const& a, C* const& b) { return !a || !b ? a == b : std::basic_string<C>(a) == std::basic_string<C>(b); }
        static From from(const Val&, Fmt, C*&) { return UNKNOWN; }
    };
    template <> struct Tr<char*> : TrPtr<char> {};
    template <> struct Tr<char16_t*> : TrPtr<char16_t> {};
    template <> struct Life<char*> { static void end(char*& t) { ::operator delete(t); t = nullptr; } };
    template <> struct Life<char16_t*> { static void end(char16_t*& t) { ::operator delete(t); t = nullptr; } };
}
namespace { using namespace zoo;
    ZOO_JCB("string", CHARS, std::string)
    ZOO_JB("u16string", CHARS, std::u16string)
    ZOO_JB("u32string", CHARS, std::u32string)
    ZOO_J("wstring", CHARS, std::wstring)
#   if defined(__cpp_char8_t)
    ZOO_J("u8string", CHARS, std::u8string)
#   endif
    ZOO_JCB("char[8]", CHARS | FIXED, char[8])
    ZOO_JB("char16_t[8]", CHARS | FIXED, char16_t[8])
    ZOO_JB("char*", CHARS | RAWPTR, char*)
    ZOO_J("char16_t*", CHARS | RAWPTR, char16_t*)
}
