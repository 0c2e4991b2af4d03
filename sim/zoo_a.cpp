// fundamental types
#include "zoo.hxx"
namespace { using namespace zoo;
    ZOO_JB("bool", 0, bool)
    ZOO_JCB("int8_t", NUMERIC, signed char)
    ZOO_JB("uint8_t", NUMERIC, unsigned char)
    ZOO_JB("int16_t", NUMERIC, short)
    ZOO_JB("uint16_t", NUMERIC, unsigned short)
    ZOO_JCB("int", NUMERIC, int)
    ZOO_JB("unsigned", NUMERIC, unsigned)
    ZOO_JB("long", NUMERIC, long)
    ZOO_JB("unsigned long long", NUMERIC, unsigned long long)
    ZOO_JB("char", CHARS, char)
    ZOO_JB("char16_t", CHARS, char16_t)
    ZOO_JB("char32_t", CHARS, char32_t)
    ZOO_JB("float", NUMERIC | FLOATS, float)
    ZOO_JCB("double", NUMERIC | FLOATS, double)
}
