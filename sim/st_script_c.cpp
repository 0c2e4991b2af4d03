#define STYLE script
#include "style.hxx"
#include "zoo_c.cpp"
