#define STYLE equal
#include "style.hxx"
#include "zoo_c.cpp"
