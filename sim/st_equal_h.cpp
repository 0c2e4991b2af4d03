#define STYLE equal
#include "style.hxx"
#include "zoo_h.cpp"
