#define STYLE space
#include "style.hxx"
#include "zoo_h.cpp"
