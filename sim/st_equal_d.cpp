#define STYLE equal
#include "style.hxx"
#include "zoo_d.cpp"
