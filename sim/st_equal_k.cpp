#define STYLE equal
#include "style.hxx"
#include "zoo_k.cpp"
