#define STYLE open
#include "style.hxx"
#include "zoo_k.cpp"
