#define STYLE trust
#include "style.hxx"
#include "zoo_b.cpp"
