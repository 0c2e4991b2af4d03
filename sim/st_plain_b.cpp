#define STYLE plain
#include "style.hxx"
#include "zoo_b.cpp"
