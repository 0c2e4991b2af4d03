#define STYLE raw
#include "style.hxx"
#include "zoo_b.cpp"
