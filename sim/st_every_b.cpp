#define STYLE every
#include "style.hxx"
#include "zoo_b.cpp"
