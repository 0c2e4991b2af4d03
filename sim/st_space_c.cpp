#define STYLE space
#include "style.hxx"
#include "zoo_c.cpp"
