#define STYLE plain
#include "style.hxx"
#include "zoo_d.cpp"
