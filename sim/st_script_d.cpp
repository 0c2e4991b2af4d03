#define STYLE script
#include "style.hxx"
#include "zoo_d.cpp"
