#define STYLE script
#include "style.hxx"
#include "zoo_e.cpp"
