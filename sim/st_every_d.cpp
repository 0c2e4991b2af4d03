#define STYLE every
#include "style.hxx"
#include "zoo_d.cpp"
