#define STYLE every
#include "style.hxx"
#include "zoo_f.cpp"
