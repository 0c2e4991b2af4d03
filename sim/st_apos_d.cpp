#define STYLE apos
#include "style.hxx"
#include "zoo_d.cpp"
