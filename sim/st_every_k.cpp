#define STYLE every
#include "style.hxx"
#include "zoo_k.cpp"
