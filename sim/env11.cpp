// compiled with -std=c++11 -Dcxon=cxon11
#define ENV_NS cxx11
#include "env.inl"
env::Ty* env::built11 = env::cxx11::make();
