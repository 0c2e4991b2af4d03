#define ENV_NS cxx20
#include "env.inl"
env::Ty* env::built20 = env::cxx20::make();
