// what an error says
#ifndef SIM_MSG_HXX_
#define SIM_MSG_HXX_
#include "val.hxx"
namespace msg { enum Of { READ, WRITE, NODE }; std::string message(sim::Fmt f, Of of, int ec); }
#endif
