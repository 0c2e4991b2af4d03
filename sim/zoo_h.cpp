// polymorphic JSON nodes
#include "nodes.hxx"
namespace { using namespace zoo;
    ZOO_J("json::node", NODE | UNORDERED, cxon::json::node)
    ZOO_C("json::node", NODE | UNORDERED, cxon::json::node)
    ZOO_B("json::node", NODE | UNORDERED, cxon::json::node)
    ZOO_J("json::ordered_node", NODE, cxon::json::ordered_node)
    ZOO_B("json::ordered_node", NODE, cxon::json::ordered_node)
}
