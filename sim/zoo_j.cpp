// polymorphic nodes in the remaining formats
#include "nodes.hxx"
namespace { using namespace zoo;
    ZOO_C("json::ordered_node", NODE, cxon::json::ordered_node)
    ZOO_C("cbor::node", NODE | UNORDERED, cxon::cbor::node)
    ZOO_C("cbor::ordered_node", NODE, cxon::cbor::ordered_node)
}
