// polymorphic CBOR nodes
#include "nodes.hxx"
namespace { using namespace zoo;
    ZOO_B("cbor::node", NODE | UNORDERED, cxon::cbor::node)
    ZOO_J("cbor::node", NODE | UNORDERED, cxon::cbor::node)
    ZOO_B("cbor::ordered_node", NODE, cxon::cbor::ordered_node)
    ZOO_J("cbor::ordered_node", NODE, cxon::cbor::ordered_node)
}
