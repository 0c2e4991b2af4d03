#include "agree.hxx"
namespace { using namespace agree;
    Reg<cxon::cbor::node, false> a("cbor::node");
    Reg<cxon::cbor::ordered_node, true> b("cbor::ordered_node");
}
