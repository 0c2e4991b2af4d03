#define SIM_DEEP_LIB
#include "deep.hxx"
static int reg = [] {
    using namespace deep; using namespace zoo;
    add<cxon::CBOR<>, cxon::cbor::node>("cbor::node", sim::F_CBOR, true);
    add<XJ, cxon::cbor::node>("cbor::node", sim::F_JSON, true);
    add<XC, cxon::cbor::node>("cbor::node", sim::F_CXCF, true);
    add<cxon::CBOR<>, cxon::cbor::ordered_node>("cbor::ordered_node", sim::F_CBOR, true);
    D<XJ, cxon::cbor::ordered_node, 0>::add("cbor::ordered_node", sim::F_JSON, true);
    D<cxon::CBOR<>, std::vector<cxon::cbor::node>, 0>::add("vector<cbor::node>", sim::F_CBOR, true, true);
    return 0;
}();
