#define SIM_DEEP_LIB
#include "deep.hxx"
namespace deep { std::vector<DOp>& ops() { static std::vector<DOp> v; return v; } }
static int reg = [] {
    using namespace deep; using namespace zoo;
    add<XJ, cxon::json::node>("json::node", sim::F_JSON, false);
    add<XC, cxon::json::node>("json::node", sim::F_CXCF, false);
    add<cxon::CBOR<>, cxon::json::node>("json::node", sim::F_CBOR, false);
    add<XJ, cxon::json::ordered_node>("json::ordered_node", sim::F_JSON, false);
    D<cxon::CBOR<>, cxon::json::ordered_node, 0>::add("json::ordered_node", sim::F_CBOR, false);
    D<XJ, std::vector<cxon::json::node>, 0>::add("vector<json::node>", sim::F_JSON, false, true);
    D<cxon::CBOR<>, std::vector<cxon::json::node>, 0>::add("vector<json::node>", sim::F_CBOR, false, true);
    return 0;
}();
