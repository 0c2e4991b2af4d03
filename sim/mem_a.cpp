#include "mem_node.hxx"
typedef cxon::json::basic_node<cxon::json::node_traits<std::pmr::polymorphic_allocator<char>>> pmr_json_node;
typedef cxon::json::basic_node<cxon::json::node_traits<sim::SimAlloc<char, true>>> sim_json_node;
template <> struct zoo::Tr<sim_json_node> : nodes::TrNode<sim_json_node, false> {};
template <> struct zoo::Tr<pmr_json_node> : nodes::TrNode<pmr_json_node, false> {};
namespace mem { MEM_NODE(pmr_json_node) MEM_NODE(sim_json_node) }
namespace { using namespace zoo;
    MEM_N(F_JSON, XJ, XJL, NODE | UNORDERED, pmr_json_node)
    MEM_N(F_CBOR, XB, XB, NODE | UNORDERED, pmr_json_node)
    MEM_N(F_CXCF, XC, XCL, NODE | UNORDERED, pmr_json_node)
    MEM_N(F_JSON, XJ, XJL, NODE | UNORDERED, sim_json_node)
    MEM_N(F_CBOR, XB, XB, NODE | UNORDERED, sim_json_node)
}
