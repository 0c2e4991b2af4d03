#include "mem_node.hxx"
typedef cxon::cbor::basic_node<cxon::cbor::node_traits<std::pmr::polymorphic_allocator<char>>> pmr_cbor_node;
typedef cxon::cbor::basic_node<cxon::cbor::node_traits<sim::SimAlloc<char, true>>> sim_cbor_node;
template <> struct zoo::Tr<sim_cbor_node> : nodes::TrNode<sim_cbor_node, false> {};
template <> struct zoo::Tr<pmr_cbor_node> : nodes::TrNode<pmr_cbor_node, false> {};
namespace mem { MEM_NODE(pmr_cbor_node) MEM_NODE(sim_cbor_node) }
namespace { using namespace zoo;
    MEM_N(F_CBOR, XB, XB, NODE | UNORDERED, pmr_cbor_node)
    MEM_N(F_JSON, XJ, XJL, NODE | UNORDERED, pmr_cbor_node)
    MEM_N(F_JSON, XJ, XJL, NODE | UNORDERED, sim_cbor_node)
    MEM_N(F_CBOR, XB, XB, NODE | UNORDERED, sim_cbor_node)
}
