#include "hist.hxx"
namespace { using namespace hist;
    template <typename Al> using BN = cxon::cbor::basic_node<cxon::cbor::node_traits<Al>>;
    template <typename Al> using BO = cxon::cbor::basic_node<cxon::cbor::ordered_node_traits<Al>>;
    Reg<cxon::cbor::node, false> a1("cbor::node");
    Reg<BN<TA<char, false, true>>, false> a2("cbor::node, allocators stay");
    Reg<BN<TA<char, true, false>>, false> a3("cbor::node, allocators propagate");
    Reg<cxon::cbor::ordered_node, true> b1("cbor::ordered_node");
    Reg<BO<TA<char, false, true>>, true> b2("cbor::ordered_node, allocators stay");
    Reg<BO<TA<char, true, false>>, true> b3("cbor::ordered_node, allocators propagate");
}
