#include "hist.hxx"
namespace hist { Kind* kinds; Arenas arenas; }
namespace { using namespace hist;
    template <typename Al> using JN = cxon::json::basic_node<cxon::json::node_traits<Al>>;
    template <typename Al> using JO = cxon::json::basic_node<cxon::json::ordered_node_traits<Al>>;
    Reg<cxon::json::node, false> a1("json::node");
    Reg<JN<TA<char, false, true>>, false> a2("json::node, allocators stay");
    Reg<JN<TA<char, true, false>>, false> a3("json::node, allocators propagate");
    Reg<cxon::json::ordered_node, true> b1("json::ordered_node");
    Reg<JO<TA<char, false, true>>, true> b2("json::ordered_node, allocators stay");
    Reg<JO<TA<char, true, false>>, true> b3("json::ordered_node, allocators propagate");
}
