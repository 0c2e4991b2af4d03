#include "agree.hxx"
namespace hist { Kind* kinds; Arenas arenas; }
namespace agree { Kind* kinds; }
namespace { using namespace agree;
    Reg<cxon::json::node, false> a("json::node");
    Reg<cxon::json::ordered_node, true> b("json::ordered_node");
}
