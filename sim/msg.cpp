#include "msg.hxx"
#include "cxon/json.hxx"
#include "cxon/cbor.hxx"
#include "cxon/lib/node.ordered.hxx"
template <typename E> static std::string say(E e) { std::error_condition const c = e; return std::string(c.category().name()) + ": " + c.message(); }
std::string msg::message(sim::Fmt f, Of of, int ec) {
    bool const b = f == sim::F_CBOR;
    switch (of) {
        case READ:  return b ? say((cxon::cbor::read_error)ec) : say((cxon::json::read_error)ec);
        case WRITE: return b ? say((cxon::cbor::write_error)ec) : say((cxon::json::write_error)ec);
        default:    return say((cxon::node::error)ec);
    }
}
