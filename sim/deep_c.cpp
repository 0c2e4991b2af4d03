// records whose unknown members are skipped, and sinks
#define SIM_DEEP_LIB
#include "deep.hxx"
namespace {
    struct rec { int a = 0; std::string b; bool operator ==(const rec& o) const { return a == o.a && b == o.b; }
        CXON_JSON_CLS_MEMBER(rec, CXON_JSON_CLS_FIELD_ASIS(a), CXON_JSON_CLS_FIELD_SKIP("skipped"), CXON_JSON_CLS_FIELD_ASIS(b))
        CXON_CBOR_CLS_MEMBER(rec, CXON_CBOR_CLS_FIELD_ASIS(a), CXON_CBOR_CLS_FIELD_SKIP("skipped"), CXON_CBOR_CLS_FIELD_ASIS(b))
    };
    struct Rec {
        static sim::Val to(const void* p) { const rec& r = *(const rec*)p; sim::Val v = sim::Val::map(); v.a.push_back(sim::Val::sint(r.a)); v.a.push_back(sim::Val::str(r.b)); return v; }
        static bool from(void* p, const sim::Val&) { *(rec*)p = rec(); return true; }
    };
    template <typename X> void add(const char* n, sim::Fmt f) {
        typedef deep::D<X, rec, 0> D;
        deep::DOp o = { n, f, 0, false, false, D::make, D::drop, Rec::from, Rec::to, D::ptr, D::stream, nullptr };
        deep::ops().push_back(o);
    }
    int reg = (add<zoo::XJ>("record", sim::F_JSON), add<zoo::XC>("record", sim::F_CXCF), add<cxon::CBOR<>>("record", sim::F_CBOR), 0);
}
