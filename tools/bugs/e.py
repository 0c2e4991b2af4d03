BI='lang/common/bio/io.hxx'; CC='lang/cbor/common/container.hxx'
PIPE = r'''
#include <iterator>
#include <streambuf>
struct Pipe : std::streambuf { // what has arrived; asks for more only if read behind it
    std::string s; int asked = 0;
    explicit Pipe(std::string const& t) : s(t) { setg(&s[0], &s[0], &s[0] + s.size()); }
    int_type underflow() override { ++asked; return traits_type::eof(); }
};
'''
BUGS = [
dict(id='p08-number-tail', property='P08', edits=[(BI, "for ( ; j != N && i != e; ++j, ++i)", "for ( ; i != e && j != N; ++j, ++i)")],
  needs='a CBOR number of several bytes at the end of a message read from a stream',
  breaks='the reader asks for a byte behind the message and blocks',
  demo=PIPE + r'''
int main() {
    std::string s; cxon::to_bytes<cxon::CBOR<>>(s, 70000);
    Pipe p(s); int v = 0;
    auto const r = cxon::from_bytes<cxon::CBOR<>>(v, std::istreambuf_iterator<char>(&p), std::istreambuf_iterator<char>());
    return !(r && v == 70000 && p.asked == 0);
}
'''),
dict(id='p08-string-tail', property='P08', edits=[(CC, "for ( ; n != 0 && f != l; --n, ++f)", "for ( ; f != l && n != 0; --n, ++f)")],
  needs='a CBOR string at the end of a message read from a stream',
  breaks='the reader asks for a byte behind the message and blocks',
  demo=PIPE + r'''
int main() {
    std::string s; cxon::to_bytes<cxon::CBOR<>>(s, std::string("text"));
    Pipe p(s); std::string v;
    auto const r = cxon::from_bytes<cxon::CBOR<>>(v, std::istreambuf_iterator<char>(&p), std::istreambuf_iterator<char>());
    return !(r && v == "text" && p.asked == 0);
}
'''),
dict(id='p07-u32-sign', property='P07', edits=[(BI, "R const x = (R(bs[3])<< 0) | (R(bs[2])<< 8) |\n                            (R(bs[1])<<16) | (R(bs[0])<<24) ;", "std::int32_t const x = (R(bs[3])<< 0) | (R(bs[2])<< 8) |\n                            (R(bs[1])<<16) | (R(bs[0])<<24) ;")],
  needs='an integer of four bytes above 2^31', breaks='it is read as a huge value',
  demo=r'''
int main() {
    std::string const s("\x1A\xFF\x00\x00\x01", 5); cxon::cbor::node n;
    auto const r = cxon::from_bytes<cxon::CBOR<>>(n, s);
    return !(r && n == cxon::cbor::node(cxon::cbor::node::uint(0xFF000001ull)));
}
'''),
dict(id='p07-chunk-kind', property='P07', edits=[(CC, "if (m != (b & X::mjr))", "if (m > (b & X::mjr))")],
  needs='a chunked byte string one of whose chunks is text', breaks='it is accepted',
  demo=r'''
int main() {
    std::string const s("\x5F\x41" "a\x61" "b\xFF", 6); cxon::cbor::node n;
    return !!cxon::from_bytes<cxon::CBOR<>>(n, s);
}
'''),
dict(id='p20-indef-overrun', property='P20', edits=[(CC, "size_(t) < t.max_size() && bio::peek(i, e, 0) != X::brk", "bio::peek(i, e, 0) != X::brk")],
  needs='an array of indefinite length that is longer than the target', breaks='writes past the target',
  demo=r'''
#include "cxon/lib/std/array.hxx"
int main() {
    std::string const s("\x9F\x01\x02\x03\x04\xFF", 6);
    struct { int a[2]; int g[2]; } t = { {0, 0}, {7, 7} };
    return !!cxon::from_bytes<cxon::CBOR<>>(t.a, s) || t.g[0] != 7;
}
'''),
dict(id='p18-skip-count', property='P18', edits=[('lang/cbor/class.hxx', "st[N] = !std::get<N>(fs).dflt(t) && !is_sink<typename E::type>::value;", "st[N] = !std::get<N>(fs).dflt(t);")],
  needs='a record with a skipped member written as CBOR', breaks='the map claims more members than it has',
  demo=r'''
namespace m { struct R { int a = 0; }; }
CXON_CBOR_CLS(m::R, CXON_CBOR_CLS_FIELD_ASIS(a), CXON_CBOR_CLS_FIELD_SKIP("b"))
int main() {
    std::string s; m::R r; cxon::to_bytes<cxon::CBOR<>>(s, r);
    m::R q; return !cxon::from_bytes<cxon::CBOR<>>(q, s);
}
'''),
dict(id='p12-static-id', property='P12', edits=[('lang/common/cio/class.hxx', "for (char id[ids_len_max::constant<napa_type<Cx>>(64)]; ; ) {", "for (static char id[ids_len_max::constant<napa_type<Cx>>(64)]; ; ) {")],
  needs='two threads that read records at the same time', breaks='the buffer for the names of members is shared by all threads',
  flags='-pthread', demo=r'''
#include <thread>
#include <atomic>
namespace m { struct R { int aaaaaaaaaa = 0, bbbbbbbbbb = 0; }; }
CXON_JSON_CLS(m::R, CXON_JSON_CLS_FIELD_ASIS(aaaaaaaaaa), CXON_JSON_CLS_FIELD_ASIS(bbbbbbbbbb))
int main() {
    std::atomic<int> bad{0}, ready{0};
    auto f = [&](char c) {
        std::string s = "["; for (int i = 0; i != 20000; ++i) s += std::string(i ? ",{\"" : "{\"") + std::string(10, c) + "\":1}"; s += "]";
        ++ready; while (ready != 4) ;
        for (int k = 0; k != 30 && !bad; ++k) {
            std::vector<m::R> v; auto const e = cxon::from_bytes<cxon::JSON<>>(v, s);
            if (!e || v.size() != 20000) { ++bad; break; }
            for (auto& x : v) if (x.aaaaaaaaaa != (c == 'a') || x.bbbbbbbbbb != (c == 'b')) { ++bad; break; }
        }
    };
    std::thread a(f, 'a'), b(f, 'b'), c(f, 'a'), d(f, 'b'); a.join(), b.join(), c.join(), d.join();
    return bad != 0;
}
'''),
dict(id='p10-number-buffer', property='P10', edits=[('lang/common/cio/numeric.hxx', "max_(2, max_exponent_digits10_(std::numeric_limits<T>::max_exponent10)) +\n                                                4", "max_(2, max_exponent_digits10_(std::numeric_limits<T>::max_exponent10)) +\n                                                2")],
  needs='a negative number with all its digits and a negative exponent of three', breaks='it does not fit its buffer',
  demo=r'''
int main() {
    double const d = -1.2345678901234567e-300; std::string s; cxon::to_bytes<cxon::JSON<>>(s, d);
    double e = 0; return !cxon::from_bytes<cxon::JSON<>>(e, s) || e != d;
}
'''),
dict(id='p15-ast-escape', property='P15', edits=[('lang/json/tidy.hxx', "case '\\'': mut(stt::scl); break;\n                            case '\\\\': mut(stt::esc); break;", "case '\\'': mut(stt::scl); break;")],
  needs='a string in single quotes with an escaped quote in text that is tidied', breaks='white space inside the string is changed',
  demo=r'''
#include "cxon/lang/json/tidy.hxx"
int main() {
    std::string const s = "['a\\' b  , c']";
    return cxon::json::tidy<cxon::JSON<>, std::string>(s, 1, ' ').find("a\\' b  , c") == std::string::npos;
}
'''),
dict(id='p18-default-first', property='P18', edits=[('lang/common/cio/class.hxx', "if (!std::get<N>(fs).isdf(t))\n                                    return  write_field_<X>(o, t, std::get<N>(fs), cx) &&", "if (!std::get<N>(fs).isdf(t) || N + 1 == L)\n                                    return  write_field_<X>(o, t, std::get<N>(fs), cx) &&")],
  needs='a record all of whose members have their default', breaks='the last member is written though it has its default',
  demo=r'''
namespace m { struct R { int a = 0, b = 0; }; }
CXON_JSON_CLS(m::R, CXON_JSON_CLS_FIELD_ASIS_DFLT(a, self.a == 0), CXON_JSON_CLS_FIELD_ASIS_DFLT(b, self.b == 0))
int main() {
    std::string s; m::R r; cxon::to_bytes<cxon::JSON<>>(s, r); return s != "{}";
}
'''),
]
