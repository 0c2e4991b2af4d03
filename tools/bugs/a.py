BUGS = [
dict(id='p01-indefinite-string-cut', property='P01',
  edits=[('lang/cbor/common/container.hxx', 'for (auto b = bio::peek(i, e, 0); b != X::brk; b = bio::peek(i, e, 0)) {', 'for (auto b = bio::peek(i, e, 0); b != X::brk; b = bio::peek(i, e, X::brk)) {')],
  needs='CBOR input that ends exactly between two chunks of an indefinite-length string',
  breaks='a byte or text string of indefinite length that is cut behind a complete chunk is read as a complete one',
  demo=r'''
#include <string>
int main() {
    std::string const doc = "\x7F\x63""abc\x63""def\xFF"; int bad = 0;
    for (size_t n = 0; n != doc.size(); ++n) {
        std::string s; std::string const in = doc.substr(0, n);
        if (cxon::from_bytes<cxon::CBOR<>>(s, in)) ++bad;
    }
    return bad != 0;
}
'''),
dict(id='p02-upper-exponent', property='P02',
  edits=[('lang/common/cio/numeric.hxx', """                trap_zero:
                    ;                                       CXON_NEXT()
                    if (c == '.')                           goto trap_fraction;
                    if (c == 'e' || c == 'E')               goto trap_exponent;
""", """                trap_zero:
                    ;                                       CXON_NEXT()
                    if (c == '.')                           goto trap_fraction;
                    if (c == 'e')                           goto trap_exponent;
""")],
  needs='a number whose integral part is a single zero directly followed by an upper-case exponent, not read from a pointer range',
  breaks='0E5 read through iterators or a stream stops behind the zero, from a pointer range it is read completely',
  demo=r'''
#include <string>
#include <list>
int main() {
    std::string const doc = "[0e5,0E-1]"; std::list<char> const l(doc.begin(), doc.end());
    std::vector<double> a, b;
    auto const ra = cxon::from_bytes<cxon::JSON<>>(a, doc.data(), doc.data() + doc.size());
    auto const rb = cxon::from_bytes<cxon::JSON<>>(b, l.begin(), l.end());
    return !(bool(ra) == bool(rb) && a == b);
}
''' ),
dict(id='p04-last-piece', property='P04',
  edits=[('lang/common/cio/io.hxx', 'return push_(o, p...), o.good();', 'return o.good() && (push_(o, p...), true);')],
  needs='a sink with good() that fails while the very last piece of the document is written',
  breaks='the state of the sink is checked before a piece is pushed instead of behind it: a refusal of the last piece is reported as success',
  demo=r'''
#include <string>
struct Sink {
    std::string s; size_t n; bool ok = true;
    using value_type = char;
    void push_back(char c) { if (s.size() < n) s.push_back(c); else ok = false; }
    bool good() const { return ok; }
    const char* begin() const { return nullptr; } const char* end() const { return nullptr; }
};
int main() {
    std::vector<int> const v = { 1, 22, 333 }; int bad = 0;
    for (size_t n = 0; n != 10; ++n) { Sink o; o.n = n; if (cxon::to_bytes<cxon::JSON<>>(o, v)) ++bad; }
    return bad != 0;
}
'''),
dict(id='p10-double-digits', property='P10',
  edits=[('lang/common/cio/numeric.hxx', 'fp_precision::constant<napa_type<Cx>>(std::numeric_limits<T>::max_digits10)', 'fp_precision::constant<napa_type<Cx>>(std::numeric_limits<T>::digits10 + 1)')],
  needs='a floating-point value that needs all of its max_digits10 significant digits',
  breaks='floating-point values are written with one significant digit less than what identifies them',
  demo=r'''
#include <string>
int main() {
    int bad = 0; unsigned long long x = 88172645463325252ull;
    for (int i = 0; i != 1000; ++i) {
        x ^= x << 13, x ^= x >> 7, x ^= x << 17;
        double const d = (double)(x >> 11) / 9007199254740992.; double e = 0;
        std::string s; if (!cxon::to_bytes<cxon::JSON<>>(s, d) || !cxon::from_bytes<cxon::JSON<>>(e, s) || d != e) ++bad;
    }
    return bad != 0;
}
'''),
dict(id='p17-overlong', property='P17',
  edits=[('lang/common/cio/char.hxx', """                if (c0 == 0xF0) {
                    c1 = imp::head_(i, e), c2 = imp::tail_(i, e), c3 = imp::tail_(i, e);
                    if (c1 >= 0x90 &&""", """                if (c0 == 0xF0) {
                    c1 = imp::head_(i, e), c2 = imp::tail_(i, e), c3 = imp::tail_(i, e);
                    if (c1 >= 0x80 &&""")],
  needs='a four-byte UTF-8 sequence that encodes a code point below U+10000',
  breaks='overlong UTF-8 sequences are read as text',
  demo=r'''
#include <string>
int main() {
    std::string s; return bool(cxon::from_bytes<cxon::JSON<>>(s, std::string("\"\xF0\x80\x80\xAF\"")));
}
'''),
]
