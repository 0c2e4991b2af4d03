BUGS = [
dict(id='p01-full-array-cut', property='P01',
  edits=[('lang/cbor/common/container.hxx', """                return  (bio::get(i, e, 0) == X::brk) ||
                        (bio::rewind(i, o), cx/cbor::read_error::size_invalid)""", """                return  (bio::get(i, e, X::brk) == X::brk) ||
                        (bio::rewind(i, o), cx/cbor::read_error::size_invalid)""")],
  needs='a fixed-capacity target filled completely by an array of indefinite length whose break byte was cut off',
  breaks='the missing break of an indefinite-length array is not noticed when the target has no room for more elements',
  demo=r'''
#include "cxon/lib/std/array.hxx"
int main() {
    std::array<int, 3> a{}; std::string const doc("\x9F\x01\x02\x03", 4);
    return bool(cxon::from_bytes<cxon::CBOR<>>(a, doc));
}
'''),
dict(id='p02-consumes-behind-map', property='P02',
  edits=[('lang/common/cio/container.hxx', """                return list_read_<X, Cr>(i, e, cx, element_add), !cx.ec && consume<X>(Cr::end, i, e, cx);""",
                                           """                list_read_<X, Cr>(i, e, cx, element_add);
                return !cx.ec && consume<X>(Cr::end, i, e, cx) && consume<X>(i, e);""")],
  needs='a document followed by white space (the next message of a stream)',
  breaks='white space behind a list or a map is consumed: a single-pass source is asked for what follows the value',
  demo=r'''
int main() {
    std::vector<int> v; std::string const doc = "[1,2] \n[3]";
    auto const r = cxon::from_bytes<cxon::JSON<>>(v, doc);
    return !(r && r.end - doc.begin() == 5);
}
'''),
dict(id='p10-simd-control', property='P10',
  edits=[('lang/common/cio/char.hxx', '__m128i const v4 = _mm_set1_epi8(0x1F);', '__m128i const v4 = _mm_set1_epi8(0x1E);')],
  needs='a string of at least 16 characters with U+001F within one of its first 16-byte blocks',
  breaks='U+001F is written unescaped by the vectorised escaper: the document is not JSON and cannot be read back',
  demo=r'''
int main() {
    std::string const s = "0123456789\x1F""0123456789"; std::string o, t;
    cxon::to_bytes<cxon::JSON<>>(o, s);
    return !(cxon::from_bytes<cxon::JSON<>>(t, o) && s == t);
}
'''),
dict(id='p17-surrogates', property='P17',
  edits=[('lang/common/cio/char.hxx', 'if (s32 < 0xDC00 || s32 > 0xDFFF)\n                    return (s32', 'if (s32 < 0xDC00 || s32 > 0xE000)\n                    return (s32')],
  needs='an escaped high surrogate followed by \\uE000',
  breaks='a surrogate pair with a second half that is not a low surrogate is read as some other character',
  demo=r'''
int main() {
    std::string s; return bool(cxon::from_bytes<cxon::JSON<>>(s, std::string("\"\\uD800\\uE000\"")));
}
'''),
dict(id='p03-fill', property='P03',
  edits=[('lang/common/container.hxx', 'return s <= std::distance(e_, l_) && (std::copy(f, l, e_), std::advance(e_, s), true);', 'return s <= std::distance(f_, l_) && (std::copy(f, l, e_), std::advance(e_, s), true);')],
  needs='a range that is large enough for a single piece of output but not for all of them',
  breaks='a piece that fits in the whole range is written behind its end',
  demo=r'''
int main() {
    char b[64]; int bad = 0; std::vector<std::string> const v = { "abcdef", "ghijkl" };
    for (size_t n = 1; n != 19; ++n) {
        std::fill_n(b, sizeof(b), '~');
        auto const r = cxon::to_bytes<cxon::JSON<>>(b, b + n, v);
        bad += bool(r) != (n >= 19); for (size_t i = n; i != sizeof(b); ++i) bad += b[i] != '~';
    }
    return bad != 0;
}
'''),
]
