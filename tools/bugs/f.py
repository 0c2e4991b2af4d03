CH='lang/common/cio/char.hxx'; CI='lang/common/cio/io.hxx'; CN='lang/cbor/node/node.hxx'; ON='lib/node.ordered.hxx'; CO='lang/common/cio/container.hxx'
BUGS = [
dict(id='p21-tag-order', property='P21', edits=[(CN, "return tag < t.tag || (tag == t.tag && value < t.value);", "return tag < t.tag || value < t.value;")],
  needs='two tagged values, the one with the greater tag having the lesser content', breaks='each is less than the other: indexes lose them',
  demo=r'''
int main() {
    using N = cxon::cbor::node; using T = N::tag;
    N const a(T(1, N(2u))), b(T(2, N(1u)));
    return !((a < b) && !(b < a));
}
'''),
dict(id='p21-member-order', property='P21', edits=[(ON, "return first  < t.first || (first == t.first && second < t.second);", "return first  < t.first || (!(t.first == first) && second < t.second);")],
  needs='ordered nodes that differ in the value of a member only', breaks='neither is less than the other: a set takes them for one', flags='-DORDERED',
  demo=r'''
#include "cxon/lib/node.ordered.hxx"
int main() {
    using N = cxon::json::ordered_node;
    N a, b;
    cxon::from_bytes<cxon::JSON<>>(a, std::string("{\"k\": 1}")); cxon::from_bytes<cxon::JSON<>>(b, std::string("{\"k\": 2}"));
    return !((a < b) && !(b < a));
}
'''),
dict(id='p22-comment-stars', property='P22', edits=[(CI, "else if (next(i, e) == '/') { ++i; break;    }", "else if (next(i, e) == '/') { ++i; break;    }\n                                else if (i != e)            { ++i; continue; }")],
  needs='a comment that ends with an even number of asterisks', breaks='the end of the comment is missed',
  demo=r'''
struct F : cxon::json::format_traits { static constexpr bool allow_comments = true; };
int main() {
    std::vector<int> v;
    auto const r = cxon::from_bytes<cxon::JSON<F>>(v, std::string("[1, /* one **/ 2]"));
    return !(r && v == std::vector<int>{1, 2});
}
'''),
dict(id='p22-separator-tail', property='P22', edits=[(CH, "if (*f == '\\xE2' && l - f > 2) {", "if (*f == '\\xE2' && l - f > 3) {")],
  needs='strict JavaScript and a string that ends with a line separator', breaks='it is written as it is',
  demo=r'''
struct F : cxon::json::format_traits { static constexpr bool produce_strict_javascript = true; };
int main() {
    std::string s; cxon::to_bytes<cxon::JSON<F>>(s, std::string("line\xE2\x80\xA8"));
    return s != "\"line\\u2028\"";
}
'''),
dict(id='p22-apos-simd', property='P22', edits=[(CH, "_mm_cmpeq_epi8(v0, v2) ;", "_mm_cmpeq_epi8(v0, v1) ;")],
  needs='strings delimited by apostrophes, one of them in a string of 16 characters or more', breaks='it is not escaped',
  demo=r'''
struct F : cxon::json::format_traits { struct string : cxon::json::format_traits::string { static constexpr char del = '\''; }; };
int main() {
    std::string const v("it's a string longer than sixteen"); std::string s, t; cxon::to_bytes<cxon::JSON<F>>(s, v);
    auto const r = cxon::from_bytes<cxon::JSON<F>>(t, s);
    return !(r && t == v && r.end == s.end());
}
'''),
]
