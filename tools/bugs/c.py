BUGS = [
dict(id='p18-escape', property='P18',
  edits=[('lang/common/cio/value.hxx', """                                switch (*i)  {
                                    case '\\\\':              CXON_POKE(o, *i);
                                                            if (++i == e) return false;
                                                            CXON_POKE(o, *i); break;
""", """                                switch (*i)  {
""")],
  needs='a skipped member whose string holds an escaped quote',
  breaks='the end of a skipped string is taken to be at its first escaped quote: the record is refused or the members behind are lost',
  demo=r'''
#include "cxon/lib/std/string.hxx"
struct R { int a; };
CXON_JSON_CLS_READ(R, CXON_JSON_CLS_FIELD_ASIS(a), CXON_JSON_CLS_FIELD_SKIP("s"))
int main() {
    R r{0}; std::string const doc = R"({"s": "x\"", "a": 1})";
    auto const e = cxon::from_bytes<cxon::JSON<>>(r, doc);
    return !(e && r.a == 1);
}
'''),
dict(id='p18-braces', property='P18',
  edits=[('lang/common/cio/value.hxx', "                                    case X::string::del:    if (!skip_s_(o, i, e)) return false;\n                                                            break;\n", "")],
  needs='a skipped member that is a list or a map holding a string with a bracket in it',
  breaks='brackets within the strings of a skipped list are counted',
  demo=r'''
struct R { int a; };
CXON_JSON_CLS_READ(R, CXON_JSON_CLS_FIELD_ASIS(a), CXON_JSON_CLS_FIELD_SKIP("s"))
int main() {
    R r{0}; std::string const doc = R"({"s": ["]"], "a": 1})";
    auto const e = cxon::from_bytes<cxon::JSON<>>(r, doc);
    return !(e && r.a == 1);
}
'''),
dict(id='p02-exp-sign', property='P02',
  edits=[('lib/node.json.hxx', """                        if (c == '-' || c == '+') {
                            CXON_STORE(c);
""", """                        if (c == '-' || c == '+') {
""")],
  needs='a number with a signed exponent read in a node from a source that is not random access',
  breaks='the sign of the exponent is lost for the forward and the single-pass sources only',
  demo=r'''
#include <list>
int main() {
    std::string const doc = "1e-3"; std::list<char> const l(doc.begin(), doc.end()); cxon::json::node a, b;
    bool const x = bool(cxon::from_bytes<cxon::JSON<>>(a, doc)), y = bool(cxon::from_bytes<cxon::JSON<>>(b, l));
    return !(x == y && a == b);
}
'''),
dict(id='p02-digits', property='P02',
  edits=[('lib/node.json.hxx', """                    if (r) {
                        for ( ; c >= '0' && c <= '9'; c = cio::next(i, e)) {
                            CXON_STORE(c);
                        }
                    }
""", """                    if (r) {
                        CXON_STORE(c);
                        for (c = cio::next(i, e) ; c >= '0' && c <= '9'; c = cio::next(i, e))
                            ;
                    }
""")],
  needs='an integer of more than 21 digits read in a node from a source that is not random access',
  breaks='the digits behind the range of the integers are not kept: the value depends on the kind of the source',
  demo=r'''
#include <list>
int main() {
    std::string const doc = "123456789012345678901234"; std::list<char> const l(doc.begin(), doc.end()); cxon::json::node a, b;
    bool const x = bool(cxon::from_bytes<cxon::JSON<>>(a, doc)), y = bool(cxon::from_bytes<cxon::JSON<>>(b, l));
    return !(x == y && a == b);
}
'''),
dict(id='p13-array-key', property='P13',
  edits=[('lib/node.json.hxx', """                                case '['                : { CXON_NODE_RG();     return read_key_(t, CXON_IMBUE(array),      i, e, cx); }
                                case '"': case '\\''     :""", """                                case '['                : {                     return read_key_(t, CXON_IMBUE(array),      i, e, cx); }
                                case '"': case '\\''     :""")],
  needs='a document of deeply nested maps each of which is a list in the key of the one around it',
  breaks='lists in the keys of maps are not counted by the limit of the nesting',
  demo=r'''
struct Q : cxon::json::format_traits { static constexpr bool quote_unquoted_keys = false; };
int main() {
    std::string doc = "1"; // 34 maps, each in a list that is the key of the next one
    for (int i = 0; i != 34; ++i) doc = "{[" + doc + "]:0}";
    cxon::json::node n; return bool(cxon::from_bytes<cxon::JSON<Q>>(n, doc));
}
'''),
dict(id='p13-cbor-tag', property='P13',
  edits=[('lib/node.cbor.hxx', "case X::tag             : { CXON_NODE_RG();         return read_value<Y>(CXON_IMBUE(tag),", "case X::tag             : {                         return read_value<Y>(CXON_IMBUE(tag),")],
  needs='an item with a long chain of tags',
  breaks='tags are not counted by the limit of the nesting: the stack is exhausted by an input of tag bytes',
  demo=r'''
int main() {
    std::string doc(100, '\xC1'); doc += '\x01'; cxon::cbor::node n;
    return bool(cxon::from_bytes<cxon::CBOR<>>(n, doc));
}
'''),
dict(id='p13-write-tag', property='P13',
  edits=[('lib/node.cbor.hxx', "case node_kind::tag         : { CXON_NODE_RG();     return write_value<Y>(o, CXON_GET(tag),", "case node_kind::tag         : {                     return write_value<Y>(o, CXON_GET(tag),")],
  needs='a node with a long chain of tags',
  breaks='tags are not counted by the limit of the nesting when a node is written',
  demo=r'''
int main() {
    cxon::cbor::node n = 1u;
    for (int i = 0; i != 100; ++i) { cxon::cbor::node m; auto& t = m.imbue<cxon::cbor::node::tag>(); t.tag = 1; t.value = n; n = std::move(m); }
    std::string s; return bool(cxon::to_bytes<cxon::CBOR<>>(s, n));
}
'''),
dict(id='p17-exp-plus', property='P17',
  edits=[('lang/common/cio/numeric.hxx', """                    if (c == '-' || c == '+')               CXON_NEXT()
                       if (!chr::is<X>::digit10(c))         return 0;
""", """                    if (is_sign_<T>(c))                     CXON_NEXT()
                       if (!chr::is<X>::digit10(c))         return 0;
""")],
  needs='a number with an exponent with a plus sign, from a source that is not contiguous',
  breaks='1e+3 is refused when the source is not a pointer range',
  demo=r'''
#include <list>
int main() {
    std::string const doc = "1e+3"; std::list<char> const l(doc.begin(), doc.end()); double a = 0;
    return !(cxon::from_bytes<cxon::JSON<>>(a, l) && a == 1e3);
}
'''),
dict(id='p11-int-min', property='P11',
  edits=[('lib/node.json.hxx', "static constexpr T max = -(std::numeric_limits<T>::min() / 10);", "static constexpr T max = std::numeric_limits<T>::max() / 10;"),
         ('lib/node.json.hxx', "static constexpr C fst = C(max * -10 - std::numeric_limits<T>::min()) + '0';", "static constexpr C fst = C(std::numeric_limits<T>::max() - max * 10) + '0';")],
  needs='the least of the signed integers',
  breaks='the least of the signed integers becomes a real when it passes through JSON text',
  demo=r'''
#include <limits>
int main() {
    cxon::json::node a = std::numeric_limits<long long>::min(), b; std::string s;
    return !(cxon::to_bytes<cxon::JSON<>>(s, a) && cxon::from_bytes<cxon::JSON<>>(b, s) && b.is<cxon::json::node::sint>());
}
'''),
dict(id='p07-chunks', property='P07',
  edits=[('lang/cbor/common/container.hxx', "if (m != (b & X::mjr))", "if ((m | 0x20) != ((b & X::mjr) | 0x20))")],
  needs='a byte string of indefinite length that has text strings among its chunks',
  breaks='chunks of another kind are accepted: what is accepted is not well-formed',
  demo=r'''
int main() {
    std::vector<unsigned char> v; std::string const doc("\x5F\x41\x01\x61\x02\xFF", 6);
    return bool(cxon::from_bytes<cxon::CBOR<>>(v, doc));
}
'''),
dict(id='p05-release', property='P05',
  edits=[('lang/common/container.hxx', "~pointer_container()                    { a_.release(f_, l_ - f_); }", "~pointer_container()                    { a_.release(f_, e_ - f_); }")],
  needs='a string read in a plain pointer to characters that fails in the middle, with elements that own something or an allocator that is told the size',
  breaks='what a failed read has allocated is given back with another size, the elements behind are not destroyed',
  demo=r'''
static int live = 0;
struct C { int v; C() : v(0) { ++live; } C(const C& c) : v(c.v) { ++live; } C& operator =(const C&) = default; ~C() { --live; } };
namespace cxon {
    template <typename X, typename II, typename Cx>
        auto read_value(C& c, II& i, II e, Cx& cx) -> enable_for_t<X, CBOR> { return read_value<X>(c.v, i, e, cx); }
}
int main() {
    C* p = nullptr;
    bool const r = bool(cxon::from_bytes<cxon::CBOR<>>(p, std::string("\x83\x01\x02\x60", 4)));
    return !(!r && live == 0);
}
'''),
dict(id='p03-comment', property='P17',
  edits=[('lang/common/cio/io.hxx', """                                     if (        *i != '*') { ++i; continue; }
                                else if (next(i, e) == '/') { ++i; break;    }""",
"""                                     if (        *i != '*') { ++i; continue; }
                                else if (++i == e || *i++ == '/') break;""")],
  needs='a comment that ends with two or more stars',
  breaks='a comment that ends with **/ does not end',
  demo=r'''
template <typename X> struct with_comments : X { static constexpr bool allow_comments = true; };
int main() {
    int a = 0; using J = cxon::JSON<with_comments<cxon::json::format_traits>>;
    return !(cxon::from_bytes<J>(a, std::string("/***/ 7")) && a == 7);
}
'''),
dict(id='p06-surrogate', property='P06',
  edits=[('lang/common/cio/string.hxx', "return cxon::cnt::append(c, T(0xD800 | (c32 >> 10))) && cxon::cnt::append(c, T(0xDC00 | (c32 & 0x3FF)));",
          "return cxon::cnt::append(c, T(0xD800 | ((c32 >> 10) & 0x1FF))) && cxon::cnt::append(c, T(0xDC00 | (c32 & 0x3FF)));")],
  needs='a character of the planes 9 to 16 in a u16string',
  breaks='the characters from U+90000 on do not survive the way through a u16string',
  demo=r'''
int main() {
    std::u16string const s = u"\xDA40\xDC00"; std::u16string t; std::string d;
    return !(cxon::to_bytes<cxon::JSON<>>(d, s) && cxon::from_bytes<cxon::JSON<>>(t, d) && s == t);
}
'''),
]
