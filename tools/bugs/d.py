NT='lang/common/node-value.hxx'; CH='lang/common/cio/char.hxx'; TD='lang/json/tidy.hxx'; NJ='lib/node.json.hxx'; NC='lib/node.cbor.hxx'
PMR = r'''
#include <memory_resource>
struct Res : std::pmr::memory_resource {
    size_t n = 0;
    void* do_allocate(size_t b, size_t a) override { n += b; return std::pmr::new_delete_resource()->allocate(b, a); }
    void do_deallocate(void* p, size_t b, size_t a) override { n -= b; std::pmr::new_delete_resource()->deallocate(p, b, a); }
    bool do_is_equal(memory_resource const& o) const noexcept override { return this == &o; }
};
using A = std::pmr::polymorphic_allocator<char>;
using N = cxon::json::basic_node<cxon::json::node_traits<A>>;
'''
BUGS = [
dict(id='p23-move-alloc', property='P23',
  edits=[(NT, "alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, std::move(get<T>(o)));", "alc::uninitialized_construct_using_allocator<T>(&get<T>(n), o.alloc_, std::move(get<T>(o)));")],
  needs='a node with a string moved into a node with another allocator',
  breaks='the string of the new node keeps using the allocator of the old one',
  demo=PMR + r'''
int main() {
    Res x, y; std::string const d("\"" + std::string(100, 'x') + "\"");
    N a{A(&x)}; cxon::from_bytes(a, d);
    N b(std::move(a), A(&y));
    return y.n < 100;
}
'''),
dict(id='p23-copy-alloc', property='P23',
  edits=[(NT, "alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, get<T>(o));", "alc::uninitialized_construct_using_allocator<T>(&get<T>(n), o.alloc_, get<T>(o));")],
  needs='a node with a string copied into a node with another allocator',
  breaks='the string of the copy uses the allocator of the original',
  demo=PMR + r'''
int main() {
    Res x, y; std::string const d("\"" + std::string(100, 'x') + "\"");
    N a{A(&x)}; cxon::from_bytes(a, d);
    N b(a, A(&y));
    return y.n < 100;
}
'''),
dict(id='p12-static-number', property='P12',
  edits=[('lang/common/cio/numeric.hxx', "                    char s[num_len_max::constant<napa_type<Cx>>(32)];", "                    static char s[num_len_max::constant<napa_type<Cx>>(32)]; // saves the stack")],
  needs='two threads that read integers from a source other than a pointer at the same time',
  breaks='the buffer for digits is shared by all threads',
  flags='-pthread', demo=r'''
#include <list>
#include <thread>
#include <atomic>
int main() {
    std::atomic<int> bad{0}, ready{0};
    auto f = [&](char c) {
        std::string s = "["; for (int i = 0; i != 20000; ++i) s += (i ? "," : "") + std::string(9, c); s += "]";
        std::list<char> const l(s.begin(), s.end());
        ++ready; while (ready != 4) ;
        for (int k = 0; k != 20 && !bad; ++k) {
            std::vector<unsigned> v; auto const e = cxon::from_bytes<cxon::JSON<>>(v, l);
            if (!e || v.size() != 20000) { ++bad; break; }
            for (unsigned x : v) if (x != unsigned(111111111) * (c - '0')) { ++bad; break; }
        }
    };
    std::thread a(f, '1'), b(f, '2'), c(f, '3'), d(f, '4'); a.join(), b.join(), c.join(), d.join();
    return bad != 0;
}
'''),
dict(id='p12-static-utf8', property='P12',
  edits=[(CH, """                        if (c > 0x7F) {
                                char b[4]; int const n = utf32_to_utf8(b, c);
                                return poke<X>(o, b, n, cx);
                        }
                        else    return encode_<X, char>::value(o, char(c), cx);
                    }
                template <typename O, typename Cx, typename S = X>
""", """                        if (c > 0x7F) {
                                static char b[4]; int const n = utf32_to_utf8(b, c);
                                return poke<X>(o, b, n, cx);
                        }
                        else    return encode_<X, char>::value(o, char(c), cx);
                    }
                template <typename O, typename Cx, typename S = X>
""")],
  needs='two threads that write wide strings at the same time',
  breaks='the bytes of a character may be those of one written by another thread',
  flags='-pthread', demo=r'''
#include <thread>
#include <atomic>
int main() {
    std::atomic<int> bad{0}, ready{0};
    auto f = [&](char32_t c, std::string u) {
        std::u32string const s(200000, c); std::string w = "\""; for (int i = 0; i != 200000; ++i) w += u; w += '"';
        ++ready; while (ready != 4) ;
        for (int k = 0; k != 50 && !bad; ++k) { std::string r; if (!cxon::to_bytes<cxon::JSON<>>(r, s) || r != w) ++bad; }
    };
    std::thread a(f, 0x444, "\xd1\x84"), b(f, 0x100, "\xc4\x80"), c(f, 0x20ac, "\xe2\x82\xac"), d(f, 0x1f600, "\xf0\x9f\x98\x80"); a.join(), b.join(), c.join(), d.join();
    return bad != 0;
}
'''),
dict(id='p08-look-ahead', property='P08',
  edits=[('lang/common/cio/container.hxx', "return list_read_<X, Cr>(i, e, cx, element_add), !cx.ec && consume<X>(Cr::end, i, e, cx);", "return list_read_<X, Cr>(i, e, cx, element_add), !cx.ec && consume<X>(Cr::end, i, e, cx) && consume<X>(i, e, cx);")],
  needs='a peer that waits for the answer to a list before it sends more',
  breaks='the reader of a list wants to see what follows the closing bracket',
  demo=r'''
struct Src { std::string s; size_t n = 0; bool over = false; };
struct It {
    using iterator_category = std::input_iterator_tag; using value_type = char; using difference_type = std::ptrdiff_t; using pointer = char const*; using reference = char;
    Src* s = nullptr;
    char operator *() const { if (s->n >= s->s.size()) s->over = true; return s->n < s->s.size() ? s->s[s->n] : ' '; }
    It& operator ++() { ++s->n; return *this; }
    It operator ++(int) { It t = *this; ++s->n; return t; }
    bool operator ==(It const& o) const { return !o.s && s->n > s->s.size(); }
    bool operator !=(It const& o) const { return !(*this == o); }
};
int main() {
    Src s; s.s = "[1,2]"; std::vector<int> v; cxon::from_bytes<cxon::JSON<>>(v, It{&s}, It{});
    return s.over || v.size() != 2; // what is not sent yet must not be asked for
}
'''),
dict(id='p15-last-bracket', property='P15',
  edits=[(TD, "return mut(stt::scl),   poke(o_, '\\n') && poke(o_, (lvl_ ? lvl_ -= tab_ : 0), pad_) && poke(o_, c);", "return mut(stt::scl),   poke(o_, '\\n') && poke(o_, (lvl_ ? lvl_ -= tab_ : 0), pad_) && (poke(o_, c), true);")],
  needs='a buffer that is full just before the last bracket',
  breaks='the indenter reports success though the last bracket is lost',
  demo=r'''
#include "cxon/lang/json/tidy.hxx"
int main() {
    std::string const d = "[1]"; std::string const f = cxon::json::tidy(d);
    std::vector<char> b(f.size() - 1);
    return cxon::json::tidy<cxon::JSON<>>(b.data(), b.data() + b.size(), d);
}
'''),
dict(id='p15-pad-overrun', property='P15',
  edits=[('lang/common/container.hxx', "return  n <= static_cast<std::size_t>(std::distance(e_, l_)) &&", "return  n <= static_cast<std::size_t>(std::distance(f_, l_)) &&")],
  needs='a buffer that ends within the padding of a line',
  breaks='the padding is written beyond the end of the buffer',
  demo=r'''
#include "cxon/lang/json/tidy.hxx"
int main() {
    std::string const d = "[[[[1]]]]", f = cxon::json::tidy(d, 4, ' ');
    for (size_t n = 0; n != f.size(); ++n) {
        std::string b(n + 64, '#');
        cxon::json::tidy<cxon::JSON<>>(&b[0], &b[0] + n, d, 4, ' ');
        if (b.substr(n) != std::string(64, '#')) return 1;
    }
    return 0;
}
'''),
dict(id='p10-size-64k', property='P10',
  edits=[('lang/cbor/fundamental.hxx', "return !(t >> 32) ? !(t >> 16) ?", "return !(t >> 32) ? !(t >> 17) ?")],
  needs='a string, a list or a number of 65536 to 131071',
  breaks='a length of 17 bits is written in two bytes',
  demo=r'''
int main() {
    std::string s(70000, 'x'), t, d; 
    return !(cxon::to_bytes<cxon::CBOR<>>(d, s) && cxon::from_bytes<cxon::CBOR<>>(t, d) && s == t);
}
'''),
dict(id='p07-half-subnormal', property='P07',
  edits=[('lang/common/bio/io.hxx', "std::ldexp(mant, -24);", "std::ldexp(mant, -25);")],
  needs='a subnormal number of half precision',
  breaks='half of the number is read',
  demo=r'''
int main() { double t = 0; std::string const d("\xf9\x02\x00", 3); return !(cxon::from_bytes<cxon::CBOR<>>(t, d) && t == 512.0 / (1 << 24)); }
'''),
dict(id='p06-overlong', property='P06',
  edits=[(CH, """                if (c0 == 0xE0) {
                    c1 = imp::head_(i, e), c2 = imp::tail_(i, e);
                    if (c1 >= 0xA0 &&""", """                if (c0 == 0xE0) {
                    c1 = imp::head_(i, e), c2 = imp::tail_(i, e);
                    if (c1 >= 0x90 &&""")],
  needs='an overlong sequence of three bytes',
  breaks='some overlong UTF-8 is accepted',
  demo=r'''
int main() { cxon::json::node n; std::string const d("\"\xe0\x95\x80\""); return !!cxon::from_bytes(n, d); }
'''),
dict(id='p06-max-uint', property='P06',
  edits=[(NJ, "if (u != plm_<uint, ittp>::max || c > plm_<uint, ittp>::fst) {", "if (u != plm_<uint, ittp>::max || c >= plm_<uint, ittp>::fst) {")],
  needs='the number 18446744073709551615', breaks='the greatest integers become reals', demo=r'''
int main() { cxon::json::node n; std::string const d("18446744073709551615"); return !(cxon::from_bytes(n, d) && n.kind() == cxon::json::node_kind::uint); }
'''),
]
