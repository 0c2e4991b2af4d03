// formats customised with the documented traits, and the types of the zoo in them
#ifndef SIM_STYLE_HXX_
#define SIM_STYLE_HXX_

#include "zoo.hxx"

namespace zoo {

    namespace st {
        // S: the text format underneath for the values (not-a-number is a word in CXCF and a string in JSON)
#       define ST_BASE(N) struct N : cxon::json::format_traits { \
            struct number : cxon::json::format_traits::number { static constexpr bool strict = true; };
#       define ST_MAP(D, S) struct map : cxon::json::format_traits::map { static constexpr char div = D; static constexpr char sep = S; };
#       define ST_LIST(S) struct list : cxon::json::format_traits::list { static constexpr char sep = S; };
#       define ST_DEL(D) struct string : cxon::json::format_traits::string { static constexpr char del = D; };
#       define ST_IS(N) static constexpr bool N = true;
#       define ST_NOT(N) static constexpr bool N = false;

        ST_BASE(equal)  ST_MAP('=', ';') ST_LIST(';') };
        ST_BASE(apos)   ST_DEL('\'') ST_IS(allow_comments) ST_IS(allow_trailing_separators) };
        ST_BASE(open)   ST_NOT(quote_unquoted_keys) ST_IS(allow_trailing_separators) ST_IS(produce_strict_javascript) };
        ST_BASE(raw)    ST_MAP(':', ',') ST_LIST(';') ST_NOT(quote_unquoted_keys) ST_IS(unquote_quoted_keys) ST_IS(allow_comments) };
        ST_BASE(space)  ST_MAP(':', ' ') ST_LIST(' ') ST_IS(allow_javascript_nans) ST_NOT(assume_unique_object_keys) };
        ST_BASE(script) ST_MAP(':', ',') ST_LIST(' ') ST_DEL('\'') ST_IS(allow_javascript_nans) ST_IS(allow_trailing_separators) ST_IS(produce_strict_javascript) };
        ST_BASE(every)  ST_MAP('=', ';') ST_LIST(',') ST_DEL('\'') ST_IS(allow_comments) ST_IS(allow_trailing_separators) ST_IS(allow_javascript_nans) ST_NOT(quote_unquoted_keys) ST_IS(unquote_quoted_keys) ST_NOT(assume_unique_object_keys) };
        ST_BASE(trust)  ST_NOT(validate_string_encoding) ST_NOT(validate_string_escapes) };
        ST_BASE(plain)  ST_IS(assume_no_escapes) ST_MAP('=', ',') };

        template <typename X> sim::TextOpt opt() {
            sim::TextOpt o;
            o.div = X::map::div; o.sep = X::map::sep; o.lsep = X::list::sep; o.del = X::string::del;
            o.keys = X::unquote_quoted_keys ? sim::TextOpt::RAW : X::quote_unquoted_keys ? sim::TextOpt::QUOTED : sim::TextOpt::STRINGS;
            o.comments = X::allow_comments; o.trailing = X::allow_trailing_separators; o.nans = X::allow_javascript_nans;
            o.controls = !X::validate_string_escapes; o.invalid = !X::validate_string_encoding; o.no_escapes = X::assume_no_escapes; o.unique = X::assume_unique_object_keys; o.js = X::produce_strict_javascript;
            return o;
        }
    }

    template <typename X, typename T> struct RegS : Reg<T, X::allow_javascript_nans ? F_CXCF : F_JSON> {
        static constexpr Fmt F = X::allow_javascript_nans ? F_CXCF : F_JSON;
        sim::TextOpt opt; std::string name;
        RegS(const char* st, const char* n, unsigned fl) : Reg<T, F>(n, fl), opt(st::opt<X>()), name(std::string(st) + ' ' + n) {
            if ((fl & NODE) && opt.keys == sim::TextOpt::RAW) opt.keys = sim::TextOpt::VALUES;  // nodes are keys as they are values
            this->type = name.c_str(); this->style = &opt;
            this->gen = [] (Sim& s, void* p) {
                gen_fmt = X::unquote_quoted_keys ? F_CXCF : F_JSON; sim::gen_plain = X::assume_no_escapes;
                Tr<T>::gen(s, ((Box<T>*)p)->t, 2);
                sim::gen_plain = false;
            };
            if ((fl & FIXED) && (fl & CHARS) && X::assume_no_escapes) { ops = this->next; return; }     // their zeros are escaped
            Fill<cxon::JSON<X>, cxon::JSON<X>, T, false>::read(*this); Fill<cxon::JSON<X>, cxon::JSON<X>, T, false>::write(*this);
        }
    };
}

#undef ZOO_J
#undef ZOO_C
#undef ZOO_B
#define ZOO_STR_(S) #S
#define ZOO_STR(S) ZOO_STR_(S)
#define ZOO_J(N, F, ...) static zoo::RegS<zoo::st::STYLE, __VA_ARGS__> ZOO_CAT(zs_, __COUNTER__)(ZOO_STR(STYLE), N, F);
#define ZOO_C(N, F, ...)
#define ZOO_B(N, F, ...)

#endif
