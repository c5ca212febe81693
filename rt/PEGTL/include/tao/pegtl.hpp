// Stand-in for the absent PEGTL submodule (version 2.8, https://github.com/taocpp/PEGTL): the rules, actions and
// inputs the repository's grammars use, with the documented meaning of each. Checked with the repository's own grammar
// tests (tools/pegtltest.sh).
#pragma once
#include <cstddef>
#include <cstdint>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
namespace tao
{
    namespace pegtl
    {
        struct position {
            std::size_t byte = 0, line = 1, byte_in_line = 0;
            std::string source;
        };
        struct parse_error : std::runtime_error {
            std::vector<position> positions;
            parse_error(const std::string& m, const position& p) : std::runtime_error(m) { positions.push_back(p); }
        };
        template <typename...>
        class memory_input
        {
            std::string owned;
            const char *b, *e, *c;
            std::string name;

        public:
            memory_input(const std::string& s, const std::string& source) : b(s.data()), e(s.data() + s.size()), c(b), name(source) {}
            memory_input(std::string&& s, const std::string& source) : owned(std::move(s)), name(source) { b = c = owned.data(), e = b + owned.size(); }
            memory_input(const char* s, const std::string& source) : owned(s), name(source) { b = c = owned.data(), e = b + owned.size(); }
            memory_input(const memory_input&) = delete;
            const char* current() const { return c; }
            const char* begin() const { return b; }
            const char* end() const { return e; }
            void to(const char* p) { c = p; }
            std::size_t size() const { return e - c; }
            bool empty() const { return c == e; }
            std::size_t byte() const { return c - b; }
            pegtl::position position(const char* at) const
            {
                pegtl::position p;
                for (const char* i = b; i != at; ++i) {
                    ++p.byte, ++p.byte_in_line;
                    if (*i == '\n') ++p.line, p.byte_in_line = 0;
                }
                p.source = name;
                return p;
            }
            pegtl::position position() const { return position(c); }
        };
        template <typename Input>
        class action_input
        {
            const Input& in;
            const char *b, *e;

        public:
            action_input(const Input& i, const char* from) : in(i), b(from), e(i.current()) {}
            const char* begin() const { return b; }
            const char* end() const { return e; }
            std::size_t size() const { return e - b; }
            bool empty() const { return b == e; }
            std::string string() const { return std::string(b, e); }
            pegtl::position position() const { return in.position(b); }
        };
        // actions
        template <typename Rule>
        struct nothing {
        };
        template <typename S>
        struct change_state {
            using pegtl_state = S;
        };
        template <typename... S>
        struct change_states {
            using pegtl_states = std::tuple<S...>;
        };
        namespace internal
        {
            template <typename, typename A, typename In, typename... St>
            struct has_apply : std::false_type {
            };
            template <typename A, typename In, typename... St>
            struct has_apply<std::void_t<decltype(A::apply(std::declval<const action_input<In>&>(), std::declval<St&>()...))>, A, In, St...> : std::true_type {
            };
            template <typename, typename A, typename... St>
            struct has_apply0 : std::false_type {
            };
            template <typename A, typename... St>
            struct has_apply0<std::void_t<decltype(A::apply0(std::declval<St&>()...))>, A, St...> : std::true_type {
            };
            template <typename A, typename = void>
            struct new_state : std::false_type {
            };
            template <typename A>
            struct new_state<A, std::void_t<typename A::pegtl_state>> : std::true_type {
            };
            template <typename A, typename = void>
            struct new_states : std::false_type {
            };
            template <typename A>
            struct new_states<A, std::void_t<typename A::pegtl_states>> : std::true_type {
            };
            template <typename Rule, bool Apply, template <typename...> class Action, typename In, typename... St>
            bool plain(In& in, St&... st) // the rule and its own action
            {
                const char* from = in.current();
                if (!Rule::template match<Apply, Action>(in, st...)) {
                    in.to(from);
                    return false;
                }
                if constexpr (Apply) {
                    using A = Action<Rule>;
                    if constexpr (has_apply<void, A, In, St...>::value) {
                        if constexpr (std::is_same<decltype(A::apply(std::declval<const action_input<In>&>(), st...)), bool>::value) {
                            if (!A::apply(action_input<In>(in, from), st...)) {
                                in.to(from);
                                return false;
                            }
                        } else A::apply(action_input<In>(in, from), st...);
                    } else if constexpr (has_apply0<void, A, St...>::value) A::apply0(st...);
                }
                return true;
            }
            template <typename Rule, bool Apply, template <typename...> class Action, typename In, typename... St>
            bool match(In& in, St&... st)
            {
                using A = Action<Rule>;
                if constexpr (new_state<A>::value) {
                    typename A::pegtl_state s(static_cast<const In&>(in), st...);
                    if (!plain<Rule, Apply, Action>(in, s)) return false;
                    if constexpr (Apply) s.success(static_cast<const In&>(in), st...);
                    return true;
                } else if constexpr (new_states<A>::value) {
                    typename A::pegtl_states t{};
                    if (!std::apply([&](auto&... n) { return plain<Rule, Apply, Action>(in, n...); }, t)) return false;
                    if constexpr (Apply) std::apply([&](auto&... n) { A::success(static_cast<const In&>(in), n..., st...); }, t);
                    return true;
                } else return plain<Rule, Apply, Action>(in, st...);
            }
            template <typename Rule, typename In>
            [[noreturn]] void raise(const In& in)
            {
                throw parse_error("parse error", in.position());
            }
        }
        // combinators
        template <typename... R>
        struct seq {
            template <bool Apply, template <typename...> class Action, typename In, typename... St>
            static bool match(In& in, St&... st)
            {
                const char* from = in.current();
                if ((internal::match<R, Apply, Action>(in, st...) && ...)) return true;
                in.to(from);
                return false;
            }
        };
        template <typename... R>
        struct sor {
            template <bool Apply, template <typename...> class Action, typename In, typename... St>
            static bool match(In& in, St&... st)
            {
                return (internal::match<R, Apply, Action>(in, st...) || ...);
            }
        };
        template <typename... R>
        struct opt {
            template <bool Apply, template <typename...> class Action, typename In, typename... St>
            static bool match(In& in, St&... st)
            {
                seq<R...>::template match<Apply, Action>(in, st...);
                return true;
            }
        };
        template <typename... R>
        struct star {
            template <bool Apply, template <typename...> class Action, typename In, typename... St>
            static bool match(In& in, St&... st)
            {
                while (seq<R...>::template match<Apply, Action>(in, st...))
                    ;
                return true;
            }
        };
        template <typename... R>
        struct plus {
            template <bool Apply, template <typename...> class Action, typename In, typename... St>
            static bool match(In& in, St&... st)
            {
                return seq<R...>::template match<Apply, Action>(in, st...) && star<R...>::template match<Apply, Action>(in, st...);
            }
        };
        template <typename... R>
        struct at {
            template <bool Apply, template <typename...> class Action, typename In, typename... St>
            static bool match(In& in, St&... st)
            {
                const char* from = in.current();
                bool r = seq<R...>::template match<false, Action>(in, st...);
                in.to(from);
                return r;
            }
        };
        template <typename... R>
        struct not_at {
            template <bool Apply, template <typename...> class Action, typename In, typename... St>
            static bool match(In& in, St&... st)
            {
                return !at<R...>::template match<false, Action>(in, st...);
            }
        };
        template <typename... R>
        struct must {
            template <typename One, bool Apply, template <typename...> class Action, typename In, typename... St>
            static bool need(In& in, St&... st)
            {
                if (!internal::match<One, Apply, Action>(in, st...)) internal::raise<One>(in);
                return true;
            }
            template <bool Apply, template <typename...> class Action, typename In, typename... St>
            static bool match(In& in, St&... st)
            {
                return (need<R, Apply, Action>(in, st...) && ...);
            }
        };
        template <typename C, typename... R>
        struct if_must {
            template <bool Apply, template <typename...> class Action, typename In, typename... St>
            static bool match(In& in, St&... st)
            {
                return internal::match<C, Apply, Action>(in, st...) && must<R...>::template match<Apply, Action>(in, st...);
            }
        };
        template <typename... R>
        struct try_catch {
            template <bool Apply, template <typename...> class Action, typename In, typename... St>
            static bool match(In& in, St&... st)
            {
                const char* from = in.current();
                try {
                    return seq<R...>::template match<Apply, Action>(in, st...);
                } catch (const parse_error&) {
                    in.to(from);
                    return false;
                }
            }
        };
        template <typename R, typename S>
        struct list : seq<R, star<S, R>> {
        };
        template <unsigned Max, typename... R>
        struct rep_max {
            template <bool Apply, template <typename...> class Action, typename In, typename... St>
            static bool match(In& in, St&... st)
            {
                const char* from = in.current();
                for (unsigned i = 0; i < Max; ++i)
                    if (!seq<R...>::template match<Apply, Action>(in, st...)) return true;
                if (not_at<R...>::template match<Apply, Action>(in, st...)) return true;
                in.to(from);
                return false;
            }
        };
        // octets
        namespace internal
        {
            template <typename Test>
            struct octet {
                template <bool Apply, template <typename...> class Action, typename In, typename... St>
                static bool match(In& in, St&...)
                {
                    if (in.empty() || !Test::test(*in.current())) return false;
                    in.to(in.current() + 1);
                    return true;
                }
            };
            struct any_test {
                static bool test(char) { return true; }
            };
            template <int... C>
            struct one_test {
                static bool test(char c) { return (0 | ... | (c == (char)C)); }
            };
            template <int... C>
            struct not_one_test {
                static bool test(char c) { return (1 & ... & (c != (char)C)); }
            };
            template <int Lo, int Hi>
            struct range_test {
                static bool test(char c) { return (c >= (char)Lo) & (c <= (char)Hi); }
            };
            template <int Lo, int Hi>
            struct not_range_test {
                static bool test(char c) { return !((c >= (char)Lo) & (c <= (char)Hi)); }
            };
            struct alpha_test {
                static bool test(char c) { return ((unsigned)(c - 'a') <= 25u) | ((unsigned)(c - 'A') <= 25u); }
            };
            struct digit_test {
                static bool test(char c) { return (unsigned)(c - '0') <= 9u; }
            };
            struct alnum_test {
                static bool test(char c) { return (int)alpha_test::test(c) | (int)digit_test::test(c); }
            };
            struct xdigit_test {
                static bool test(char c) { return (int)digit_test::test(c) | ((unsigned)(c - 'a') <= 5u) | ((unsigned)(c - 'A') <= 5u); }
            };
        }
        struct any : internal::octet<internal::any_test> {
        };
        template <int... C>
        struct one : internal::octet<internal::one_test<C...>> {
        };
        template <int... C>
        struct not_one : internal::octet<internal::not_one_test<C...>> {
        };
        template <int Lo, int Hi>
        struct range : internal::octet<internal::range_test<Lo, Hi>> {
        };
        template <int Lo, int Hi>
        struct not_range : internal::octet<internal::not_range_test<Lo, Hi>> {
        };
        struct alpha : internal::octet<internal::alpha_test> {
        };
        struct digit : internal::octet<internal::digit_test> {
        };
        struct alnum : internal::octet<internal::alnum_test> {
        };
        struct xdigit : internal::octet<internal::xdigit_test> {
        };
        struct eof {
            template <bool Apply, template <typename...> class Action, typename In, typename... St>
            static bool match(In& in, St&...)
            {
                return in.empty();
            }
        };
        struct eol { // LF or CRLF
            template <bool Apply, template <typename...> class Action, typename In, typename... St>
            static bool match(In& in, St&...)
            {
                std::size_t n = in.size();
                if (n && *in.current() == '\n') n = 1;
                else if (n >= 2 && in.current()[0] == '\r' && in.current()[1] == '\n') n = 2;
                else return false;
                in.to(in.current() + n);
                return true;
            }
        };
        struct eolf : sor<eof, eol> {
        };
        namespace ascii
        {
            using pegtl::alnum;
            using pegtl::alpha;
            using pegtl::any;
            using pegtl::digit;
            using pegtl::eol;
            using pegtl::eolf;
            using pegtl::not_one;
            using pegtl::not_range;
            using pegtl::one;
            using pegtl::range;
            using pegtl::xdigit;
        }
        namespace utf8
        {
            namespace internal
            {
                inline bool peek(const char* p, std::size_t n, char32_t& c, unsigned& size)
                {
                    auto at = [&](std::size_t i) { return (char32_t)(unsigned char)p[i]; };
                    auto more = [&](std::size_t i) { return (at(i) & 0xC0) == 0x80; };
                    if (!n) return false;
                    char32_t a = at(0);
                    if (!(a & 0x80)) {
                        c = a, size = 1;
                        return true;
                    }
                    if ((a & 0xE0) == 0xC0) {
                        if (n < 2 || !more(1)) return false;
                        c = (a & 0x1F) << 6 | (at(1) & 0x3F), size = 2;
                        return c >= 0x80;
                    }
                    if ((a & 0xF0) == 0xE0) {
                        if (n < 3 || !((int)more(1) & (int)more(2))) return false;
                        c = (a & 0x0F) << 12 | (at(1) & 0x3F) << 6 | (at(2) & 0x3F), size = 3;
                        return (c >= 0x800) & !((c >= 0xD800) & (c <= 0xDFFF));
                    }
                    if ((a & 0xF8) == 0xF0) {
                        if (n < 4 || !((int)more(1) & (int)more(2) & (int)more(3))) return false;
                        c = (a & 0x07) << 18 | (at(1) & 0x3F) << 12 | (at(2) & 0x3F) << 6 | (at(3) & 0x3F), size = 4;
                        return (c >= 0x10000) & (c <= 0x10FFFF);
                    }
                    return false;
                }
                template <char32_t... C>
                struct in_ranges;
                template <>
                struct in_ranges<> {
                    static int test(char32_t) { return 0; }
                };
                template <char32_t C>
                struct in_ranges<C> {
                    static int test(char32_t c) { return c == C; }
                };
                template <char32_t Lo, char32_t Hi, char32_t... C>
                struct in_ranges<Lo, Hi, C...> {
                    static int test(char32_t c) { return ((c >= Lo) & (c <= Hi)) | in_ranges<C...>::test(c); }
                };
            }
            template <char32_t... C>
            struct ranges {
                template <bool Apply, template <typename...> class Action, typename In, typename... St>
                static bool match(In& in, St&...)
                {
                    char32_t c;
                    unsigned n;
                    if (!internal::peek(in.current(), in.size(), c, n) || !internal::in_ranges<C...>::test(c)) return false;
                    in.to(in.current() + n);
                    return true;
                }
            };
            struct any : ranges<0, 0x10FFFF> {
            };
        }
        template <typename Rule, template <typename...> class Action = nothing, typename In, typename... St>
        bool parse(In&& in, St&&... st)
        {
            return internal::match<Rule, true, Action>(in, st...);
        }
    }
}
