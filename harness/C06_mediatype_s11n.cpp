//@ bound: type, subtype, suffix 0..2 bytes each; one parameter with key 0..2 and value 0..3 bytes, or two parameters with key 0..1 and value 0..1 bytes; every byte value
//@ stub: std::ostringstream is an append-only buffer
#include "ref.h"
#include <apib/syntax/MediaType.h>
#include <backend/MediaTypeS11n.h>
#include <sstream>
using namespace apib::syntax;

static std::string ser(const media_type& m)
{
    std::ostringstream ss;
    using apib::backend::operator<<;
    ss << m;
    return ss.str();
}
static bool special(unsigned char c)
{
    int r = (c <= 32) | (c == 127);
    for (const char* p = "()<>@,;:\\\"/[]?="; *p; ++p) r |= (c == (unsigned char)*p);
    return r;
}
static std::string value(const std::string& v)
{
    int q = 0;
    for (unsigned char c : v) q |= special(c);
    if (!q) return v;
    std::string r = "\"";
    for (char c : v) {
        if (c == '\\' || c == '"') r += '\\';
        if (c == '\r') r += "\\r";
        else r += c;
    }
    return r + '"';
}
static std::string expect(const media_type& m)
{
    if (m.type.empty() || m.subtype.empty()) return "";
    std::string r = m.type + "/" + m.subtype;
    if (!m.suffix.empty()) r += "+" + m.suffix;
    for (auto& p : m.parameters)
        if (!p.first.empty()) r += "; " + p.first + "=" + value(p.second);
    return r;
}
HARNESS(names)
{
    media_type m;
    m.type = sym_str("type", 0, 2);
    m.subtype = sym_str("sub", 0, 2);
    m.suffix = sym_str("suf", 0, 2);
    std::string out = ser(m);
    sym_observe("out", out);
    sym_assert(ref::eq(out, expect(m)), "type/subtype+suffix");
    if (out.empty()) sym_reach("empty");
    else sym_reach("nonempty");
}
HARNESS(one_param)
{
    media_type m;
    m.type = "a";
    m.subtype = "b";
    m.parameters.emplace_back(sym_str("k", 0, 2), sym_str("v", 0, BOUND(3, 5)));
    std::string out = ser(m);
    sym_observe("out", out);
    sym_assert(ref::eq(out, expect(m)), "parameter key=value with quoting");
    // decoding a quoted value yields the value again, except that CR is written as an escaped r
    if (!m.parameters[0].first.empty()) {
        const std::string& v = m.parameters[0].second;
        std::string got = out.substr(5 + 1 + m.parameters[0].first.size());
        if (!got.empty() && got[0] == '"') {
            sym_reach("quoted");
            sym_assert(got.size() >= 2 && got.back() == '"', "quoted value is closed");
            std::string dec;
            bool open = true;
            for (size_t i = 1; i + 1 < got.size(); ++i) {
                if (got[i] == '\\') {
                    ++i;
                    open = i + 1 < got.size();
                } else if (got[i] == '"')
                    open = false;
                if (open) dec += got[i];
            }
            sym_assert(open, "no unescaped quote inside a quoted value");
            sym_assert(dec.size() == v.size(), "decoded length");
            int same = 1;
            for (size_t i = 0; i < v.size() && i < dec.size(); ++i) same &= (dec[i] == v[i]) | ((v[i] == '\r') & (dec[i] == 'r'));
            sym_assert(same, "decoded value");
        } else {
            sym_reach("plain");
            sym_assert(ref::eq(got, v), "plain value verbatim");
        }
    }
}
HARNESS(two_params)
{
    media_type m;
    m.type = "a";
    m.subtype = "b";
    m.suffix = sym_str("suf", 0, 1);
    m.parameters.emplace_back(sym_str("k1", 0, 1), sym_str("v1", 0, 1));
    m.parameters.emplace_back(sym_str("k2", 0, 1), sym_str("v2", 0, 1));
    std::string out = ser(m);
    sym_observe("out", out);
    sym_assert(ref::eq(out, expect(m)), "parameters in order");
    sym_reach("two");
}
