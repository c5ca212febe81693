//@ bound: type 9..13 bytes, subtype and suffix 0..7 bytes, every byte value; up to one parameter of 0..1 bytes
//@ outside: longer type, subtype and suffix strings
#include "ref.h"
#include <apib/syntax/MediaType.h>
using namespace apib::syntax;

static media_type input(bool params)
{
    media_type m;
    m.type = sym_str("type", 9, 13);
    m.subtype = sym_str("sub", 0, 7);
    m.suffix = sym_str("suf", 0, 7);
    if (params && sym_bool("hasparam")) m.parameters.emplace_back(sym_str("k", 0, 1), sym_str("v", 0, 1));
    return m;
}
HARNESS(json)
{
    media_type m = input(false);
    bool got = apib::isJSON(m);
    sym_observe("json", got);
    bool want = ref::eqi(m.type, "application") && ref::eqi(m.suffix.empty() ? m.subtype : m.suffix, "json");
    if (got) sym_reach("is json");
    else sym_reach("not json");
    sym_assert(got == want, "isJSON holds exactly for application/json and application/*+json, ignoring case");
}
HARNESS(schema)
{
    media_type m = input(false);
    bool got = apib::isJSONSchema(m);
    sym_observe("schema", got);
    bool want = ref::eqi(m.type, "application") && ref::eqi(m.subtype, "schema") && ref::eqi(m.suffix, "json");
    if (got) sym_reach("is schema");
    else sym_reach("not schema");
    sym_assert(got == want, "isJSONSchema holds exactly for application/schema+json, ignoring case");
    if (got) sym_assert(apib::isJSON(m), "every JSON Schema type is a JSON type");
}
HARNESS(params)
{
    media_type m;
    m.type = "application";
    m.subtype = sym_str("sub", 4, 6);
    m.suffix = sym_bool("suffix") ? std::string("json") : std::string();
    bool j0 = apib::isJSON(m), s0 = apib::isJSONSchema(m);
    m.parameters.emplace_back(sym_str("k", 0, 2), sym_str("v", 0, 2));
    if (sym_bool("two")) m.parameters.emplace_back("q", "1");
    sym_observe("r", j0 * 2 + s0);
    sym_assert(apib::isJSON(m) == j0, "parameters do not affect isJSON");
    sym_assert(apib::isJSONSchema(m) == s0, "parameters do not affect isJSONSchema");
    sym_reach("params");
}
