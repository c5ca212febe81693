//@ all: time=60 instr=60000000
//@ bound: any two of 13 shapes of document with a symbolic letter each, parsed one after the other (thorough: any third between, and any parse options), both again after that, and results kept meanwhile; every pair of formats
//@ outside: threads that run at the same time: what is decided is that nothing is kept from one call to another
//@ assume: sundown reports the blocks of the document in order, each followed by its source map
//@ stub: sd_markdown_new, sd_markdown_render: the events of the document
#include "events.h"
#include "shapes.h"
#include "drafter.h"
#include <cstdlib>
#include <cstring>
namespace
{
    struct Answer {
        int code;
        std::string text;
        bool operator==(const Answer& o) const { return code == o.code && ref::eq(text, o.text); }
    };
    drafter_result* parse(md::Doc& d, const drafter_parse_options* o, int& code, int where = 0)
    {
        doc = &d;
        static char buffers[2][1024]; // always the same, as a caller may have it
        auto& buffer = buffers[where];
        sym_assert(d.src.size() < sizeof buffer, "room");
        memcpy(buffer, d.src.c_str(), d.src.size() + 1);
        drafter_result* r = nullptr;
        code = drafter_parse_blueprint(buffer, &r, o);
        return r;
    }
    std::string text(drafter_result* r, const drafter_serialize_options* s)
    {
        char* t = drafter_serialize(r, s);
        std::string x = t ? t : "";
        free(t);
        return x;
    }
    Answer ask(md::Doc& d, const drafter_parse_options* o, const drafter_serialize_options* s, int where = 0)
    {
        Answer a;
        auto* r = parse(d, o, a.code, where);
        a.text = text(r, s);
        drafter_free_result(r);
        return a;
    }
}
HARNESS(again)
{
    md::Doc a, b, like;
    int first_shape = (int)sym_range("first", 0, SHAPES - 1), second = (int)sym_range("second", 0, SHAPES - 1);
    std::string x = sym_of(first_shape, "x"), y = sym_of(second, "y");
    bool choice = sym_choice(second, "second_choice");
    write(a, first_shape, x, sym_choice(first_shape, "first_choice"));
    write(b, second, y, choice);
    write(like, second, y, choice);
    rename(like.root), rename(like.src, names, others);
    auto* os = drafter_init_serialize_options();
    auto* pb = drafter_init_parse_options();
    drafter_set_sourcemaps_included(os);
    if (BOUND(false, sym_bool("name"))) drafter_set_name_required(pb);
    if (BOUND(false, sym_bool("bodies"))) drafter_set_skip_gen_bodies(pb);
    Answer first = ask(a, nullptr, os);
    int code;
    if (BOUND(false, true)) {
        md::Doc c;
        int shape = (int)sym_range("between", 0, SHAPES - 1);
        write(c, shape, sym_of(shape, "z"), false);
        ask(c, nullptr, os);
    }
    auto* kept = parse(b, pb, code);
    Answer other = { code, text(kept, os) };
    Answer fresh = ask(like, pb, os, 1);
    rename(fresh.text, others, names);
    sym_assert(fresh == other, "a source gives the result of the same source with names that were not used before");
    sym_assert(ask(a, nullptr, os) == first, "a source gives the same result whatever was parsed before");
    sym_assert(text(kept, os) == other.text, "a result stays what it is, whatever is parsed after it");
    drafter_free_result(kept);
    sym_assert(ask(b, pb, os) == other, "a source gives the same result whatever was parsed before");
    drafter_free_serialize_options(os);
    drafter_free_parse_options(pb);
    sym_reach(first.code ? "error" : "no error");
}
HARNESS(formats)
{
    md::Doc a;
    int shape = (int)sym_range("shape", 0, SHAPES - 1);
    write(a, shape, sym_of(shape, "x"), sym_choice(shape, "choice"));
    int code;
    auto* r = parse(a, nullptr, code);
    std::string t[4];
    drafter_serialize_options* o[4];
    for (int i = 0; i < 4; ++i) {
        o[i] = drafter_init_serialize_options();
        if (i & 1) drafter_set_sourcemaps_included(o[i]);
        if (i & 2) drafter_set_format(o[i], DRAFTER_SERIALIZE_JSON);
    }
    int first = (int)sym_range("before", 0, 3), second = (int)sym_range("after", 0, 3);
    std::string once = text(r, o[first]);
    text(r, o[second]);
    sym_assert(ref::eq(text(r, o[first]), once), "writing a result changes nothing of it");
    auto* again = parse(a, nullptr, code);
    sym_assert(ref::eq(text(again, o[second]), text(r, o[second])), "writing a result changes nothing of it");
    for (auto* x : o) drafter_free_serialize_options(x);
    drafter_free_result(r);
    drafter_free_result(again);
    sym_reach("formats");
}
