//@ all: time=60 instr=40000000
//@ bound: every combination of options, in their long and their short form; a result of a named API with up to one error and two warnings, each with any code, a message of up to 2 octets and up to 2 places; sources of up to 4 (thorough 5) characters, line breaks and letters of one or two octets anywhere but at the end, which is a line break
//@ outside: several inputs at once being read, outputs that cannot be written, places outside the source, what lies after the last line break, the texts of help and usage
//@ stub: snowcrash::parse: any report and a named API (what it makes of a source is decided elsewhere); the command line library, absent here: long options, short options and their values
#include <algorithm>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <iterator>
#include <map>
#include <memory>
#include <mutex>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#include <sys/mman.h>
#include <unistd.h>
#include "ref.h"
struct Exit {
    int code;
};
[[noreturn]] void drafter_exit(int code) { throw Exit{ code }; }
#define exit drafter_exit
#define main drafter_main
#include "config.cc"
#include "main.cc"
#undef main
#undef exit
namespace
{
    struct Script { // what parsing reports
        snowcrash::Report report;
        std::string name, source;
        snowcrash::BlueprintParserOptions options = 0;
        int parsed = 0;
    } * script;
}
namespace snowcrash
{
    int parse(const mdp::ByteBuffer& source, BlueprintParserOptions options, const ParseResultRef<Blueprint>& out)
    {
        script->source = source;
        script->options = options;
        ++script->parsed;
        out.report = script->report;
        out.node.name = script->name;
        return out.report.error.code;
    }
}
namespace
{
    // the standard streams, while a command runs
    struct Streams {
        std::stringbuf in, out, err;
        std::streambuf *i, *o, *e;
        explicit Streams(const std::string& input) : in(input), i(std::cin.rdbuf(&in)), o(std::cout.rdbuf(&out)), e(std::cerr.rdbuf(&err)) {}
        ~Streams()
        {
            std::cin.rdbuf(i);
            std::cout.rdbuf(o);
            std::cerr.rdbuf(e);
        }
    };
    struct File {
        std::string name;
        File(const char* n, const std::string& text)
        {
            name = sym_is_symbolic_run() ? std::string(n) : "/proc/self/fd/" + std::to_string(memfd_create(n, 0));
            std::ofstream f(name.c_str(), std::ios_base::binary);
            f << text;
        }
        std::string text() const
        {
            std::ifstream f(name.c_str(), std::ios_base::binary);
            std::ostringstream s;
            s << f.rdbuf();
            return s.str();
        }
    };
    typedef std::vector<std::string> Args;
    // its exit code
    int command(const Args& args)
    {
        std::vector<const char*> argv = { "drafter" };
        for (auto& a : args) argv.push_back(a.c_str());
        try {
            return drafter_main((int)argv.size(), argv.data());
        } catch (Exit e) {
            return 1000 + e.code;
        }
    }
    struct Chosen {
        bool lines, validate, maps, log, file_in, file_out;
        int format; // not given, yaml, json
    };
    Args write(const Chosen& c, bool longer, const std::string& in, const std::string& out)
    {
        Args a;
        if (c.file_in) a.push_back(in);
        if (c.lines) a.push_back(longer ? "--use-line-num" : "-u");
        if (c.format) {
            std::string f = c.format == 1 ? "yaml" : "json";
            if (longer) a.push_back("--format=" + f);
            else a.push_back("-f"), a.push_back(f);
        }
        if (c.validate) a.push_back(longer ? "--validate" : "-l");
        if (c.file_out) a.push_back(longer ? "--output" : "-o"), a.push_back(out);
        if (c.maps) a.push_back(longer ? "--sourcemap" : "-s");
        if (c.log) a.push_back(longer ? "--enable-log" : "-L");
        return a;
    }
    // each character of the source with its line and column
    struct Place {
        int line, column;
    };
    std::vector<Place> places(const std::string& source)
    {
        std::vector<Place> r;
        Place at = { 1, 1 };
        for (size_t i = 0; i < source.size(); ++i) {
            if ((source[i] & 0xC0) == 0x80) continue;
            r.push_back(at);
            if (source[i] == '\n') ++at.line, at.column = 1;
            else ++at.column;
        }
        return r;
    }
    std::string where(const mdp::CharactersRangeSet& set, const std::string& source, bool lines)
    {
        std::string r;
        auto at = places(source);
        for (size_t i = 0; i < set.size(); ++i) {
            if (lines) {
                auto a = at[set[i].location], b = at[set[i].location + set[i].length - 1];
                r += "; line " + std::to_string(a.line) + ", column " + std::to_string(a.column) + " - line " + std::to_string(b.line) + ", column " + std::to_string(b.column);
            } else
                r += (i ? ";" : " :") + std::to_string(set[i].location) + ":" + std::to_string(set[i].length);
        }
        return r;
    }
    std::string line(const char* kind, const snowcrash::SourceAnnotation& a, const std::string& source, bool lines)
    {
        return std::string(kind) + ": (" + std::to_string(a.code) + ")  " + a.message + where(a.location, source, lines) + "\n";
    }
    std::string report(const snowcrash::Report& r, const std::string& source, bool lines)
    {
        std::string t = "\n";
        if (r.error.code == 0) t += "OK.\n";
        else t += line("error", r.error, source, lines);
        for (auto& w : r.warnings) t += line("warning", w, source, lines);
        return t;
    }
    void place(snowcrash::SourceAnnotation& a, size_t chars, int n)
    {
        size_t from = 0;
        for (; n-- && from < chars;) {
            size_t at = (size_t)sym_range("at", from, chars - 1), len = (size_t)sym_range("length", 1, chars - at);
            a.location.push_back(mdp::CharactersRange(at, len));
            from = at + len + 1;
        }
    }
    // the text of the result in the format chosen
    std::string result(const std::string& source, const Chosen& c)
    {
        drafter_result* r = nullptr;
        drafter_parse_blueprint(source.c_str(), &r, nullptr);
        auto* o = drafter_init_serialize_options();
        if (c.maps) drafter_set_sourcemaps_included(o);
        drafter_set_format(o, c.format == 2 ? DRAFTER_SERIALIZE_JSON : DRAFTER_SERIALIZE_YAML);
        char* t = drafter_serialize(r, o);
        std::string s = t;
        free(t);
        drafter_free_serialize_options(o);
        drafter_free_result(r);
        return s;
    }
    void some(Script& s, size_t chars)
    {
        script = &s;
        s.name = "N";
        int error = (int)sym_range("error", 0, 3), warnings = (int)sym_range("warnings", 0, 1);
        if (error) {
            s.report.error = snowcrash::SourceAnnotation("no", error);
            s.report.error.location.push_back(mdp::CharactersRange(0, 1));
        }
        if (warnings) {
            s.report.warnings.push_back(snowcrash::Warning("hm", 5));
            s.report.warnings[0].location.push_back(mdp::CharactersRange(chars - 1, 1));
        }
    }
}
HARNESS(options)
{
    Chosen c;
    c.lines = sym_bool("lines");
    c.validate = sym_bool("validate");
    c.maps = sym_bool("maps");
    c.log = sym_bool("log");
    c.file_in = sym_bool("input");
    c.file_out = sym_bool("output");
    c.format = (int)sym_range("format", 0, 2);
    Args args = write(c, sym_bool("long"), "in.apib", "out.json");
    std::vector<const char*> argv = { "drafter" };
    for (auto& a : args) argv.push_back(a.c_str());
    Streams streams("");
    Config config;
    ParseCommadLineOptions((int)argv.size(), argv.data(), config);
    sym_assert(config.lineNumbers == c.lines, "lines and columns are reported where asked for");
    sym_assert(config.validate == c.validate, "a source is only validated where asked for");
    sym_assert(config.sourceMap == c.maps, "source maps are written where asked for");
    sym_assert(config.enableLog == c.log, "a log is kept where asked for");
    sym_assert(config.format == (c.format == 2 ? drafter::JSONFormat : drafter::YAMLFormat), "the result is written as asked for, as YAML if nothing was");
    sym_assert(config.input == (c.file_in ? "in.apib" : ""), "the input is the file given");
    sym_assert(config.output == (c.file_out ? "out.json" : ""), "the output is the file given");
    sym_assert(streams.out.str().empty(), "options alone write nothing");
    sym_reach("options");
}
HARNESS(refused)
{
    Script s;
    some(s, 1);
    Streams streams("a");
    int kind = (int)sym_range("kind", 0, 5);
    const Args args[] = { { "a", "b" }, { "--version" }, { "-f", "xml" }, { "--no" }, { "/no/such/file" }, { "-h" } };
    int code = command(args[kind]);
    bool fine = kind == 1 || kind == 5;
    sym_assert(code == (fine ? 1000 + EXIT_SUCCESS : 1000 + EXIT_FAILURE), "what cannot be done fails, what was done succeeds");
    sym_assert(s.parsed == 0, "nothing is parsed");
    if (kind == 1) sym_assert(streams.out.str() == std::string(drafter_version_string()) + "\n", "the version is printed");
    else sym_assert(streams.out.str().empty() && !streams.err.str().empty(), "the reason is told, and nothing else written");
    if (kind == 4) sym_assert(streams.err.str().find(args[4][0]) != std::string::npos, "the file that cannot be read is named");
    sym_reach(fine ? "asked" : "refused");
}
HARNESS(command)
{
    Chosen c = {};
    c.lines = sym_bool("lines");
    c.validate = sym_bool("validate");
    c.maps = sym_bool("maps");
    c.file_in = sym_bool("input");
    c.file_out = sym_bool("output");
    c.format = (int)sym_range("format", 0, 2);
    std::string source = "\xC3\xA9\n" + sym_str("source", 1, 1) + "\n";
    sym_assume((source[3] >= ' ') & (source[3] <= '~'));
    File in("in", source), out("out", "old");
    Script s;
    some(s, 4);
    std::string want = result(source, c);
    Streams streams(c.file_in ? "other" : source);
    int code = command(write(c, true, in.name, out.name));
    sym_assert(s.parsed == 2, "the source is parsed once");
    sym_assert(ref::eq(s.source, source), "what is parsed is what was read");
    sym_assert(s.options == snowcrash::ExportSourcemapOption, "nothing else is asked of the parser");
    sym_assert(code == s.report.error.code, "the exit code is that of the error, or none");
    std::string told = streams.err.str();
    if (c.validate && c.file_out) {
        size_t end = told.find('\n');
        sym_assert(told.substr(0, 4) == "WARN" && end != told.npos, "an output file that will not be written is warned about");
        told = told.substr(end + 1);
    }
    sym_assert(ref::eq(told, report(s.report, source, c.lines)), "the report is written to the standard error");
    std::string shown = streams.out.str(), kept = out.text();
    if (c.validate) {
        sym_assert(shown.empty() & (kept == "old"), "validating writes no result");
        sym_reach("validate");
    } else {
        sym_assert(ref::eq(c.file_out ? kept : shown, want + "\n"), "the result is written in the format asked for, where asked for");
        sym_assert(c.file_out ? shown.empty() : kept == "old", "the result is written nowhere else");
        sym_reach(c.file_out ? "file" : "shown");
    }
    sym_assert(in.text() == source, "the input is left as it is");
}
namespace
{
    std::string text(size_t most)
    {
        std::string s;
        int n = (int)sym_range("chars", 1, most);
        for (int i = 0; i < n; ++i) {
            int k = (int)sym_range("char", 0, 2);
            s += k == 0 ? "a" : k == 1 ? "\n" : "\xC3\xA9";
        }
        if (s.back() != '\n') s += '\n';
        return s;
    }
    void any(Script& s, size_t chars)
    {
        script = &s;
        s.name = "N";
        // one annotation is anything, others are plain
        int error = (int)sym_range("error", 0, 2), warnings = (int)sym_range("warnings", 0, 2);
        snowcrash::SourceAnnotation one(sym_str("message", 0, 2), (int)sym_range("code", 1, 2) * 6), two("no", 2);
        two.location.push_back(mdp::CharactersRange(0, 1));
        place(one, chars, (int)sym_range("places", 0, 2));
        if (error) s.report.error = error == 1 ? one : two;
        for (int i = 0; i < warnings; ++i) s.report.warnings.push_back((error == 1) | (i != 0) ? two : one);
        sym_reach(error ? "error" : warnings ? "warning" : "none");
    }
}
HARNESS(report)
{
    bool lines = sym_bool("lines");
    std::string source = text(lines ? BOUND(3, 4) : 2);
    Script s;
    any(s, places(source).size());
    std::string want = report(s.report, source, lines);
    drafter_result* r = nullptr;
    int code = drafter_parse_blueprint(source.c_str(), &r, nullptr);
    {
        Streams streams("");
        PrintReport(r, source, lines, code);
        sym_assert(ref::eq(streams.err.str(), want), "a report has a line for each annotation, with its kind, code, message and places");
        sym_assert(streams.out.str().empty(), "a report goes to the standard error");
    }
    drafter_free_result(r);
}
// the report before there is a result
HARNESS(plain)
{
    bool lines = sym_bool("lines");
    std::string source = text(lines ? BOUND(3, 4) : 2);
    Script s;
    any(s, places(source).size());
    sym_assume(!s.report.error.code || !s.report.error.message.empty());
    for (auto& w : s.report.warnings) sym_assume(!w.message.empty());
    Streams streams("");
    PrintReport(s.report, source, lines);
    sym_assert(ref::eq(streams.err.str(), report(s.report, source, lines)), "a report has a line for each annotation, with its kind, code, message and places");
    sym_assert(streams.out.str().empty(), "a report goes to the standard error");
}
