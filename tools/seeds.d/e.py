CMD = dict(APIE, srcs=APIE["srcs"] + ["drafter/src/drafter.cc"])
seed("report-ok-clean", "C46", [(D + "reporting.cc", "    if (error == sc::Error::OK) {\n        std::cerr << \"OK.\\n\";", "    if (filter.empty()) {\n        std::cerr << \"OK.\\n\";")],
     "a source with warnings only", "the report of a source without errors does not say OK", r'''
#include "drafter.h"
#include "config.h"
#include "options.h"
#define main drafter_main
#include "main.cc"
#undef main
const int snowcrash::SourceAnnotation::OK = 0;
void ParseCommadLineOptions(int, const char**, Config&) {}
static int code, warnings;
namespace snowcrash
{
    int parse(const mdp::ByteBuffer&, BlueprintParserOptions, const ParseResultRef<Blueprint>& out)
    {
        if (code) out.report.error = Error("no", code);
        for (int i = 0; i < warnings; ++i) out.report.warnings.push_back(Warning("hm", 5));
        return code;
    }
}
int main()
{
    for (code = 0; code < 3; ++code)
        for (warnings = 0; warnings < 3; ++warnings) {
            std::unique_ptr<std::istream> in(new std::istringstream("# A\n"));
            std::unique_ptr<std::ostream> out(new std::ostringstream);
            Config c = {};
            std::ostringstream err;
            auto* old = std::cerr.rdbuf(err.rdbuf());
            int r = ProcessRefract(c, in, out);
            std::cerr.rdbuf(old);
            CHECK(r == code);
            CHECK((err.str().find("OK.") != std::string::npos) == !code);
        }
}''', **CMD)
seed("output-appended", "C46", [(D + "stream.h", "return std::ios_base::out | std::ios_base::binary;", "return std::ios_base::out | std::ios_base::binary | std::ios_base::app;")],
     "an output file that exists", "results are added to what the output file had, which is no result then", r'''
#include "stream.h"
#include <unistd.h>
#include <fstream>
int main()
{
    char name[] = "/tmp/drafter-demo-XXXXXX";
    CHECK(mkstemp(name) >= 0);
    for (auto text : { "a longer text", "text" }) {
        std::unique_ptr<std::ostream> out(CreateStreamFromName<std::ostream>(name));
        *out << text << std::flush;
    }
    std::ifstream in(name);
    std::stringstream s;
    s << in.rdbuf();
    unlink(name);
    CHECK(s.str() == "text");
}''', srcs=[])
