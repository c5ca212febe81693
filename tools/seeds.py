#!/usr/bin/env python3
"""Generate /verif/seeded from the descriptions in tools/seeds.d/*.py (scratch copy: tools/plant.sh makes /tmp/seed/repo)."""
import glob, json, os, subprocess, sys, textwrap
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = HERE + "/../seeded"
REPO = "/tmp/seed/repo"
P = "packages/"
R = P + "drafter/src/refract/"
SO = P + "drafter/src/utils/so/"
SEEDS = {}

HEAD = '''#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#define CHECK(x) do { if (!(x)) { std::printf("%s:%d: failed: %s\\n", __FILE__, __LINE__, #x); std::exit(1); } } while (0)
'''
SHIM = '''mkdir -p "$t/mpark"
cat > "$t/mpark/variant.hpp" <<'X'
#pragma once
#include <cstddef>
#include <cstdint>
#include <exception>
#include <functional>
#include <memory>
#include <variant>
namespace mpark
{
    using std::bad_variant_access;
    using std::get;
    using std::get_if;
    using std::holds_alternative;
    using std::in_place_index_t;
    using std::in_place_type_t;
    using std::monostate;
    using std::variant;
    using std::visit;
}
X
'''
SH = '''#!/bin/bash
# Builds demo.cpp against the working tree and runs it.
here=$(cd "$(dirname "$0")" && pwd)
p=$PWD/packages
t=$(mktemp -d) || exit 2
trap 'rm -rf -- "$t"' EXIT
%sg++ -std=c++17 -O0 %s-w -I"$t" -I"$here" -I"$p/drafter/src" -I"$p/apib/include" -I"$p/apib/src" -I"$p/boost" -I"$p/apib-parser/include" \\
    -I"$p/apib-parser/src" -I"$p/apib-parser/src/snowcrash" -I"$p/apib-parser/src/markdown-parser" \\
    "$here/demo.cpp" %s -o "$t/demo" || exit 3
timeout 100 "$t/demo"
'''


SNOW = '''mkdir -p "$t/s/tao/pegtl/contrib" "$t/PEGTL/include/tao/pegtl/contrib"
cp "$here/pegtl.hpp" "$t/s/tao/"; cp "$here/pegtl.hpp" "$t/PEGTL/include/tao/"
cp "$here/abnf.hpp" "$t/s/tao/pegtl/contrib/"; cp "$here/abnf.hpp" "$t/PEGTL/include/tao/pegtl/contrib/"
'''
PAR = '''#!/bin/bash
# Builds demo.cpp against the working tree and runs it.
here=$(cd "$(dirname "$0")" && pwd)
p=$PWD/packages
t=$(mktemp -d) || exit 2
trap 'rm -rf -- "$t"' EXIT
%sf="-std=c++17 -O0 -DNDEBUG -DDRAFTER_BUILD_STATIC=1 -w -I$t -I$t/s -I$here -I$p/drafter/src -I$p/apib/include -I$p/apib/src -I$p/boost -I$p/apib-parser/include -I$p/apib-parser/src -I$p/apib-parser/src/snowcrash -I$p/apib-parser/src/markdown-parser"
ls "$here/demo.cpp" %s | xargs -P8 -I{} sh -c 'g++ $1 -c "$2" -o "$3/$(echo "$2" | tr / _).o"' sh "$f" {} "$t" || exit 3
g++ "$t"/*.o %s -o "$t/demo" || exit 3
timeout 100 "$t/demo"
'''


def seed(id, prop, edits, needs, breaks, demo, srcs="LIB", flags="-DNDEBUG ", shim=False, files={}, par=False):
    """edits: [(file, old, new)]; srcs: LIB, or a list relative to packages/ (with globs)"""
    SEEDS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, srcs=srcs, flags=flags, shim=shim, files=files, par=par)


LIBS = '"$p/../_build/libdrafter.a" "$p/../_build/libapib-parser.a" "$p/../_build/libapib.a"'


def make(id):
    s = SEEDS[id]
    d = OUT + "/" + id
    os.makedirs(d, exist_ok=True)
    git = lambda *a: subprocess.run(("git", "-C", REPO) + a, check=True, capture_output=True, text=True).stdout
    git("checkout", "-q", "--", ".")
    for f, old, new in s["edits"]:
        p = REPO + "/" + f
        t = open(p, newline="").read()
        crlf = "\r\n" in t
        if t.count(old) != 1:
            raise SystemExit(f"{id}: {t.count(old)} matches in {f}: {old!r}")
        open(p, "w", newline="").write(t.replace(old, new))
    diff = git("diff")
    git("checkout", "-q", "--", ".")
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.cpp", "w").write(HEAD + s["demo"].strip() + "\n")
    for n, t in s["files"].items():
        open(d + "/" + n, "w").write(t)
    srcs = "" if s["srcs"] == "LIB" else " ".join(f'"$p"/{x}' for x in s["srcs"]) + " "
    if s["par"]:
        sh = PAR % (SHIM + SNOW, srcs, LIBS)
    else:
        sh = SH % (SHIM if s["shim"] else "", s["flags"], srcs + LIBS)
    open(d + "/demo.sh", "w").write(sh)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)


for f in sorted(glob.glob(HERE + "/seeds.d/*.py")):
    exec(compile(open(f).read(), f, "exec"))
for i in sys.argv[1:] or SEEDS:
    make(i)
    print(i)
