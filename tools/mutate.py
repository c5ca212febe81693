#!/usr/bin/env python3
"""tools/mutate.py PROPERTY N [SEED]: small changes to the files a property is about, in a scratch copy of /repo, against the
symbolic part of the property's check. Prints the changes it does not notice, for review: many change nothing that can be observed."""
import concurrent.futures as cf, glob, os, random, re, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("REPO", "/repo")
S = "/tmp/mut"
os.environ["REPO"] = R = S + "/repo"
sys.path[:0] = [HERE, HERE + "/tools"]
import run, props


def mutants(path):
    txt = open(f"{R}/{path}").read().split("\n")
    out, block = [], False
    for n, l in enumerate(txt):
        if "/*" in l:
            block = True
        if block or l.strip().startswith(("//", "*", "#", "template", "typedef", "using", "namespace", "class", "struct", "const char", "case ")) or "operator" in l:
            block = block and "*/" not in l
            continue
        c = l.split("//")[0] if '"' not in l else l
        if not re.match(r"\s{4,}", c):
            continue
        put = lambda x: x != l and out.append((path, n, l, x))
        code = re.sub(r'"(\\.|[^"\\])*"', lambda m: "\x01" * len(m.group(0)), c)
        for a, b in (("==", "!="), ("!=", "=="), ("&&", "||"), ("||", "&&"), (" < ", " <= "), (" > ", " >= "), (" <= ", " < "), (" >= ", " > "), ("true", "false"), ("false", "true"), (" + 1", ""), (" - 1", ""), (" > 0", " > 1"), ("++", "--"), (".begin()", ".end()"), (".front()", ".back()"), (".back()", ".front()")):
            for m in re.finditer(r"(?<![\w<>=!&|+-])" + re.escape(a) + r"(?![\w=])" if a[0].isalpha() else re.escape(a), code):
                if a == "++" or a in ("&&",) and re.search(r"auto&&|\w&& \w+[,)]", code):
                    continue
                put(l[:m.start()] + b + l[m.end():])
        m = re.match(r"^(\s+)(?:} else )?if \((.*)\)( \{)?$", code)
        if m and code.count("(") == code.count(")"):
            s, e = m.span(2)
            put(l[:s] + "false && (" + l[s:e] + ")" + l[e:])
            put(l[:s] + "true || (" + l[s:e] + ")" + l[e:])
        if re.match(r"^\s+[\w.:>()\[\]*-]+(\.|->)(push_back|emplace_back|append|insert|clear|erase|pop_back|push|set|setUnknown|addUnknown)\(.*\);$", code) or re.match(r"^\s+[\w.>\[\]()*:-]+ [+|]?= [^;]*;$", code) or re.match(r"^\s+(continue|break);$", code) or re.match(r"^\s+(\w+::)*\w+\([^;]*\);$", code):
            put(re.match(r"\s*", l).group(0) + ";")
    return out


def deps():
    """source file -> the repository files it reads"""
    def one(p):
        r = run.sh([run.CXX] + run.SYM_FLAGS + run.DEFS + run.INC_REPO + ["-MM", "-MF", "-", p])
        return p, set(re.findall(re.escape(R) + r"/(\S+)", r.stdout.replace("\\\n", " ")))
    with cf.ThreadPoolExecutor(8) as ex:
        return dict(ex.map(one, run.sources()))


def main():
    prop, n = sys.argv[1], int(sys.argv[2])
    seed = sys.argv[3] if len(sys.argv) > 3 else "1"
    os.makedirs(S, exist_ok=True)
    subprocess.run(["rsync", "-a", "--delete", "--exclude=.git", SRC + "/packages", R + "/"] if os.path.exists("/usr/bin/rsync") else ["bash", "-c", f"mkdir -p {R}; find {R} -mindepth 1 -delete; cp -a {SRC}/packages {R}/"], check=True)
    p = next(x for x in props.PROPS if x["id"] == prop)
    ms = [m for f in dict.fromkeys(p["files"]) if "/drafter/src/" in f or "/src/" in f for m in mutants(f)]
    total = len(ms)
    random.Random(seed + prop).shuffle(ms)
    run.build_engine()
    work = S + "/work"
    os.makedirs(work, exist_ok=True)
    pool = cf.ThreadPoolExecutor(8)
    run.build_bitcode(work, pool)
    dep = deps()
    kf = run.known_findings()
    hs = sorted(glob.glob(f"{HERE}/harness/{prop}_*.cpp"))
    done = killed = 0
    survived = []
    print(f"{prop}: {total} changes possible", flush=True)
    for path, ln, old, new in ms:
        if done >= n:
            break
        t = open(f"{R}/{path}").read()
        lines = t.split("\n")
        lines[ln] = new
        open(f"{R}/{path}", "w").write("\n".join(lines))
        t0 = time.time()
        why = None
        try:
            srcs = [s for s, d in dep.items() if path in d]
            save = {}
            bad = False
            for s, f in [(s, pool.submit(run.compile_bc, s, f"{work}/{run.oname(s, '.new')}")) for s in srcs]:
                if not f.result()[0] and os.path.exists(f"{work}/{run.oname(s, '.bc')}"):
                    bad = True
            if bad:
                continue
            objs = []
            for s in run.sources():
                b = f"{work}/{run.oname(s, '.bc')}"
                if s in srcs and os.path.exists(f"{work}/{run.oname(s, '.new')}"):
                    b = f"{work}/{run.oname(s, '.new')}"
                if os.path.exists(b):
                    objs.append(b)
            out = f"{work}/mut.bc"
            r = run.sh([run.LL + "llvm-link"] + objs + ["-o", out])
            if r.returncode:
                r = run.sh([run.LL + "llvm-link", objs[0]] + ["--override=" + o for o in objs[1:]] + ["-o", out])
                if r.returncode:
                    continue
            done += 1
            for h in hs:
                units, opts, notes, tags = run.units_of(h)
                try:
                    bc = run.build_harness_bc(work, h, out, units, [])
                except SystemExit as e:
                    why = "does not build"
                    break
                for u in units:
                    o = dict(opts.get("*", {}))
                    o.update(opts.get(u, {}))
                    res = run.run_unit(bc, u, o, "quick", work, 8, 1)
                    v = [v for v in res["viol"] if not any(k[0] == prop and k[1] == u and re.fullmatch(k[2], run.viol_key(v)) for k in kf)]
                    if v:
                        why = f"{u}: {v[0]['kind']}:{v[0]['msg']}"
                        break
                    if res["fatal"]:
                        why = "fatal " + str(res["fatal"])[:100]
                        break
                if why:
                    break
        finally:
            open(f"{R}/{path}", "w").write(t)
            for s in glob.glob(work + "/*.new"):
                os.unlink(s)
        if why:
            killed += 1
            print(f"  killed {path.split('/')[-1]}:{ln + 1} [{why}] {time.time() - t0:.0f}s", flush=True)
        else:
            print(f"SURVIVED {path}:{ln + 1}\n   - {old.strip()}\n   + {new.strip()}   {time.time() - t0:.0f}s", flush=True)
    print(f"{prop}: {killed} of {done} noticed", flush=True)


main()
