#!/usr/bin/env python3
"""Decide one property: regenerate the encoding from /repo, execute it symbolically, replay, report.

usage: run.py PROPERTY [--tier quick|thorough] [--unit NAME] [-v]
       run.py --setup             build the engine, the runtime model and warm the native object cache
       run.py --replay FILE       replay a reported counterexample on a fresh native build
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
BUILD = HERE + "/build"
LL = "/usr/lib/llvm-18/bin/"
CXX = LL + "clang++"
CC = LL + "clang"
NPROC = os.cpu_count() or 8

INC_REPO = [f"-I{REPO}/packages/{d}" for d in (
    "apib/include", "apib/src", "boost", "apib-parser/include", "apib-parser/src", "apib-parser/src/snowcrash",
    "apib-parser/src/markdown-parser", "drafter/src")] + [f"-I{BUILD}/gen"]
DEFS = ["-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-DDRAFTER_BUILD_STATIC=1"]
SYM_FLAGS = ["-O1", "-std=c++17", "-gline-tables-only", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops",
             "-fno-threadsafe-statics", "-fno-pic", "-fno-pie", "-w", "-emit-llvm", "-c", f"-I{HERE}/rt/symlib", f"-I{HERE}/rt/shim", f"-I{HERE}/rt"]
NAT_FLAGS = ["-O1", "-std=c++17", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address", "-w", "-c",
             f"-I{HERE}/rt/shim", f"-I{HERE}/rt"]
PLAIN_FLAGS = ["-O1", "-std=c++17", "-g1", "-fno-omit-frame-pointer", "-w", "-c", f"-I{HERE}/rt/shim", f"-I{HERE}/rt"]
VERBOSE = False


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **k)


def sources():
    out = []
    for d in ("apib/src", "apib-parser/src", "drafter/src"):
        for p in glob.glob(f"{REPO}/packages/{d}/**/*.cc", recursive=True):
            r = os.path.relpath(p, REPO)
            if re.search(r"/(win|test|tests)/", r) or r.endswith(("/main.cc", "/config.cc")):
                continue
            out.append(p)
    return sorted(out)


def oname(p, suffix):
    return re.sub(r"[^A-Za-z0-9_.-]", "_", os.path.relpath(p, "/")) + suffix


def gen_headers():
    os.makedirs(BUILD + "/gen", exist_ok=True)
    v = BUILD + "/gen/Version.h"
    if not os.path.exists(v):
        with open(v, "w") as f:
            f.write('#ifndef DRAFTER_VERSION_H\n#define DRAFTER_VERSION_H\n#define DRAFTER_VERSION_STRING "v0"\n'
                    "#define DRAFTER_MAJOR_VERSION 0\n#define DRAFTER_MINOR_VERSION 0\n#define DRAFTER_PATCH_VERSION 0\n"
                    "#define DRAFTER_VERSION_IS_RELEASE 0\n#define DRAFTER_MAJOR_VERSION 0\n#endif\n")


def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    gen_headers()
    r = sh(["make", "-s", "-j4", "-C", HERE + "/engine"])
    if r.returncode:
        log(r.stdout + r.stderr)
        raise SystemExit("engine build failed")
    for src, out, comp in (("rt.cpp", "rt.bc", CXX), ("rtc.c", "rtc.bc", CC)):
        o = f"{BUILD}/{out}"
        deps = glob.glob(HERE + "/rt/**/*", recursive=True)
        if os.path.exists(o) and all(os.path.getmtime(d) <= os.path.getmtime(o) for d in deps if os.path.isfile(d)):
            continue
        fl = [f for f in SYM_FLAGS if not (comp == CC and f.startswith("-std="))]
        r = sh([comp] + fl + ["-fno-builtin", f"{HERE}/rt/{src}", "-o", o + f".{os.getpid()}"])
        if r.returncode:
            log(r.stderr)
            raise SystemExit("runtime model build failed")
        os.replace(o + f".{os.getpid()}", o)


# ------------------------------------------------------------------ symbolic build
def compile_bc(src, out, extra=()):
    r = sh([CXX] + SYM_FLAGS + DEFS + list(extra) + INC_REPO + [src, "-o", out])
    return r.returncode == 0, r.stderr


def build_bitcode(work, pool):
    """Every translation unit of the repository, from its current sources."""
    futs = {p: pool.submit(compile_bc, p, f"{work}/{oname(p, '.bc')}") for p in sources()}
    objs, failed = [], []
    for p, f in futs.items():
        ok, err = f.result()
        if ok:
            objs.append(f"{work}/{oname(p, '.bc')}")
        else:
            failed.append(os.path.relpath(p, REPO))
    out = f"{work}/repo.bc"
    r = sh([LL + "llvm-link"] + objs + ["-o", out])
    if r.returncode:
        # duplicate definitions: link one by one with override
        log("llvm-link:", r.stderr[:500])
        r = sh([LL + "llvm-link", objs[0]] + ["--override=" + o for o in objs[1:]] + ["-o", out])
        if r.returncode:
            raise SystemExit("llvm-link failed: " + r.stderr[:500])
    return out, failed


def build_harness_bc(work, hsrc, repo_bc, units, extra):
    b = os.path.basename(hsrc)
    hb = f"{work}/{b}.h.bc"
    ok, err = compile_bc(hsrc, hb, extra)
    if not ok:
        raise SystemExit(f"harness {b} does not compile:\n{err[:3000]}")
    lk = f"{work}/{b}.l.bc"
    r = sh([LL + "llvm-link", "--only-needed", hb, repo_bc, f"{BUILD}/rt.bc", f"{BUILD}/rtc.bc", "-o", lk])
    if r.returncode:
        raise SystemExit(f"link {b}: {r.stderr[:1000]}")
    out = f"{work}/{b}.bc"
    keep = ",".join(["h_" + u for u in units] + ["__sym_throw_bad_alloc", "__sym_throw_bad_cast"])
    r = sh([LL + "opt", "-passes=internalize,globaldce", f"--internalize-public-api-list={keep}", lk, "-o", out])
    if r.returncode:
        raise SystemExit(f"opt {b}: {r.stderr[:1000]}")
    return out


# ------------------------------------------------------------------ native build (content-addressed object cache)
def compile_native(src, flags, tag, extra=()):
    cmd = [CXX] + flags + DEFS + list(extra) + INC_REPO
    pre = subprocess.run([c for c in cmd if c != "-c"] + ["-E", "-P", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if pre.returncode:
        return None, pre.stderr.decode("utf8", "replace")
    h = hashlib.sha256(pre.stdout + b"\0" + " ".join(flags + list(extra)).encode()).hexdigest()[:32]
    d = f"{BUILD}/cache"
    os.makedirs(d, exist_ok=True)
    o = f"{d}/{tag}-{h}.o"
    if not os.path.exists(o):
        t = f"{o}.{os.getpid()}.{random.random()}"
        r = sh(["nice", "-n", "5"] + cmd + [src, "-o", t])
        if r.returncode:
            return None, r.stderr
        os.replace(t, o)
    return o, ""


def native_lib(work, pool, flags, tag):
    objs = [pool.submit(compile_native, p, flags, tag) for p in sources()]
    objs.append(pool.submit(compile_native, HERE + "/rt/native.cpp", flags, tag))
    return objs


def build_native(work, hsrc, libobjs, units, flags, tag, extra):
    o, err = compile_native(hsrc, flags, tag, extra)
    if not o:
        raise SystemExit(f"native harness {hsrc}:\n{err[:3000]}")
    objs = [f.result()[0] for f in libobjs]
    objs = [x for x in objs if x]
    b = os.path.basename(hsrc)
    tab = f"{work}/{b}.{tag}.tab.cpp"
    with open(tab, "w") as f:
        f.write('#include <cstring>\nextern "C" {\n' + "".join(f"void h_{u}();\n" for u in units))
        f.write("extern const char* gUnit;\nvoid harness_main() {\n" + "".join(f'  if (!strcmp(gUnit, "{u}")) return h_{u}();\n' for u in units) + "}\n}\n")
    # link only what the harness needs: an archive, so files whose dependencies are absent are left out
    lib = f"{work}/{b}.{tag}.a"
    r = sh([LL + "llvm-ar", "rcs", lib] + objs)
    if r.returncode:
        raise SystemExit("ar: " + r.stderr)
    exe = f"{work}/{b}.{tag}"
    san = [f for f in flags if f.startswith("-fsanitize")]
    nat = [x for x in objs]
    r = sh([CXX, "-std=c++17", "-w"] + san + ["-Wl,-z,muldefs", tab, o, nat[-1], lib, lib, "-lpthread", "-o", exe])
    if r.returncode:
        raise SystemExit(f"native link {b}: {r.stderr[:2500]}")
    return exe


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=256:detect_stack_use_after_return=1",
           LC_ALL="C")


def enc_inputs(inputs):
    return "".join(f"{n}={h};" for n, h in inputs)


def run_native(exe, unit, records, work, timeout=10, wrap=()):
    """records: list of input lists. Returns list of result dicts."""
    if not records:
        return []
    n = max(1, min(NPROC, len(records) // 8 or 1))
    chunks = [records[i::n] for i in range(n)]
    ps = []
    for i, c in enumerate(chunks):
        fi, fo = f"{work}/ni.{unit}.{i}.{os.getpid()}", f"{work}/no.{unit}.{i}.{os.getpid()}"
        with open(fi, "w") as f:
            f.write("".join(enc_inputs(r) + "\n" for r in c))
        ps.append((subprocess.Popen(list(wrap) + [exe, fi, fo, str(timeout)], env=dict(ENV, SYM_UNIT=unit), stdout=subprocess.DEVNULL,
                                    stderr=subprocess.DEVNULL, cwd=work), fo, len(c)))
    res = [None] * len(records)
    for i, (p, fo, k) in enumerate(ps):
        p.wait()
        try:
            lines = open(fo, errors="replace").read().split("\n")
        except OSError:
            lines = []
        for j in range(k):
            try:
                res[i + j * n] = json.loads(lines[j])
            except (IndexError, ValueError):
                res[i + j * n] = {"how": "lost", "msg": "", "obs": [], "reach": []}
    return res


# ------------------------------------------------------------------ property descriptions
def units_of(hsrc):
    txt = open(hsrc).read()
    units = []
    for m in re.finditer(r"^HARNESS\((\w+)\)", txt, re.M):
        units.append(m.group(1))
    opts, notes = {}, {"bound": [], "stub": [], "assume": [], "outside": []}
    for m in re.finditer(r"^//@ (\w+):? (.*)$", txt, re.M):
        if m.group(1) in notes:
            notes[m.group(1)].append(m.group(2).strip())
        elif m.group(1) == "unit":
            w = m.group(2).split()
            opts[w[0]] = dict(x.split("=", 1) for x in w[1:])
        elif m.group(1) == "all":
            opts["*"] = dict(x.split("=", 1) for x in m.group(2).split())
    tags = set(re.findall(r'sym_reach\("([^"]+)"\)', txt))
    return units, opts, notes, tags


def known_findings():
    out = []
    try:
        for l in open(HERE + "/known_findings.txt"):
            m = re.match(r"known: property=(\S+) unit=(\S+) match=(\S+) (.*)", l.strip())
            if m:
                out.append(m.groups())
    except OSError:
        pass
    return out


def viol_key(v):
    return (v["kind"] + ":" + v["msg"]).replace(" ", "_")


def confirmed(v, n):
    """Does the native outcome n exhibit the violation v?"""
    k, how = v["kind"], n["how"]
    if how in ("lost", "desync", "assume"):
        return False
    if k == "limit":
        return how in ("hang", "crash")
    return how != "done"


def run_unit(bc, unit, o, tier, work, jobs, seed):
    t = o.get("t_" + tier) or o.get("time") or ("40" if tier == "quick" else "600")
    out = f"{work}/{os.path.basename(bc)}.{unit}.jsonl"
    cmd = [BUILD + "/symex", bc, "--entry", "h_" + unit, "--out", out, "--repo", REPO + "/", "--max-time", t, "--jobs", str(jobs), "--seed", str(seed),
           "--max-instr", o.get("instr", "6000000"), "--max-depth", o.get("depth", "400"), "--solver-timeout", o.get("solver", "10000"),
           "--path-records", "3000" if tier == "quick" else "12000"]
    t0 = time.time()
    p = subprocess.Popen(["bash", "-c", "ulimit -v 12000000; exec \"$@\"", "x"] + cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        txt = p.communicate(timeout=float(t) * 1.5 + 60)[0].decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        txt = p.communicate()[0].decode("utf8", "replace") + " killed"
    res = {"viol": [], "inc": {}, "paths": [], "ext": set(), "summary": None, "fatal": [], "wall": time.time() - t0}
    try:
        with open(out, errors="replace") as f:
            for l in f:
                try:
                    r = json.loads(l)
                except ValueError:
                    continue
                if r["t"] == "violation":
                    res["viol"].append(r)
                elif r["t"] == "incomplete":
                    w = r.get("why", "?")
                    m = re.match(r"budget: (\d+) pending", w)
                    if m:
                        res["inc"]["budget: pending states dropped"] = res["inc"].get("budget: pending states dropped", 0) + int(m.group(1))
                        continue
                    res["inc"][w] = res["inc"].get(w, 0) + r.get("n", 1)
                elif r["t"] == "path":
                    res["paths"].append(r)
                elif r["t"] == "external":
                    res["ext"].add(r.get("name", "?"))
                elif r["t"] == "fatal":
                    res["fatal"].append(r.get("msg", "?"))
                elif r["t"] == "summary":
                    res["summary"] = r
    except OSError:
        pass
    if not res["summary"]:
        res["fatal"].append("no summary: " + txt[-400:])
    if VERBOSE and txt.strip():
        log(txt[-3000:])
    return res


def check(prop, tier, only=None):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    rng = random.Random(seed)
    build_engine()
    os.makedirs(BUILD + "/work", exist_ok=True)
    work = tempfile.mkdtemp(prefix=prop + "-", dir=BUILD + "/work")
    try:
        return check_in(prop, tier, only, t0, seed, rng, work)
    finally:
        if not VERBOSE:
            shutil.rmtree(work, ignore_errors=True)


def check_in(prop, tier, only, t0, seed, rng, work):
    files = sorted(glob.glob(f"{HERE}/harness/{prop}_*.cpp"))
    if not files:
        raise SystemExit("no harness for " + prop)
    extra = ["-DTHOROUGH=1"] if tier == "thorough" else []
    pool = cf.ThreadPoolExecutor(NPROC)
    spool = cf.ThreadPoolExecutor(16)
    repo_bc, notenc = build_bitcode(work, pool)
    native_objs = native_lib(work, pool, NAT_FLAGS, "asan")
    jobs_list = []
    metas = {}
    bcs = {}
    for f, fut in [(f, None) for f in files]:
        units, opts, notes, tags = units_of(f)
        metas[f] = (units, opts, notes, tags)
    for f in files:
        bcs[f] = spool.submit(build_harness_bc, work, f, repo_bc, metas[f][0], extra)
    nats = {f: spool.submit(build_native, work, f, native_objs, metas[f][0], NAT_FLAGS, "asan", extra) for f in files}
    todo = []
    for f in files:
        b = bcs[f].result()
        for u in metas[f][0]:
            if only and u != only:
                continue
            o = dict(metas[f][1].get("*", {}))
            o.update(metas[f][1].get(u, {}))
            todo.append((f, u, o, b))
    # units run concurrently; each may use idle cores
    par = min(len(todo), 4)
    jobs = NPROC
    upool = cf.ThreadPoolExecutor(par)
    results = {}
    futs = {(f, u): upool.submit(run_unit, b, u, o, tier, work, jobs, seed) for f, u, o, b in todo}
    for k, fu in futs.items():
        results[k] = fu.result()
    t_sym = time.time() - t0

    kf = known_findings()
    violations, known_hit, spurious, mism, unreached = [], {}, [], [], []
    validated = 0
    samples = []
    for f in files:
        exe = nats[f].result()
        reach = set()
        for (ff, u), r in results.items():
            if ff != f:
                continue
            # --- violations: replay natively
            vs = r["viol"]
            nres = run_native(exe, u, [v["inputs"] for v in vs], work)
            for v, n in zip(vs, nres):
                ok = confirmed(v, n)
                if not ok and v["kind"] in ("uninit", "memory"):
                    ok, n2 = valgrind_confirm(work, f, metas[f][0], u, v, extra, pool)
                    if ok:
                        n = n2
                rec = {"unit": u, "file": os.path.basename(f), "kind": v["kind"], "msg": v["msg"], "loc": v.get("loc", ""), "stack": v.get("stack", []),
                       "inputs": v["inputs"], "native": n, "property": prop}
                if not ok:
                    spurious.append(rec)
                    continue
                hit = next((k for k in kf if k[0] == prop and k[1] == u and re.fullmatch(k[2], viol_key(v))), None)
                if hit:
                    known_hit.setdefault(hit, rec)
                else:
                    violations.append(rec)
            # --- validate explored paths natively
            ps = r["paths"]
            want = 120 if tier == "quick" else 1500
            idx = set(rng.sample(range(len(ps)), min(want, len(ps))))
            seen = set()
            for i, p in enumerate(ps):
                for g in p["reach"]:
                    if g not in seen:
                        seen.add(g)
                        idx.add(i)
            idx = sorted(i for i in idx if ps[i]["how"] == "done")
            nres = run_native(exe, u, [ps[i]["inputs"] for i in idx], work)
            for i, n in zip(idx, nres):
                p = ps[i]
                if n["how"] == "done" and (n["obs"] == p["obs"] or p.get("undef")) and n["reach"] == p["reach"]:
                    validated += 1
                    reach |= set(n["reach"])
                    if len(samples) < 40 and rng.random() < 0.15:
                        samples.append({"unit": u, "inputs": p["inputs"][:12], "obs": p["obs"][:6]})
                elif n["how"] in ("assert", "crash", "hang", "terminate", "uncaught"):
                    violations.append({"unit": u, "file": os.path.basename(f), "kind": "native-" + n["how"], "msg": n["msg"], "loc": "", "stack": [],
                                       "inputs": p["inputs"], "native": n, "property": prop})
                else:
                    mism.append({"unit": u, "inputs": p["inputs"], "sym": p["obs"], "native": n})
        if not only:
            unreached += [os.path.basename(f) + ":" + t for t in sorted(metas[f][3] - reach)]
    # --- report
    os.makedirs(HERE + "/evidence", exist_ok=True)
    rdir = f"{HERE}/evidence/replay"
    os.makedirs(rdir, exist_ok=True)
    lines, uniq, seen = [], [], set()
    for v in violations:
        k = (v["unit"], v["kind"], v["msg"], v["loc"])
        if k not in seen:
            seen.add(k)
            uniq.append(v)
    violations = uniq
    for i, v in enumerate(violations):
        rp = f"{rdir}/{prop}-{i}.json"
        with open(rp, "w") as fo:
            json.dump(v, fo, indent=1)
        if i < 20:
            log(f"[{prop}] {v['unit']}: {v['kind']}: {v['msg']} at {v['loc']} inputs {enc_inputs(v['inputs'])[:300]} native {v['native']['how']} {v['native']['msg'][:200]}")
            lines.append(f"VIOLATION property={prop} replay={rp}")
    for k, rec in known_hit.items():
        print(f"KNOWN-FINDING: property={prop} unit={k[1]} {k[3]}")
    write_evidence(prop, tier, seed, t0, results, metas, files, notenc, validated, samples, violations, known_hit, spurious, mism, unreached, t_sym)
    tot = sum((r["summary"] or {}).get("paths", 0) for r in results.values())
    inc = {u: r["inc"] for (f, u), r in results.items() if r["inc"]}
    print(f"[{prop}] {tier}: {len(results)} units, {tot} paths, {validated} validated natively, {len(violations)} violations, "
          f"{len(known_hit)} known, {len(spurious)} unconfirmed, {len(mism)} mismatches, unreached {unreached}, incomplete {inc}, {time.time() - t0:.1f} s")
    for (f, u), r in results.items():
        if r["fatal"]:
            print(f"[{prop}] unit {u}: {r['fatal']}")
        if VERBOSE:
            s = r["summary"] or {}
            print(f"   {u}: paths {s.get('paths')} asserts {s.get('asserts')} queries {s.get('queries')} solver {s.get('solver_s')} wall {r['wall']:.1f} inc {r['inc']} ext {sorted(r['ext'])}")
    if VERBOSE:
        for m in mism[:5]:
            print("   MISMATCH", json.dumps(m)[:1500])
        for m in spurious[:10]:
            print("   UNCONFIRMED", m["unit"], m["kind"], m["msg"], m["loc"], m["stack"][:6], m["native"]["how"], m["native"].get("msg"), enc_inputs(m["inputs"])[:300])
    for l in lines:
        print(l)
    return 1 if violations else 0


def valgrind_confirm(work, f, units, u, v, extra, pool):
    """Uninitialised reads and overreads ASan cannot see: replay under valgrind on an uninstrumented build."""
    try:
        exe = f"{work}/{os.path.basename(f)}.plain"
        if not os.path.exists(exe):
            build_native(work, f, native_lib(work, pool, PLAIN_FLAGS, "plain"), units, PLAIN_FLAGS, "plain", extra)
        fi, fo, fl = f"{work}/vg.in", f"{work}/vg.out", f"{work}/vg.log"
        open(fi, "w").write(enc_inputs(v["inputs"]) + "\n")
        sh(["valgrind", "-q", "--trace-children=yes", "--child-silent-after-fork=no", f"--log-file={fl}.%p", exe, fi, fo, "60"], env=dict(ENV, SYM_UNIT=u), timeout=240)
        txt = ""
        for g in glob.glob(fl + ".*"):
            txt += open(g, errors="replace").read()
            os.unlink(g)
        if re.search(r"Invalid (read|write)|uninitialised|Mismatched free|Invalid free", txt):
            return True, {"how": "valgrind", "msg": txt[:1500], "obs": [], "reach": []}
    except (SystemExit, subprocess.TimeoutExpired, OSError) as e:
        log("valgrind replay:", e)
    return False, None


def write_evidence(prop, tier, seed, t0, results, metas, files, notenc, validated, samples, violations, known, spurious, mism, unreached, t_sym):
    S = lambda k: sum((r["summary"] or {}).get(k, 0) for r in results.values())
    funcs, lines = set(), set()
    for r in results.values():
        funcs |= set((r["summary"] or {}).get("functions", []))
        lines |= set((r["summary"] or {}).get("lines", []))
    notes = {"bound": [], "stub": [], "assume": [], "outside": []}
    for f in files:
        for k, v in metas[f][2].items():
            notes[k] += v
    units = {}
    for (f, u), r in results.items():
        s = r["summary"] or {}
        units[u] = {"paths": s.get("paths", 0), "asserts_checked": s.get("asserts", 0), "asserts_proved": s.get("asserts_proved", 0),
                    "queries": s.get("queries", 0), "sat": s.get("sat", 0), "unsat": s.get("unsat", 0), "unknown": s.get("unknown", 0), "cache_hits": s.get("cache_hits", 0),
                    "solver_s": round(s.get("solver_s", 0), 2), "wall_s": round(r["wall"], 1), "instructions": s.get("instrs", 0),
                    "complete_within_bounds": not r["inc"] and not r["fatal"] and not s.get("worker_failed"), "incomplete": r["inc"], "unmodelled_externals": sorted(r["ext"]),
                    "errors": r["fatal"]}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(time.time() - t0, 1),
        "coverage": {
            "states": S("paths"), "transitions": S("branches"), "traces_validated_against_impl": validated, "samples": samples or [{"note": "no sampled path"}],
            "symbolic_paths": S("paths"), "assertions_decided": S("asserts"), "assertions_proved": S("asserts_proved"),
            "solver_queries": S("queries"), "solver_unknown": S("unknown"), "solver_s": round(S("solver_s"), 2), "symbolic_wall_s": round(t_sym, 1),
            "functions_encoded": sorted(x for x in funcs)[:400], "repo_lines_executed": len(lines), "units": units,
            "bounds": notes["bound"], "outside_bounds": notes["outside"], "stubs": notes["stub"],
            "vacuity_unreached": unreached, "unconfirmed_counterexamples": [{k: s[k] for k in ("unit", "kind", "msg", "loc")} for s in spurious][:20],
            "encoding_mismatches": len(mism), "mismatch_samples": mism[:3],
            "known_findings": [f"{k[1]} {k[3]}" for k in known], "translation_units_not_encoded": notenc,
        },
        "assumptions": ["allocation succeeds below 8 MiB", "C locale", "libstdc++ stream/regex/locale classes replaced by the models in rt/symlib; validated by native replay"] + notes["assume"],
        "violations": len(violations),
    }
    with open(f"{HERE}/evidence/{prop}.json", "w") as f:
        json.dump(ev, f, indent=1)


def setup():
    build_engine()
    os.makedirs(BUILD + "/work", exist_ok=True)
    pool = cf.ThreadPoolExecutor(NPROC)
    n = sum(1 for f in native_lib(BUILD, pool, NAT_FLAGS, "asan") if f.result()[0])
    hs = [pool.submit(compile_native, h, NAT_FLAGS, "asan") for h in sorted(glob.glob(HERE + "/harness/*.cpp"))]
    m = sum(1 for f in hs if f.result()[0])
    print(f"setup: engine built, {n} native objects, {m}/{len(hs)} harness objects cached")
    return 0 if m == len(hs) else 1


def replay(path):
    v = json.load(open(path))
    build_engine()
    os.makedirs(BUILD + "/work", exist_ok=True)
    work = tempfile.mkdtemp(prefix="replay-", dir=BUILD + "/work")
    try:
        pool = cf.ThreadPoolExecutor(NPROC)
        f = f"{HERE}/harness/{v['file']}"
        exe = build_native(work, f, native_lib(work, pool, NAT_FLAGS, "asan"), units_of(f)[0], NAT_FLAGS, "asan", [])
        n = run_native(exe, v["unit"], [v["inputs"]], work)[0]
        print(json.dumps(n, indent=1))
        return 1 if n["how"] != "done" else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--unit")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    VERBOSE = a.v
    if a.setup:
        sys.exit(setup())
    if a.replay:
        sys.exit(replay(a.replay))
    sys.exit(check(a.prop, a.tier, a.unit))
