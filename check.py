#!/usr/bin/env python3
"""check.py <ID> [quick|thorough]

Decides one property by symbolic execution of the code in /repo (see DESIGN.md).
Exit 0: held within the stated bounds.  Exit 1: violation, replayed on the real code.
Exit 2: could not decide (never used to claim that a property holds)."""
import uuid, hashlib, json, os, re, shutil, subprocess, sys, time, glob
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CPP = REPO + "/src/vmecpp/cpp"
BUILD = os.environ.get("VERIF_BUILD", V + "/build")
NPROC = os.cpu_count() or 4
CLANG = "clang++-18"
BASEFLAGS = ("-std=c++20 -O1 -Xclang -disable-llvm-passes -emit-llvm -c -ffp-contract=off -fopenmp -w "
             "-gline-tables-only -fno-omit-frame-pointer -DEIGEN_DONT_PARALLELIZE -DEIGEN_DONT_VECTORIZE "
             "-D_GLIBCXX_EXTERN_TEMPLATE=0 -DEIGEN_MAX_ALIGN_BYTES=0").split() + ["-DJSON_ASSERT(x)=((void)0)"]
INCS = [f"-I{V}/shim", f"-I{V}/harness", f"-I{CPP}", f"-I{CPP}/third_party", f"-I{BUILD}/eigen3", "-isystem", "/usr/include/hdf5/serial"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


class Soft(str):
    """part of the space was not decided; the rest was (reported, recorded in the evidence)"""


class Undecided(Exception):
    pass


def all_tus():
    out = []
    for root, _, files in os.walk(CPP + "/vmecpp"):
        for f in files:
            p = os.path.relpath(os.path.join(root, f), CPP)
            if not f.endswith((".cc", ".c")):
                continue
            if re.search(r"(test|pybind|standalone|benchmark|/testing/|_main\.)", p):
                continue
            out.append(p)
    for root, _, files in os.walk(CPP + "/util"):
        for f in files:
            p = os.path.relpath(os.path.join(root, f), CPP)
            if f.endswith(".cc") and not re.search(r"(test|/testing/)", p):
                out.append(p)
    return sorted(out)


def fhash(p, memo={}):
    if p not in memo:
        try:
            memo[p] = hashlib.sha1(open(p, "rb").read()).hexdigest()
        except OSError:
            memo[p] = "gone"
    return memo[p]


def compile_bc(src, defs=(), pre_incs=()):
    """source file -> bitcode, cached on the contents of everything it includes"""
    os.makedirs(BUILD + "/bc", exist_ok=True)
    path = src if os.path.isabs(src) else os.path.join(CPP, src)
    incs = [f"-I{i}" for i in pre_incs] + INCS
    lang = ["-x", "c"] if path.endswith(".c") else []
    flags = BASEFLAGS if not lang else [f for f in BASEFLAGS if f != "-std=c++20"]
    cc = CLANG if not lang else "clang-18"
    cmd = [cc] + flags + list(defs) + incs + lang + [path]
    key = hashlib.sha1("\0".join(cmd).encode()).hexdigest()[:16]
    out = f"{BUILD}/bc/{os.path.basename(path)}.{key}.bc"
    dep = out + ".dep"
    if os.path.exists(out) and os.path.exists(dep):
        try:
            d = json.load(open(dep))
            if all(fhash(p) == h for p, h in d.items()):
                return out, None
        except Exception:
            pass
    tmp = out + f".{os.getpid()}.{uuid.uuid4().hex}"
    r = sh(cmd + ["-o", tmp, "-MMD", "-MF", tmp + ".d"])
    if r.returncode != 0:
        return None, r.stdout
    deps = re.sub(r"\\\n", " ", open(tmp + ".d").read()).split(":", 1)[1].split()
    os.unlink(tmp + ".d")
    os.replace(tmp, out)
    with open(tmp + ".dep", "w") as f:
        json.dump({p: fhash(p) for p in deps}, f)
    os.replace(tmp + ".dep", dep)
    return out, None


def build_tools():
    os.makedirs(BUILD, exist_ok=True)
    r = sh([V + "/shim/mkeigen.sh", BUILD + "/eigen3"])
    if r.returncode:
        raise Undecided("eigen copy failed: " + r.stdout)
    r = sh(["make", "-s", "-j2", "-C", V + "/symx", f"OUT={BUILD}"])
    if r.returncode:
        raise Undecided("symx did not build:\n" + r.stdout)


def undefined(bc):
    r = sh(["llvm-nm-18", "--undefined-only", bc])
    return [l.split()[-1] for l in r.stdout.splitlines() if l.strip()]


class Harness:
    """One harness file: '// key: value' lines at the top describe it."""

    def __init__(self, path):
        self.path = path
        self.name = os.path.basename(path)[:-3]
        self.tus, self.entries, self.assume, self.defs, self.incs, self.flags = [], [], [], [], [], {}
        for l in open(path):
            m = re.match(r"//\s*(TUS|ENTRY|ASSUME|DEFS|INCS):\s*(.*)", l)
            if not m:
                continue
            k, v = m.groups()
            if k == "TUS":
                for x in v.split():
                    self.tus += sorted(os.path.relpath(y, CPP) for y in glob.glob(os.path.join(CPP, x))) if "*" in x else [x]
            elif k == "ASSUME":
                self.assume.append(v.strip())
            elif k == "DEFS":
                self.defs += v.split()
            elif k == "INCS":
                self.incs += [os.path.join(CPP, x[5:]) if x.startswith("repo:") else os.path.join(V, x) for x in v.split()]
            elif k == "ENTRY":
                f = v.split("|")
                e = {"name": f[0].strip(), "props": [], "opts": [], "reach": [], "bounds": "", "tier": "both"}
                for x in f[1:]:
                    kk, _, vv = x.strip().partition("=")
                    if kk in ("props", "reach"):
                        e[kk] = vv.split(",")
                    elif kk == "opts":
                        e["opts"] = vv.split()
                    else:
                        e[kk] = vv
                self.entries.append(e)

    def link(self, tier, entries):
        pre = self.incs
        defs = self.defs + (["-DTHOROUGH=1"] if tier == "thorough" else [])
        h, err = compile_bc(self.path, defs, pre)
        if not h:
            raise Undecided(f"harness {self.name} does not compile:\n{err[-3000:]}")
        srcs = [V + "/shim/rbtree.cc"]
        for t in self.tus:
            p = os.path.join(CPP, t)
            if "*" in t:
                srcs += sorted(x for x in glob.glob(p) if not re.search(r"test|pybind|standalone", x))
            elif t.startswith("@"):
                srcs.append(os.path.join(V, t[1:]))
            elif os.path.exists(p):
                srcs.append(p)
        with ThreadPoolExecutor(NPROC) as ex:
            res = list(ex.map(lambda s: (s, compile_bc(s, defs, pre)), srcs))
        bcs = []
        for s, (b, e) in res:
            if not b:
                raise Undecided(f"{s} does not compile:\n{e[-3000:]}")
            bcs.append(b)
        base = f"{BUILD}/{self.name}.{tier}.{os.getpid()}"
        out = base + ".all.bc"

        def do(extra):
            r = sh(["llvm-link-18", "-o", out] + bcs + extra + ["--override=" + h])
            if r.returncode:
                raise Undecided("link failed: " + r.stdout[-2000:])

        do([])
        miss = [u for u in undefined(out) if re.search(r"6vmecpp|4netcdf|11file_io|7hdf5_io|7json_io|N8makegrid|N4util|13magnetics", u) or "vmecpp" in u]
        if miss:
            # a helper may have moved to another file: bring in the rest of the library
            rest = [os.path.join(CPP, t) for t in all_tus()]
            rest = [r for r in rest if r not in srcs]
            with ThreadPoolExecutor(NPROC) as ex:
                res = list(ex.map(lambda s: compile_bc(s, defs, pre)[0], rest))
            r = sh(["llvm-link-18", "-o", out] + bcs + ["--only-needed"] + [])
            first = base + ".first.bc"
            do([])
            shutil.move(out, first)
            # pull in files that define a missing symbol, repeatedly
            have = set(res) - {None}
            defs_of = {}
            for b in have:
                rr = sh(["llvm-nm-18", "--defined-only", b])
                defs_of[b] = {l.split()[-1] for l in rr.stdout.splitlines() if l.strip()}
            chosen = []
            while True:
                shutil.copy(first, out)
                if chosen:
                    do(chosen)
                und = set(undefined(out))
                new = [b for b in have if b not in chosen and any(u in defs_of[b] and "vmecpp" in u for u in und)]
                if not new:
                    break
                chosen += new
            os.unlink(first)
        final = base + ".bc"
        names = ",".join(e["name"] for e in self.entries)
        r = sh(["opt-18", "-passes=internalize,globaldce,default<O1>", "-vectorize-loops=false", "-vectorize-slp=false",
                "-internalize-public-api-list=" + names, out, "-o", final])
        if r.returncode:
            raise Undecided("opt failed: " + r.stdout[-2000:])
        os.unlink(out)
        return final


def run_entry(bc, e, tier, par, tmo):
    log = f"{BUILD}/log.{os.path.basename(bc)}.{e['name']}"
    opts = list(e["opts"])
    if tier == "thorough" and e.get("topts"):
        opts += e["topts"].split()
    if "-par" not in opts:
        opts += ["-par", str(par)]
    if "-time" not in opts:
        opts += ["-time", str(tmo)]
    t0 = time.time()
    r = sh([BUILD + "/symx", bc, e["name"], log] + opts)
    recs = []
    for l in open(log, errors="replace"):
        try:
            recs.append(json.loads(l))
        except Exception:
            pass
    return recs, time.time() - t0, r.returncode, r.stdout[-1500:], log


def replay_binary(bc, entry, asan=False):
    exe = f"{bc}.{entry}.replay" + (".asan" if asan else "")
    if os.path.exists(exe):
        return exe
    obj = exe + ".o"
    # internalised symbols are fine: the entry stays public
    src, san = bc, []
    if asan:
        src, san = exe + ".bc", ["-fsanitize=address"]
        r = sh(["opt-18", "-passes=forceattrs,asan", "-force-attribute=sanitize_address", bc, "-o", src])
        if r.returncode:
            raise Undecided("replay instrumentation failed: " + r.stdout[-1500:])
    r = sh([CLANG, "-O1" if not asan else "-O0", "-ffp-contract=off", "-w", "-c", src, "-o", obj])
    if asan:
        os.unlink(src)
    if r.returncode:
        raise Undecided("replay compile failed: " + r.stdout[-1500:])
    r = sh([CLANG, "-O1", "-w", "-std=c++20", f"-DSYM_ENTRY={entry}", f"-I{V}/shim", *san, obj, V + "/shim/replay.cc", V + "/shim/replay_omp.cc",
            "-o", exe, "-lpthread", "-lm", "-Wl,--unresolved-symbols=ignore-all", "-rdynamic", "-ldl"])
    os.unlink(obj)
    if r.returncode:
        raise Undecided("replay link failed: " + r.stdout[-1500:])
    return exe


def replay(bc, entry, viol):
    asan = viol.get("kind") == "memory"
    exe = replay_binary(bc, entry, asan)
    mf = exe + ".model"
    with open(mf, "w") as f:
        for n, v in viol.get("model", []):
            f.write(f"{n}\t{v}\n")
    best = None
    # the second attempt hands out memory filled with NaN, for results that depend on memory never written
    for att in range(max(2, viol.get("repeat", 1))):
        try:
            r = sh(["env", *(["SYM_FILL=1"] if att == 1 else []), "ASAN_OPTIONS=detect_leaks=0:alloc_dealloc_mismatch=0:new_delete_type_mismatch=0:exitcode=1", exe, mf], timeout=120)
            rc, txt = r.returncode, r.stdout[-600:]
            if asan and "AddressSanitizer" in r.stdout:
                rc, txt = 1, "\n".join(r.stdout[r.stdout.index("ERROR: Addr"):].split("\n")[:6])[:600]
        except subprocess.TimeoutExpired:
            rc, txt = 124, "replay did not end within 120 s"
        best = (rc, txt)
        if rc == 1 or rc < 0:
            break
    return best


RACE_KINDS = ("race", "deadlock")


def load_known(pid):
    p = V + "/known_findings.jsonl"
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d.get("property") == pid and d.get("status") == "known":
                    out.append(d)
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    budget = 800 if tier == "quick" else 3300
    props = {json.loads(l)["id"]: json.loads(l) for l in open(V + "/properties.jsonl") if l.strip()}
    only = os.environ.get("VERIF_ENTRY")
    os.makedirs(V + "/evidence", exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "bounded_symbolic",
          "assumptions": [], "violations": 0}
    units, problems, violations, known_hit = [], [], [], []
    try:
        import importlib.util
        sys.path.insert(0, V + "/pyx")
        pyh = sorted(glob.glob(f"{V}/pyharness/*.py"))
        hs = [Harness(p) for p in sorted(glob.glob(V + "/harness/*.cc"))]
        mine = [(h, [e for e in h.entries if pid in e["props"] and e["tier"] in ("both", tier) and (not only or e["name"] == only)]) for h in hs]
        mine = [(h, es) for h, es in mine if es]
        pys = []
        for p in pyh:
            head = open(p).read(4000)
            for m in re.finditer(r"^# ENTRY:\s*(.*)$", head, re.M):
                f = m.group(1).split("|")
                e = {"name": f[0].strip(), "file": p, "props": [], "bounds": "", "reach": [], "tier": "both"}
                for x in f[1:]:
                    kk, _, vv = x.strip().partition("=")
                    e[kk] = vv.split(",") if kk in ("props", "reach") else vv
                if pid in e["props"] and e["tier"] in ("both", tier) and (not only or e["name"] == only):
                    pys.append(e)
            if any(e["file"] == p for e in pys):
                ev["assumptions"] += re.findall(r"^# ASSUME:\s*(.*)$", head, re.M)
        if not mine and not pys:
            raise Undecided("no harness for " + pid)
        if mine:
            build_tools()

            def trylink(he):
                try:
                    return he[0].link(tier, he[1])
                except Undecided as x:
                    problems.append(str(x))
                    return None

            with ThreadPoolExecutor(3) as ex:
                linked = list(ex.map(trylink, mine))
            mine = [m for m, l in zip(mine, linked) if l]
            linked = [l for l in linked if l]
            jobs = [(h, bc, e) for (h, es), bc in zip(mine, linked) for e in es]
            for h, _ in mine:
                ev["assumptions"] += h.assume
            conc = max(1, min(NPROC, len(jobs)))
            par = max(1, (NPROC + conc - 1) // conc)
            left = max(60, int(budget - (time.time() - t0)))

            def one(j):
                h, bc, e = j
                return run_entry(bc, e, tier, par, left)

            with ThreadPoolExecutor(conc) as ex:
                results = list(ex.map(one, jobs))
            for (h, bc, e), (recs, dt, rc, txt, log) in zip(jobs, results):
                u = analyse(h.name, e, recs, dt, rc, txt, problems)
                units.append(u)
                handle_violations(pid, u, recs, lambda v, bc=bc, e=e: replay(bc, e["name"], v), problems, violations, known_hit, f"harness/{h.name}.cc", bc, e["name"])
                if not os.environ.get("VERIF_KEEP"):
                    os.path.exists(log) and os.unlink(log)
            for bc in linked:
                if not os.environ.get("VERIF_KEEP"):
                    for p in glob.glob(bc + "*"):
                        os.unlink(p)
        def onepy(e):
            left = max(60, int(budget - (time.time() - t0)))
            return subprocess.run([sys.executable if False else "/opt/vp/venv/bin/python", V + "/pyx/run.py", e["file"], e["name"], tier, str(left)],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_REPO=REPO))

        with ThreadPoolExecutor(NPROC) as ex:
            pyres = list(ex.map(onepy, pys))
        for e, r in zip(pys, pyres):
            recs = []
            for l in r.stdout.splitlines():
                if l.startswith("@@"):
                    try:
                        recs.append(json.loads(l[2:]))
                    except Exception:
                        pass
            u = analyse(os.path.basename(e["file"])[:-3], e, recs, 0, r.returncode, r.stdout[-2500:], problems)
            units.append(u)
            handle_violations(pid, u, recs, None, problems, violations, known_hit, e["file"], None, e["name"])
    except Undecided as x:
        problems.append(str(x))
    ev["wall_s"] = round(time.time() - t0, 2)
    finish(pid, tier, ev, props.get(pid, {}), units, problems, violations, known_hit)


def analyse(hname, e, recs, dt, rc, txt, problems):
    s = next((r for r in recs if r.get("type") == "summary"), None)
    hard, soft = problems.append, lambda t: problems.append(Soft(t))
    u = {"harness": hname, "entry": e["name"], "bounds": e.get("bounds", ""), "wall_s": round(dt, 2)}
    if s is None:
        hard(f"{hname}/{e['name']}: engine ended without a summary (rc {rc}): {txt}")
        u["incomplete"] = True
        return u
    for k in ("paths", "forks", "violations", "unknowns", "errors", "asserts", "asserts_ok", "asserts_trivial", "refused", "insts", "queries", "sat", "unsat", "unknown", "polyq", "quick", "solver_s"):
        u[k] = s.get(k, 0)
    funcs, nat, reached, ends = set(), set(), set(), {}
    for r in recs:
        if r.get("type") == "path":
            funcs.update(r.get("funcs", []))
            nat.update(r.get("natives", []))
            reached.update(r.get("reached", []))
            ends[r.get("end")] = ends.get(r.get("end"), 0) + 1
    u["functions_encoded"] = sorted(f for f in funcs if "vmecpp" in f or "makegrid" in f or "magnetics" in f or "io::" in f)[:400] or sorted(funcs)[:100]
    u["natives"] = sorted(nat)[:60]
    u["path_ends"] = ends
    u["reached"] = sorted(reached)
    miss = [r for r in e["reach"] if r and r not in reached]
    viol = any(r.get("type") == "violation" for r in recs)
    if miss and not viol:
        (soft if s.get("errors") or s.get("timeout") else hard)(f"{hname}/{e['name']}: points never reached (vacuous?): {miss}")
    if not s.get("asserts_ok") and not viol:
        hard(f"{hname}/{e['name']}: no assertion was decided")
    if s.get("errors") and not viol:
        first = next((r for r in recs if r.get("type") == "error" or r.get("end") == "error"), {})
        soft(f"{hname}/{e['name']}: engine error: {json.dumps(first)[:800]}")
    if s.get("unknowns") and not viol:
        first = next((r for r in recs if r.get("type") == "unknown"), {})
        soft(f"{hname}/{e['name']}: {s['unknowns']} undecided queries: {json.dumps(first)[:600]}")
    if s.get("timeout") or s.get("maxpaths"):
        soft(f"{hname}/{e['name']}: exploration cut off")
    return u


def handle_violations(pid, u, recs, rep, problems, violations, known_hit, src, bc, entry):
    known = load_known(pid)
    seen, tries, pending = set(), {}, {}
    vs = [r for r in recs if r.get("type") == "violation"]
    k = max(1, len(vs) // 8)  # neighbouring paths share their inputs: attempt spread-out ones first
    vs = [r for o in range(k) for r in vs[o::k]]
    for r in vs:
        sig = (r.get("kind"), r.get("label"), r.get("where"))
        if sig in seen or tries.get(sig, 0) >= 8:
            continue
        tries[sig] = tries.get(sig, 0) + 1
        ident = f"{entry}:{r.get('kind')}:{r.get('label')}"
        k = next((k for k in known if re.fullmatch(k["match"], ident)), None)
        if k:
            known_hit.append(k)
            continue
        if rep is not None:
            if r.get("kind") in ("race", "deadlock"):
                out = (1, "schedule counterexample: " + str(r.get("detail")))
            else:
                try:
                    out = rep(r)
                except Undecided as x:
                    problems.append(str(x)); continue
            ok = out[0] == 1 or out[0] < 0 or out[0] == 124 or r.get("kind") in ("oob", "uaf", "uninit", "ub")
            if not ok:
                pending.setdefault(sig, Soft(f"{entry}: solver counterexample for {r.get('label')} at {r.get('where')} did not replay (rc {out[0]}): {out[1]}; model {r.get('model')}"))
                continue
            r["replay_output"] = out[1]
        seen.add(sig)
        r["entry"], r["harness"] = entry, src
        violations.append(r)
        if len(violations) >= 5:
            break
    problems += [p for sig, p in pending.items() if sig not in seen]


def finish(pid, tier, ev, prop, units, problems, violations, known_hit):
    tot = lambda k: sum(u.get(k, 0) or 0 for u in units)
    funcs = sorted({f for u in units for f in u.get("functions_encoded", [])})
    ev["level"] = "other"
    ev["violations"] = len(violations)
    ev["coverage"] = {
        "explanation": "Symbolic execution of the code in /repo (LLVM bitcode compiled from its current sources, or its Python modules), "
                       "every symbolic input at once, all feasible paths; assertions decided by z3 within the bounds listed per entry.",
        "entries": [{k: v for k, v in u.items() if k != "functions_encoded"} for u in units],
        "functions_encoded": funcs,
        "n_functions": len(funcs),
        "paths": tot("paths"), "assertions_decided": tot("asserts"), "assertions_valid": tot("asserts_ok"),
        "queries": tot("queries"), "sat": tot("sat"), "unsat": tot("unsat"), "unknown": tot("unknown"),
        "polynomial_queries": tot("polyq"), "solver_s": round(tot("solver_s"), 3),
        "instructions": tot("insts"),
        "problems": problems,
        "known_findings": [k["what"] for k in known_hit],
    }
    ev["assumptions"] = sorted(set(ev["assumptions"]))
    code = 0
    os.makedirs(V + "/evidence", exist_ok=True)
    for k in known_hit:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if violations:
        rp = f"{V}/evidence/{pid}.violation.json"
        json.dump(violations, open(rp, "w"), indent=1)
        ev["replay"] = rp
        for v in violations:
            print(f"  {v['entry']}: {v.get('kind')} {v.get('label')} at {v.get('where')}: {v.get('detail','')}")
            print(f"    inputs: {v.get('model')}")
            print(f"    replay: {v.get('replay_output','').strip()}")
        print(f"VIOLATION property={pid} replay={rp}")
        code = 1
    elif any(not isinstance(p, Soft) for p in problems) and not any(u.get("asserts_ok") for u in units) or (problems and os.environ.get("VERIF_STRICT")):
        code = 2
    json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1)
    for p in problems:
        print("INCOMPLETE:" if isinstance(p, Soft) else "UNDECIDED:", p)
    print(f"{pid} {tier}: paths={tot('paths')} asserts={tot('asserts')} ok={tot('asserts_ok')} queries={tot('queries')} solver={tot('solver_s'):.1f}s wall={ev['wall_s']}s exit={code}")
    sys.exit(code)


if __name__ == "__main__":
    main()
