#!/usr/bin/env python3
"""Random small changes to the code a property is anchored in, run against that property's check, in scratch clones.
usage: mutate.py K SEED OUT PROP...   -- lists caught / missed / undecided; never touches /repo."""
import json, os, random, re, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
import queue, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K, SEED, OUT, PROPS = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], sys.argv[4:]
NW = int(os.environ.get("NW", "3"))
rnd = random.Random(SEED)
props = {json.loads(l)["id"]: json.loads(l) for l in open(V + "/properties.jsonl")}
OPS = [(r" \+ ", " - "), (r" - ", " + "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
       (r" && ", " || "), (r" \|\| ", " && "), (r" \+ 1\b", ""), (r" - 1\b", ""), (r"\b0\.5\b", "0.25"), (r"\b2\.0\b", "1.0"), (r"\b0\b", "1"), (r"\b1\b", "2"),
       (r" \+= ", " = "), (r" -= ", " += "), (r" \+= ", " -= "), (r" \* ", " / "), (r"\bnsMinF1\b", "nsMinF"), (r"\bnsMinF\b", "nsMinF1"), (r"\bnsMaxF\b", "nsMaxFIncludingLcfs"),
       (r"_e\b", "_o"), (r"_o\b", "_e"), (r"\bcos", "sin"), (r"\bsin", "cos"), (r"cc\b", "ss"), (r"sc\b", "cs"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r"nThetaEff", "nThetaReduced"), (r"nZeta", "nThetaEff"), (r"\bR\b", "Z"), (r"!(?=[a-z])", ""), (r" and ", " or "), (r" or ", " and "), (r"\bnot ", ""), (r"\bTrue\b", "False"), (r"\bFalse\b", "True"), ("DEL", "")]


def ranges(path, names):
    L = open(path).read().split("\n")
    if path.endswith(".py"):
        out = set()
        for i, l in enumerate(L):
            m = re.match(r"(\s*)(?:def|class) (\w+)", l)
            if m and any(m.group(2) == n or m.group(2).strip("_") == n.strip("_") for n in names):
                j = i + 1
                while j < len(L) and (not L[j].strip() or len(L[j]) - len(L[j].lstrip()) > len(m.group(1)) or L[j].lstrip().startswith(")")):
                    out.add(j); j += 1
        return out or set(range(len(L))), L
    out = set()
    for i, l in enumerate(L):
        for n in names:
            if re.match(r"^[\w:<>,&*\s\[\]]*\b" + re.escape(n.split("::")[-1]) + r"\s*\(", l) and not l.startswith("  " * 2) and not l.rstrip().endswith(";"):
                depth, seen, j = 0, False, i
                while j < len(L):
                    depth += L[j].count("{") - L[j].count("}")
                    if "{" in L[j]: seen = True
                    if not seen and L[j].rstrip().endswith(";"): break
                    if seen: out.add(j)
                    if seen and depth <= 0: break
                    j += 1
    return out or set(range(len(L))), L


def mutants(pid):
    p = props[pid]
    names = set()
    for m in p["anchors"]["mechanism"]:
        for w in re.findall(r"[A-Za-z_][\w:]*\*?", m["where"]): names.add(w.rstrip("*").rstrip("_"))
    c = []
    for f in p["anchors"]["files"]:
        path = os.path.join("/repo", f)
        if not os.path.isfile(path): continue
        rs, L = ranges(path, names)
        for i in sorted(rs):
            l = L[i]
            code = l.split("//")[0] if not f.endswith(".py") else l.split("#")[0]
            if not code.strip() or re.search(r"CHECK|LOG\(|std::cout|printf|#include|#pragma|static_assert|raise |\"\"\"|absl::Str|^\s*\"|Error\(|^\s*(const )?(auto|int|double)&? \w+ =.*\b(begin|end)\(", code): continue
            for a, b in OPS:
                if a == "DEL":
                    if re.match(r"^\s+[\w\]\[\.>()-]+.*[+*-]?=.*;\s*$", code) and not re.match(r"^\s*(const |auto|int |double |bool |std::)", code): c.append((f, i, l, re.match(r"\s*", l).group() + ";"))
                    continue
                ms = list(re.finditer(a, code))
                if ms:
                    m = rnd.choice(ms)
                    n = l[:m.start()] + b + l[m.end():]
                    if n != l: c.append((f, i, l, n))
    rnd.shuffle(c)
    # spread over lines
    seen, out = set(), []
    for x in c:
        if (x[0], x[1]) in seen: continue
        seen.add((x[0], x[1])); out.append(x)
    return out[:K]


ids = queue.Queue()
for i in range(NW):
    d = f"/tmp/mut{i}"
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", d], env={**os.environ, "GIT_LFS_SKIP_SMUDGE": "1"}, check=True)
    ids.put(i)
lock = threading.Lock()
cnt = {}


def one(t):
    pid, (f, i, old, new) = t
    w = ids.get()
    try:
        path = f"/tmp/mut{w}/{f}"
        src = open(path).read()
        L = src.split("\n"); L[i] = new
        open(path, "w").write("\n".join(L))
        env = {**os.environ, "VERIF_REPO": f"/tmp/mut{w}", "VERIF_BUILD": f"/tmp/mutb{w}", "VERIF_EVIDENCE": f"/tmp/mutb{w}/ev"}
        try:
            r = subprocess.run(["timeout", "300", "python3", V + "/check.py", pid, "quick"], env=env, capture_output=True, text=True)
            rc = r.returncode
        finally:
            open(path, "w").write(src)
        k = {1: "caught", 0: "MISSED"}.get(rc, f"rc{rc}")
        if rc == 2 and "did not compile" in r.stdout: k = "nocompile"
        with lock:
            cnt.setdefault(pid, {}).setdefault(k, 0); cnt[pid][k] += 1
            with open(OUT, "a") as o:
                o.write(f"{pid} {k} {f}:{i + 1}\n    - {old.strip()}\n    + {new.strip()}\n")
                if rc not in (0, 1): o.write("    ! " + "".join(r.stdout.strip().split("\n")[-1:])[:200] + "\n")
    finally:
        ids.put(w)


jobs = [(p, m) for p in PROPS for m in mutants(p)]
with ThreadPoolExecutor(NW) as ex: list(ex.map(one, jobs))
with open(OUT, "a") as o: o.write(json.dumps(cnt) + "\n")
for i in range(NW):
    shutil.rmtree(f"/tmp/mut{i}", ignore_errors=True); shutil.rmtree(f"/tmp/mutb{i}", ignore_errors=True)
