# ENTRY: namelist |props=P34 |reach=all,one_missing,none |bounds=every scalar, array element (1..3 per array) and boundary coefficient (3, symbolic mode numbers) symbolic; all keys present, each key missing in turn, each array null or empty in turn; one text of up to 2 arbitrary characters
# ENTRY: legacy_axis |props=P34 |reach=done |bounds=axis arrays under their INDATA names, 2 symbolic values each
# ENTRY: case_name |props=P36 |reach=json,input,wout,refused |bounds=every printable file name of at most 11 characters (14 thorough) without a slash
# ENTRY: workdir |props=P36 |reach=ok,body_failed,no_dir |bounds=the block ends normally or raises, the directory exists or not, changing back always possible; nested twice
# ASSUME: a number formatted with at least 17 significant digits is read back exactly
from engine import S
import os, tempfile
from pathlib import Path

BOOLS = ["lasym", "lforbal", "lfreeb"]
INTS = ["nfp", "mpol", "ntor", "ntheta", "nzeta", "nstep", "ncurr", "nvacskip"]
FLOATS = ["delt", "tcon0", "phiedge", "pres_scale", "gamma", "spres_ped", "curtor", "bloat"]
TEXTS = ["pmass_type", "piota_type", "pcurr_type", "mgrid_file"]
IARR = ["ns_array", "niter_array"]
FARR = ["ftol_array", "aphi", "am", "am_aux_s", "am_aux_f", "ai", "ai_aux_s", "ai_aux_f", "ac", "ac_aux_s", "ac_aux_f", "extcur"]
AXIS = {"raxis_c": "raxis_cc", "zaxis_s": "zaxis_cs", "raxis_s": "raxis_cs", "zaxis_c": "zaxis_cc"}
BDY = ["rbc", "zbs", "rbs", "zbc"]
ALL = BOOLS + INTS + FLOATS + TEXTS + IARR + FARR + list(AXIS) + BDY


def parse(text):
    """a Fortran namelist: name[(index)] = value[, value ...]"""
    i = text.index("&INDATA")
    S.check(text[:i].strip() == "", "nothing before the namelist group")
    body = text[i + len("&INDATA"):]
    out, cur, name, idx = {}, [], None, None

    def store():
        if name is not None:
            key = (name, idx)
            S.check(key not in out, "a variable is assigned once", key)
            out[key] = list(cur)

    toks, j = [], 0
    ended = False
    while j < len(body):
        c = body[j]
        if c == "!":
            while j < len(body) and body[j] != "\n":
                j += 1
        elif c == "'":
            k = j + 1
            while True:
                if k >= len(body):
                    S.check(False, "a character value is closed")
                if body[k] == "'":
                    if k + 1 < len(body) and body[k + 1] == "'":
                        k += 2
                        continue
                    break
                k += 1
            toks.append(("s", body[j + 1:k]))
            j = k + 1
        elif c in " \t\n,":
            j += 1
        elif c in "=()":
            toks.append((c, c))
            j += 1
        elif c == "/":
            ended = True
            break
        else:
            k = j
            while k < len(body) and body[k] not in " \t\n,=()!'/":
                k += 1
            toks.append(("w", body[j:k]))
            j = k
    S.check(ended, "the namelist group is closed")
    k = 0
    while k < len(toks):
        # name [ ( a b ) ] =
        t = toks[k]
        if t[0] == "w" and k + 1 < len(toks) and toks[k + 1][0] == "=":
            store()
            name, idx, cur = t[1].lower(), None, []
            k += 2
        elif t[0] == "w" and k + 1 < len(toks) and toks[k + 1][0] == "(":
            store()
            e = k + 2
            ind = []
            while toks[e][0] != ")":
                ind.append(toks[e][1])
                e += 1
            S.check(toks[e + 1][0] == "=", "an indexed name is assigned")
            name, idx, cur = t[1].lower(), tuple(ind) + (k,), []
            k = e + 2
        else:
            S.check(name is not None, "a value belongs to a name", t)
            cur.append(t)
            k += 1
    store()
    return out


def num(t):
    S.check(t[0] == "w", "a number is not quoted")
    return S.parse_float(t[1])


def inputs(full):
    d = {}
    for b in BOOLS:
        d[b] = bool(S.choice(b, 2)) if full else (b == "lfreeb")
    for k in INTS:
        d[k] = S.integer(k, -10**6, 10**6)
    for k in FLOATS:
        d[k] = S.real(k, -10**12, 10**12)
    for k in TEXTS:
        d[k] = S.text(k, 2) if k == "mgrid_file" and full else {"pmass_type": "power_series", "piota_type": "cubic_spline", "pcurr_type": "sum_atan", "mgrid_file": "mgrid's.nc"}[k]
    for i, k in enumerate(IARR):
        d[k] = [S.integer(f"{k}{j}", 0, 10**6) for j in range(1 + i)]
    for i, k in enumerate(FARR):
        d[k] = [S.real(f"{k}{j}") for j in range(1 + i % 3)]
    for i, k in enumerate(AXIS):
        d[k] = [S.real(f"{k}{j}") for j in range(1 + i % 3)]
    for k in BDY:
        d[k] = [{"m": S.integer(f"{k}m{j}", 0, 99), "n": S.integer(f"{k}n{j}", -99, 99), "value": S.real(f"{k}{j}")} for j in range(3 if k == "rbc" else 1)]
    return d


def compare(out, d, names):
    left = dict(out)

    def pop(n):
        return left.pop((n, None), None)

    for k in BOOLS:
        if k in d:
            v = pop(k)
            S.check(v is not None and len(v) == 1, "logical written", k)
            S.check(v[0][1].lower() in ((".true.", "t", ".t.") if d[k] else (".false.", "f", ".f.")), "logical value", k)
    for k in INTS:
        if k in d:
            v = pop(k)
            S.check(v is not None and len(v) == 1, "integer written", k)
            S.sameint(S.parse_int(v[0][1]), d[k], "integer value " + k)
    for k in FLOATS:
        if k in d:
            v = pop(k)
            S.check(v is not None and len(v) == 1, "number written", k)
            S.same(num(v[0]), d[k], "number value " + k)
    for k in TEXTS:
        if k in d:
            v = pop(k)
            S.check(v is not None and len(v) == 1 and v[0][0] == "s", "text written", k)
            S.check(S.parse_text(v[0][1]) == (d[k].replace("'", "''")), "text value (quotes doubled) " + k)
    for src, dst in [(k, k) for k in IARR + FARR] + list(AXIS.items()):
        v = pop(dst)
        want = d.get(src)
        if not want:
            S.check(v is None, "no entry for an absent, null or empty array", src)
            continue
        S.check(v is not None and len(v) == len(want), "array written with all its elements", src)
        for t, w in zip(v, want):
            if src in IARR:
                S.sameint(S.parse_int(t[1]), w, "integer array element " + src)
            else:
                S.same(num(t), w, "array element " + src)
    for k in BDY:
        got = [(i, left.pop((n, i))) for n, i in list(left) if n == k]
        got.sort(key=lambda x: x[0][-1])
        want = d.get(k) or []
        S.check(len(got) == len(want), "every boundary coefficient written once", k)
        for (ind, v), w in zip(got, want):
            S.check(len(ind) == 3 and len(v) == 1, "two indices, one value", k)
            S.sameint(S.parse_int(ind[0]), w["n"], "first index is n " + k)
            S.sameint(S.parse_int(ind[1]), w["m"], "second index is m " + k)
            S.same(num(v[0]), w["value"], "boundary coefficient " + k)
    S.check(not left, "nothing else is written", list(left))


def namelist():
    u = S.module("vmecpp._util")
    k = S.choice("variant", 3)
    d = inputs(k == 0)
    if k == 0:
        S.reach("all")
    elif k == 1:
        i = S.choice("missing", len(ALL))
        how = S.choice("how", 3) if ALL[i] in IARR + FARR + list(AXIS) + BDY else 0
        if how == 0:
            del d[ALL[i]]
        else:
            d[ALL[i]] = None if how == 1 else []
        S.reach("one_missing")
    else:
        d = {}
        S.reach("none")
    compare(parse(u.vmecpp_json_to_indata(dict(d))), d, ALL)


def legacy_axis():
    u = S.module("vmecpp._util")
    v = {n: [S.real(f"{n}{j}") for j in range(2)] for n in AXIS.values()}
    out = parse(u.vmecpp_json_to_indata(dict(v)))
    for n, want in v.items():
        got = out.get((n, None))
        S.check(got is not None and len(got) == 2, "axis written", n)
        for t, w in zip(got, want):
            S.same(num(t), w, "axis coefficient " + n)
    S.reach("done")


class SymPath:
    def __init__(self, name):
        self.name = name

    def __getattr__(self, n):
        raise S.Unsupported("attribute %s of a symbolic path" % n)


def case_name():
    u = S.module("vmecpp._util")
    name = S.text("name", 14 if S.thorough else 11)
    if not S.symbolic:
        S.assume("/" not in name and name not in ("", ".", ".."))
    else:
        S.assume(~S.contains(name, "/") & (name != "") & (name != ".") & (name != ".."))
    js = name.endswith(".json")
    inp = name.startswith("input.")
    wo = S.all([name.startswith("wout_"), name.endswith(".nc"), S.length(name) >= 8])
    try:
        r = u.get_vmec_configuration_name(SymPath(name) if S.symbolic else Path("/some/dir") / name)
    except ValueError:
        S.check(~S.any([js, inp, wo]) if S.symbolic else not (js or inp or wo), "a VMEC file name is accepted")
        S.reach("refused")
        return
    if js:
        S.check(r + ".json" == name, "case name of a JSON input")
        S.reach("json")
    elif inp:
        S.check("input." + r == name, "case name of an INDATA file")
        S.reach("input")
    elif wo:
        S.check("wout_" + r + ".nc" == name, "case name of an output file")
        S.reach("wout")
    else:
        S.check(False, "other names are refused")


class Boom(Exception):
    pass


def workdir():
    u = S.module("vmecpp._util")
    exists, fails, nested = S.choice("exists", 2), S.choice("fails", 2), S.choice("nested", 2)
    start = os.getcwd()
    try:
        with tempfile.TemporaryDirectory() as t:
            os.chdir(t)
            base = os.getcwd()
            os.mkdir("a")
            os.mkdir("b")
            target = Path(base, "a" if exists else "gone")
            try:
                with u.change_working_directory_to(target):
                    S.check(exists == 1 and os.path.samefile(os.getcwd(), target), "the block runs in the directory")
                    if nested:
                        with u.change_working_directory_to(Path(base, "b")):
                            S.check(os.path.samefile(os.getcwd(), os.path.join(base, "b")), "the inner block runs in its directory")
                        S.check(os.path.samefile(os.getcwd(), target), "the outer directory is back")
                    if fails:
                        raise Boom()
                S.check(exists == 1 and not fails, "errors are passed on")
                S.reach("ok")
            except Boom:
                S.check(fails == 1, "only the block's own error")
                S.reach("body_failed")
            except FileNotFoundError:
                S.check(exists == 0, "an existing directory is entered")
                S.reach("no_dir")
            S.check(os.getcwd() == base, "the working directory is restored")
            os.chdir(start)
    finally:
        os.chdir(start)
