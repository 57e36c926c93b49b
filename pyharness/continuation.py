# ENTRY: mode_table |props=P38 |reach=done |bounds=mpol 0..5, ntor 0..4, nfp 1..5
# ENTRY: remap_modes |props=P38 |reach=kept,new |bounds=mpol 1..3 and ntor 0..2 on both sides, nfp 1 or 3, every coefficient symbolic on 2 surfaces; also tables in a foreign order
# ENTRY: remap_axis |props=P38 |reach=cut,padded |bounds=axis arrays of length 1..4, ntor 0..4, every coefficient symbolic
# ENTRY: radial_profiles |props=P38 |reach=same,shared,between |bounds=1-D and 2-D arrays on 2..5 surfaces interpolated to 2..7 surfaces, every value symbolic
# ENTRY: radial_geometry |props=P38 |reach=same,even,odd,axis |bounds=modes with m = 0..3 on 3..5 surfaces interpolated to 3..9 surfaces, every value symbolic
# ENTRY: whole_solution |props=P38 |reach=sym,asym |bounds=symmetric and asymmetric solutions, (mpol,ntor,ns) from (2,1,3) to (3,2,5), (1,0,3), (2,1,4) and (3,0,2+3); geometry, axis and profiles symbolic
# ENTRY: step_input |props=P38 |reach=done |bounds=inputs with mpol 2, ntor 1 taken to mpol 1..3, ntor 0..2; boundary, axis and schedule values symbolic
# ENTRY: schedule |props=P38 |reach=ran,refused,seeded |bounds=1..3 steps; resolution scalar, matching or of the wrong length; with and without an initial solution
# ASSUME: the compiled extension is replaced by records that store what they are given
# ASSUME: interpolation weights are compared in exact arithmetic against doubles with a tolerance of 1e-9 times the data range
from engine import S, ST
import stubcore
import math, typing
import numpy as np

R = 1000.0


def cont():
    S.module("vmecpp._util")
    return S.module("vmecpp._continuation")


def pkg():
    v, core = stubcore.package()
    for n in ("vmecpp._util", "vmecpp._pydantic_numpy", "vmecpp._continuation", "vmecpp"):
        S.module(n)
    return v, core, S.module("vmecpp._continuation")


def table(mpol, ntor, nfp):
    t = [(0, n * nfp) for n in range(ntor + 1)] if mpol > 0 else []
    return t + [(m, n * nfp) for m in range(1, mpol) for n in range(-ntor, ntor + 1)]


def mode_table():
    c = cont()
    mpol, ntor, nfp = S.choice("mpol", 6), S.choice("ntor", 5), 1 + S.choice("nfp", 5)
    xm, xn = c._state_mode_table(mpol, ntor, nfp)
    S.check([(int(a), int(b)) for a, b in zip(xm, xn)] == table(mpol, ntor, nfp), "modes in VMEC order: m ascending, n from -ntor (0 for m = 0) to ntor, times nfp")
    S.check(len(xm) == len(xn), "one n per m")
    S.reach("done")


def remap_modes():
    c = cont()
    nfp = [1, 3][S.choice("nfp", 2)]
    a = table(1 + S.choice("mpol", 3), S.choice("ntor", 3), nfp)
    b = table(1 + S.choice("mpol_new", 3), S.choice("ntor_new", 3), nfp)
    if S.choice("order", 2):
        a = a[::-1]
    vals = [[S.real(f"c{i}_{j}") for j in range(2)] for i in range(len(a))]
    ar = lambda t, k: np.array([x[k] for x in t], dtype=np.int64)
    r = c._remap_modes(S.array(vals), ar(a, 0), ar(a, 1), ar(b, 0), ar(b, 1))
    S.check(tuple(r.shape) == (len(b), 2), "one row per target mode")
    for i, mn in enumerate(b):
        for j in range(2):
            if mn in a:
                S.same(S.lift(r[i, j]), vals[a.index(mn)][j], "a shared mode keeps its coefficients")
                S.reach("kept")
            else:
                S.same(S.lift(r[i, j]), 0.0, "a new mode starts at zero")
                S.reach("new")


def remap_axis():
    c = cont()
    n, nt = 1 + S.choice("n", 4), S.choice("ntor", 5)
    vals = [S.real(f"x{i}") for i in range(n)]
    r = c._remap_axis(S.array(vals), nt)
    S.check(len(r) == nt + 1, "ntor+1 axis coefficients")
    for i in range(nt + 1):
        S.same(S.lift(r[i]), vals[i] if i < n else 0.0, "axis coefficients kept in front, zeros behind")
    S.reach("cut" if n > nt + 1 else "padded")


def lin(x, xs, ys):
    """piecewise linear through (xs, ys) at x"""
    for k in range(len(xs)):
        if abs(xs[k] - x) < 1e-13:
            return ys[k]
    k = max(i for i in range(len(xs)) if xs[i] < x)
    w = (x - xs[k]) / (xs[k + 1] - xs[k])
    return ys[k] * (1.0 - w) + ys[k + 1] * w


def radial_profiles():
    c = cont()
    no, nn = 2 + S.choice("ns", 4), 2 + S.choice("ns_new", 6)
    two = S.choice("two", 2)
    rows = [[S.real(f"v{i}_{j}", -R, R) for j in range(no)] for i in range(2 if two else 1)]
    r = c._radial_interpolate(S.array(rows if two else rows[0]), nn)
    S.check(tuple(r.shape) == ((2, nn) if two else (nn,)), "length of the new grid")
    so, sn = [i / (no - 1) for i in range(no)], [i / (nn - 1) for i in range(nn)]
    for i, row in enumerate(rows):
        for j in range(nn):
            x = S.lift(r[i, j] if two else r[j])
            if no == nn:
                S.same(x, row[j], "unchanged on the same grid")
                S.reach("same")
            else:
                S.close(x, lin(sn[j], so, row), 1e-9, "linear in s between the old surfaces", R)
                S.reach("shared" if any(abs(sn[j] - q) < 1e-13 for q in so) else "between")


def radial_geometry():
    c = cont()
    no, nn = 3 + S.choice("ns", 3), 3 + S.choice("ns_new", 7)
    xm = np.array([0, 1, 2, 3], dtype=np.int64)
    rows = [[S.real(f"v{i}_{j}", -R, R) for j in range(no)] for i in range(4)]
    r = c._radial_interpolate_geometry(S.array(rows), xm, nn)
    S.check(tuple(r.shape) == (4, nn), "length of the new grid")
    geometry(rows, xm, r, no, nn)


def geometry(rows, xm, r, no, nn):
    so, sn = [math.sqrt(i / (no - 1)) for i in range(no)], [math.sqrt(i / (nn - 1)) for i in range(nn)]
    for i, row in enumerate(rows):
        if no == nn:
            for j in range(nn):
                S.same(S.lift(r[i, j]), row[j], "unchanged on the same grid")
            S.reach("same")
            continue
        odd = int(xm[i]) % 2 == 1
        if odd:
            # v = sqrt(s) * w(sqrt(s)) with w extrapolated linearly (by surface number) to the axis
            w = [None] + [row[k] / so[k] for k in range(1, no)]
            w[0] = w[1] * 2.0 - w[2] if no >= 3 else row[0] / so[1]
        for j in range(nn):
            x = S.lift(r[i, j])
            if not odd:
                S.close(x, lin(sn[j], so, row), 1e-9, "even m: linear in sqrt(s) between the old surfaces", R)
                S.reach("even")
            elif j == 0:
                S.same(x, 0.0, "odd m: zero on the axis")
                S.reach("axis")
            else:
                S.close(x, lin(sn[j], so, w) * sn[j], 1e-8, "odd m: regular interpolation in sqrt(s)", R)
                S.reach("odd")


GEO = ["rmnc", "zmns", "lmns", "lmns_full"]
GEOA = ["rmns", "zmnc", "lmnc", "lmnc_full"]
AX, AXA = ["raxis_cc", "zaxis_cs"], ["raxis_cs", "zaxis_cc"]


def make_wout(v, mpol, ntor, ns, nfp, lasym, tag="", sym=True):
    """a solution record at one resolution with symbolic content"""
    num = (lambda n: S.real(tag + n, -R, R)) if sym else (lambda n: 0.5)
    t = table(mpol, ntor, nfp)
    vals = {}
    for n, f in v.VmecWOut.model_fields.items():
        vals[n] = None
    vals.update(nfp=nfp, mpol=mpol, ntor=ntor, ns=ns, mnmax=len(t), lasym=lasym)
    ar = lambda k: np.array([x[k] for x in t], dtype=np.int64)
    vals.update(xm=ar(0), xn=ar(1))
    for n in GEO + (GEOA if lasym else []):
        vals[n] = S.array([[num(f"{n}{i}_{j}") for j in range(ns)] for i in range(len(t))])
    for n in AX + (AXA if lasym else []):
        vals[n] = S.array([num(f"{n}{i}") for i in range(ntor + 1)])
    for n in ("iotaf", "presf", "phipf"):
        vals[n] = S.array([num(f"{n}{i}") for i in range(ns)])
    vals["bmnc"] = S.array([[num(f"bmnc{i}_{j}") for j in range(ns)] for i in range(2)])
    vals["am"] = S.array([num(f"am{i}") for i in range(2)])
    return v.VmecWOut.model_construct(**vals)


def make_output(v, wout, inp):
    k = {}
    for n, f in v.VmecOutput.model_fields.items():
        if n in ("wout", "input"):
            continue
        k[n] = f.annotation.model_construct()
    return v.VmecOutput.model_construct(wout=wout, input=inp, **k)


def check_solution(v, src, out, mpol, ntor, ns, lasym):
    w, o = src.wout, out.wout
    nfp = w.nfp
    told, tnew = [(int(a), int(b)) for a, b in zip(w.xm, w.xn)], table(mpol, ntor, nfp)
    S.check((o.ns, o.mpol, o.ntor, o.mnmax) == (ns, mpol, ntor, len(tnew)), "declared resolution")
    S.check([(int(a), int(b)) for a, b in zip(o.xm, o.xn)] == tnew, "mode table of the new resolution")
    for n in GEO + (GEOA if lasym else []):
        old = getattr(w, n)
        rows = [list(old[told.index(mn)]) if mn in told else [0.0] * w.ns for mn in tnew]
        new = getattr(o, n)
        S.check(tuple(new.shape) == (len(tnew), ns), "geometry array has the new resolution", n)
        geometry(rows, [m for m, _ in tnew], new, w.ns, ns)
    if not lasym:
        for n in GEOA + AXA:
            S.check(getattr(o, n) is None, "no asymmetric arrays appear", n)
    for n in AX + (AXA if lasym else []):
        old, new = getattr(w, n), getattr(o, n)
        S.check(len(new) == ntor + 1, "axis length", n)
        for i in range(ntor + 1):
            S.same(S.lift(new[i]), S.lift(old[i]) if i < len(old) else 0.0, "axis coefficients carried over")


TARGETS = [(3, 2, 5), (1, 0, 3), (2, 1, 4), (3, 0, 3)]


def whole_solution():
    v, core, c = pkg()
    lasym = bool(S.choice("lasym", 2))
    mpol, ntor, ns = TARGETS[S.choice("target", len(TARGETS))]
    w = make_wout(v, 2, 1, 3, 3, lasym)
    keep = {n: (getattr(w, n), [S.lift(x) for x in getattr(w, n).flat] if isinstance(getattr(w, n), np.ndarray) else getattr(w, n)) for n in v.VmecWOut.model_fields}
    src = make_output(v, w, v.VmecInput(lasym=lasym, nfp=3, mpol=2, ntor=1))
    tgt = v.VmecInput(lasym=lasym, nfp=3, mpol=mpol, ntor=ntor, ns_array=np.array([ns]), ftol_array=np.array([1e-9]), niter_array=np.array([7]))
    out = c.interpolate_solution(src, tgt)
    check_solution(v, src, out, mpol, ntor, ns, lasym)
    S.check(out.input is tgt or out.input == tgt, "the new state belongs to the target input")
    for n in ("iotaf", "presf", "phipf"):
        new = getattr(out.wout, n)
        S.check(len(new) == ns, "radial arrays have the new length", n)
    S.check(out.wout.bmnc.shape[-1] == ns, "radial tables have the new length")
    for i in range(2):
        S.same(S.lift(out.wout.am[i]), S.lift(w.am[i]), "non-radial arrays are kept")
    for n, (obj, content) in keep.items():
        S.check(getattr(w, n) is obj, "the source solution is not modified", n)
        if isinstance(obj, np.ndarray):
            for x, y in zip(obj.flat, content):
                S.same(S.lift(x), y, "the source solution is not modified")
    S.reach("asym" if lasym else "sym")


def base_input(v, lasym, mpol=2, ntor=1, **k):
    d = dict(lasym=lasym, nfp=3, mpol=mpol, ntor=ntor)
    for j, n in enumerate(("rbc", "zbs") + (("rbs", "zbc") if lasym else ())):
        d[n] = S.array([[S.real(f"{n}{m}_{i}") for i in range(3)] for m in range(2)])
    for n in ("raxis_c", "zaxis_s") + (("raxis_s", "zaxis_c") if lasym else ()):
        d[n] = S.array([S.real(f"{n}{i}") for i in range(2)])
    d["phiedge"] = S.real("phiedge")
    d["am"] = S.array([S.real("am0"), S.real("am1")])
    d.update(k)
    return v.VmecInput(**d)


def check_step(v, base, st, ns, mpol, ntor, ftol, niter, lasym):
    S.check(int(st.mpol) == mpol and int(st.ntor) == ntor, "resolution of the step")
    S.check([int(x) for x in st.ns_array] == [ns], "surfaces of the step")
    S.check([int(x) for x in st.niter_array] == [niter], "iteration limit of the step")
    S.check(len(st.ftol_array) == 1, "one tolerance")
    S.same(S.lift(st.ftol_array[0]), ftol, "tolerance of the step")
    for n in ("rbc", "zbs") + (("rbs", "zbc") if lasym else ()):
        b, r = getattr(base, n), getattr(st, n)
        S.check(tuple(r.shape) == (mpol, 2 * ntor + 1), "boundary table of the step", n)
        bm, bn = b.shape[0], b.shape[1] // 2
        for m in range(mpol):
            for k in range(-ntor, ntor + 1):
                S.same(S.lift(r[m, k + ntor]), S.lift(b[m, k + bn]) if m < bm and abs(k) <= bn else 0.0, "boundary coefficient of the step")
    for n in ("raxis_c", "zaxis_s") + (("raxis_s", "zaxis_c") if lasym else ()):
        b, r = getattr(base, n), getattr(st, n)
        S.check(len(r) == ntor + 1, "axis of the step", n)
        for i in range(ntor + 1):
            S.same(S.lift(r[i]), S.lift(b[i]) if i < len(b) else 0.0, "axis coefficient of the step")
    S.same(S.lift(st.phiedge), S.lift(base.phiedge), "other settings are kept")
    for i in range(2):
        S.same(S.lift(st.am[i]), S.lift(base.am[i]), "other settings are kept (profile)")


def step_input():
    v, core, c = pkg()
    lasym = bool(S.choice("lasym", 2))
    mpol, ntor = 1 + S.choice("mpol", 3), S.choice("ntor", 3)
    base = base_input(v, lasym)
    ftol = S.real("ftol")
    st = c._step_input(base, 9, mpol, ntor, ftol, 321)
    check_step(v, base, st, 9, mpol, ntor, ftol, 321, lasym)
    S.check((base.mpol, base.ntor) == (2, 1) and tuple(base.rbc.shape) == (2, 3), "the given input is not modified")
    S.reach("done")


def schedule():
    v, core, c = pkg()
    n = 1 + S.choice("steps", 3)
    mk, nk = S.choice("mpol", 3), S.choice("ntor", 3)
    seeded = S.choice("seeded", 2)
    ms = [1, 2, 2][-n:] if n > 1 else [2, 2]
    nt = [0, 1, 1][-n:] if n > 1 else [1, 1]
    mpol = [2, ms, ms + [2]][mk]
    ntor = [1, nt, nt + [1]][nk]
    nsl = [3, 5, 7][:n]
    ft = [S.real(f"ftol{i}") for i in range(n)]
    inp = base_input(v, False, mpol=mpol, ntor=ntor, ns_array=np.array(nsl), ftol_array=S.array(ft), niter_array=np.array([10, 20, 30][:n]))
    nm = 1 if isinstance(inp.mpol, int) else len(inp.mpol)
    nn = 1 if isinstance(inp.ntor, int) else len(inp.ntor)
    bad = (not isinstance(inp.mpol, int) and nm != n) or (not isinstance(inp.ntor, int) and nn != n)
    calls = []

    def fake_run(si, mf=None, *, max_threads=None, verbose=None, restart_from=None):
        w = make_wout(v, int(si.mpol), int(si.ntor), int(si.ns_array[-1]), 3, False, tag=f"s{len(calls)}_")
        o = make_output(v, w, si)
        calls.append((si, mf, max_threads, verbose, restart_from, o))
        return o

    seed = None
    if seeded:
        seed = make_output(v, make_wout(v, 2, 0, 3, 3, False, tag="seed_"), v.VmecInput(nfp=3, mpol=2, ntor=0))
    old = v.run
    v.run = fake_run
    try:
        out = c._run_fourier_continuation(inp, "field", max_threads=5, verbose=7, restart_from=seed)
    except ValueError:
        S.check(bad, "a schedule with one entry per step is accepted")
        S.check(not calls, "nothing is solved for a refused schedule")
        S.reach("refused")
        return
    finally:
        v.run = old
    S.check(not bad, "a schedule of the wrong length is refused")
    S.check(len(calls) == n, "one solve per step")
    prev = seed
    for i, (si, mf, mt, vb, rf, o) in enumerate(calls):
        m = inp.mpol if isinstance(inp.mpol, int) else int(inp.mpol[i])
        t = inp.ntor if isinstance(inp.ntor, int) else int(inp.ntor[i])
        check_step(v, inp, si, nsl[i], m, t, ft[i], [10, 20, 30][i], False)
        S.check((mf, mt, vb) == ("field", 5, 7), "field, threads and verbosity are passed on")
        if prev is None:
            S.check(rf is None, "the first step starts cold")
        else:
            S.check(rf is not None, "every later step restarts from the previous one")
            check_solution(v, prev, rf, m, t, nsl[i], False)
        prev = o
    S.check(out.wout is calls[-1][5].wout, "the result is the last step's solution")
    S.check(out.input is inp, "the result carries the full schedule")
    S.reach("seeded" if seeded else "ran")
