# ENTRY: resize_boundary |props=P33,P37 |reach=grow,shrink,same |bounds=tables of 1..3 poloidal and 0..2 toroidal modes resized to 0..4 and 0..3, every coefficient symbolic
# ENTRY: resize_axis |props=P33,P37 |reach=padded,refused |bounds=axis arrays of length 0..4, ntor 0..4, every coefficient symbolic
# ENTRY: input_json |props=P37 |reach=sym,asym,text,dict,file |bounds=symmetric and asymmetric inputs, mpol 2, ntor 1; all profile arrays, auxiliary arrays, axis and scalars symbolic, 3 symbolic boundary coefficients per table; every text choice of the enumerations
# ENTRY: input_core |props=P37 |reach=sym,asym |bounds=the same inputs handed to the compiled core's record and back
# ENTRY: input_rules |props=P37 |reach=refused,filled,padded |bounds=each asymmetric field set or not, with and without lasym; axis arrays shorter, equal or longer than ntor+1; scalar or per-step resolution
# ENTRY: profile_knots |props=P37 |reach=pressure,iota,current,other |bounds=1..3 multigrid steps with 3..7 surfaces, symbolic profile values
# ASSUME: the compiled extension is replaced by records that store what they are given; integers and texts of the input are concrete
from engine import S, ST
import stubcore
import os, tempfile, math
import numpy as np


def pkg():
    v, core = stubcore.package()
    for n in ("vmecpp._util", "vmecpp._pydantic_numpy", "vmecpp"):
        S.module(n)
    return v, core


def resize_boundary():
    v, _ = pkg()
    mp, nt = 1 + S.choice("mpol", 3), S.choice("ntor", 3)
    mp2, nt2 = S.choice("mpol_new", 5), S.choice("ntor_new", 4)
    c = [[S.real(f"c{m}_{n}") for n in range(2 * nt + 1)] for m in range(mp)]
    r = v.VmecInput.resize_2d_coeff(S.array(c), mp2, nt2)
    S.check(tuple(r.shape) == (mp2, 2 * nt2 + 1), "shape after resizing")
    for m in range(mp2):
        for n in range(-nt2, nt2 + 1):
            want = c[m][n + nt] if m < mp and abs(n) <= nt else 0.0
            S.same(S.lift(r[m, n + nt2]), want, "shared modes keep their coefficient, new modes are zero")
    S.reach("grow" if mp2 > mp or nt2 > nt else "shrink" if mp2 < mp or nt2 < nt else "same")


def resize_axis():
    v, _ = pkg()
    n, nt = S.choice("n", 5), S.choice("ntor", 5)
    c = [S.real(f"c{i}") for i in range(n)]
    try:
        r = v.VmecInput.resize_1d_axis_coeff(S.array(c), nt)
    except ValueError:
        S.check(n > nt + 1, "an axis array that fits is accepted")
        S.reach("refused")
        return
    S.check(n <= nt + 1, "an axis array longer than ntor+1 is refused, not cut")
    S.check(len(r) == nt + 1, "length ntor+1")
    for i in range(nt + 1):
        S.same(S.lift(r[i]), c[i] if i < n else 0.0, "axis coefficients kept, rest zero")
    S.reach("padded")


ARR = {"am": 2, "am_aux_s": 2, "am_aux_f": 2, "ai": 1, "ai_aux_s": 1, "ai_aux_f": 1, "ac": 3, "ac_aux_s": 3, "ac_aux_f": 3, "aphi": 2, "extcur": 2, "ftol_array": 2}
SC = ["phiedge", "pres_scale", "gamma", "spres_ped", "curtor", "bloat", "tcon0", "delt"]


def make(v, lasym):
    d = {"lasym": lasym, "nfp": 5, "mpol": 2, "ntor": 1, "ntheta": 18, "nzeta": 7, "ncurr": 1, "nvacskip": 9, "nstep": 11, "lfreeb": True, "lforbal": True,
         "ns_array": np.array([5, 11], dtype=np.int64), "niter_array": np.array([100, 2000], dtype=np.int64), "mgrid_file": "some mgrid.nc",
         "pmass_type": "two_power", "piota_type": "sum_atan", "pcurr_type": "power_series_i", "mpol_geometry": 1, "ntor_geometry": 0,
         "free_boundary_method": ["nestor", "only_coils", "biest"][S.choice("method", 3)], "iteration_style": ["vmec_8_52", "parvmec"][S.choice("style", 2)],
         "return_outputs_even_if_not_converged": True}
    fields = v.VmecInput.model_fields
    d = {k: x for k, x in d.items() if k in fields}
    for k in SC:
        if k in fields:
            d[k] = S.real(k)
    for k, n in ARR.items():
        if k in fields:
            d[k] = S.array([S.real(f"{k}{i}") for i in range(n)])
    for k in ("raxis_c", "zaxis_s") + (("raxis_s", "zaxis_c") if lasym else ()):
        d[k] = S.array([S.real(f"{k}{i}") for i in range(2)])
    for j, k in enumerate(("rbc", "zbs") + (("rbs", "zbc") if lasym else ())):
        d[k] = S.array([[0.25, 0.5, S.real(k + "_0") if j == 0 else 0.75 + j], [S.real(k + "_1") if j < 2 else 1.5, 0.0, 2.5 + j]])
    return v.VmecInput(**d), d


def same_input(a, b, v):
    for n in v.VmecInput.model_fields:
        x, y = getattr(a, n), getattr(b, n)
        if isinstance(x, np.ndarray):
            S.check(isinstance(y, np.ndarray) and tuple(x.shape) == tuple(y.shape), "array with the same shape", n)
            for p, q in zip(x.flat, y.flat):
                S.same(S.lift(q), S.lift(p), "same value in " + n)
        elif isinstance(x, float):
            S.same(S.lift(y), S.lift(x), "same value of " + n)
        else:
            S.check(type(x) is type(y) and x == y, "same setting", f"{n}: {x!r} {y!r}")


def given(a, d):
    """the model holds what was given"""
    for k, x in d.items():
        y = getattr(a, k)
        if isinstance(x, np.ndarray):
            for i in np.ndindex(x.shape):
                S.same(S.lift(y[i]), S.lift(x[i]), "value given for " + k)
        elif isinstance(x, float):
            S.same(S.lift(y), x, "value given for " + k)
        else:
            S.check(y == x, "setting given for", k)


def input_json():
    v, _ = pkg()
    lasym = bool(S.choice("lasym", 2))
    S.reach("asym" if lasym else "sym")
    a, d = make(v, lasym)
    given(a, d)
    r = S.choice("route", 3)
    if r == 0:
        S.reach("text")
        b = v.VmecInput.model_validate_json(a.to_json())
    elif r == 1:
        S.reach("dict")
        b = v.VmecInput.model_validate(a.model_dump(mode="json"))
    else:
        S.reach("file")
        with tempfile.TemporaryDirectory() as t:
            a.save(os.path.join(t, "x.json"))
            b = v.VmecInput.model_validate_json(open(os.path.join(t, "x.json")).read())
    same_input(a, b, v)


def input_core():
    v, core = pkg()
    lasym = bool(S.choice("lasym", 2))
    S.reach("asym" if lasym else "sym")
    a, d = make(v, lasym)
    c = a._to_cpp_vmecindata()
    for n in v.VmecInput.model_fields:
        x, y = getattr(a, n), getattr(c, n)
        if isinstance(x, np.ndarray):
            S.check(tuple(np.shape(x)) == tuple(np.shape(y)), "array handed over with its shape", n)
            for p, q in zip(x.flat, y.flat):
                S.same(S.lift(q), S.lift(p), "value handed over: " + n)
        elif isinstance(x, float):
            S.same(S.lift(y), x, "value handed over: " + n)
        elif n in ("free_boundary_method", "iteration_style"):
            S.check(y.name.lower() == x.value, "choice handed over", n)
        else:
            S.check(x == y or (x is None and y is None), "setting handed over", n)
    b = v.VmecInput._from_cpp_vmecindata(c)
    same_input(a, b, v)


def input_rules():
    import pydantic
    v, core = pkg()
    lasym = bool(S.choice("lasym", 2))
    which = S.choice("field", 5)
    case = S.choice("case", 2)
    if case == 0:
        # asymmetric fields
        name = [None, "rbs", "zbc", "raxis_s", "zaxis_c"][which]
        kw = {"lasym": lasym, "mpol": 2, "ntor": 1}
        if name:
            kw[name] = S.array([[S.real("a"), S.real("b"), S.real("c")], [0.0, 1.0, 2.0]]) if name[1] == "b" else S.array([S.real("a"), S.real("b")])
        try:
            i = v.VmecInput(**kw)
        except pydantic.ValidationError:
            S.check(name is not None and not lasym, "a consistent input is accepted")
            S.reach("refused")
            return
        S.check(lasym or name is None, "asymmetric coefficients of a symmetric input are refused")
        if lasym:
            S.reach("filled")
            for k in ("rbs", "zbc"):
                t = getattr(i, k)
                S.check(t is not None and tuple(t.shape) == (2, 3), "asymmetric tables exist", k)
                for q, w in zip(t.flat, kw[k].flat if k == name else [0.0] * 6):
                    S.same(S.lift(q), S.lift(w), "asymmetric table: given values or zeros")
            complete = i.raxis_s is not None and i.zaxis_c is not None
            try:
                i._to_cpp_vmecindata()
                S.check(complete, "an incomplete asymmetric input does not reach the core")
            except ValueError:
                S.check(not complete, "a complete input reaches the core")
        return
    # axis length and per-step resolution
    n = S.choice("axis_len", 4) + 1
    sched = S.choice("schedule", 3)
    mpol = [2, [1, 2], np.array([3, 2])][sched]
    ntor = [1, 1, [0, 1]][sched]
    ax = [S.real(f"x{k}") for k in range(n)]
    b = [[S.real(f"b{m}{k}") for k in range(5)] for m in range(3)]
    try:
        i = v.VmecInput(lasym=False, mpol=mpol, ntor=ntor, ns_array=np.array([5, 7]), ftol_array=np.array([1e-8, 1e-9]), niter_array=np.array([10, 20]),
                        raxis_c=S.array(ax), rbc=S.array(b))
    except pydantic.ValidationError:
        S.check(n > 2, "an axis array that fits is accepted")
        S.reach("refused")
        return
    S.check(n <= 2, "an axis array longer than ntor+1 is refused")
    S.reach("padded")
    for k in range(2):
        S.same(S.lift(i.raxis_c[k]), ax[k] if k < n else 0.0, "axis padded with zeros")
    S.check(tuple(i.rbc.shape) == (2, 3), "boundary at the final resolution")
    for m in range(2):
        for k in range(-1, 2):
            S.same(S.lift(i.rbc[m, k + 1]), b[m][k + 2], "boundary coefficient keeps its mode")


def profile_knots():
    v, core = pkg()
    nst = 1 + S.choice("steps", 3)
    ns = [[3, 5, 7], [5, 4, 6]][S.choice("set", 2)][:nst]
    fld = ["pressure", "iota", "current", "density"][S.choice("field", 4)]
    vals = {}

    def f(s):
        out = []
        for x in s:
            x = float(x)
            if x not in vals:
                vals[x] = S.real(f"f{len(vals)}")
            out.append(vals[x])
        return S.array(out)

    a = v.VmecInput(ns_array=np.array(ns), ftol_array=np.full(nst, 1e-9), niter_array=np.full(nst, 10), am=np.array([7.0]), ai=np.array([8.0]), ac=np.array([9.0]))
    before = {k: getattr(a, k) for k in v.VmecInput.model_fields}
    try:
        b = v.set_profile(a, fld, f)
    except ValueError:
        S.check(fld == "density", "a known profile is accepted")
        S.reach("other")
        return
    S.check(fld != "density", "an unknown profile is refused")
    S.reach(fld)
    p = {"pressure": ("am", "pmass_type", "line_segment"), "iota": ("ai", "piota_type", "line_segment"), "current": ("ac", "pcurr_type", "line_segment_i")}[fld]
    S.check(getattr(b, p[1]) == p[2], "profile type")
    kn = [float(x) for x in getattr(b, p[0] + "_aux_s")]
    fv = list(getattr(b, p[0] + "_aux_f"))
    S.check(len(kn) == len(fv), "one value per knot")
    S.check(all(x < y for x, y in zip(kn, kn[1:])), "knots increase")
    for n in ns:
        for j in range(n):
            for s in [j / (n - 1)] + ([(j - 0.5) / (n - 1)] if j else []):
                near = [k for k, x in enumerate(kn) if abs(x - s) < 1e-12]
                S.check(len(near) >= 1, "every full- and half-grid position of every step is a knot", s)
    for k, x in enumerate(kn):
        S.check(x in vals, "the profile was evaluated at the knot")
        S.same(S.lift(fv[k]), vals[x], "the value at a knot is the profile there")
    for k, x in before.items():
        y = getattr(a, k)
        S.check(y is x or (not isinstance(x, np.ndarray) and x == y), "the given input is not modified", k)
        if not k.startswith(p[0]) and k != p[1]:
            z = getattr(b, k)
            S.check(z is x or (z == x if not isinstance(x, np.ndarray) else np.array_equal(x, z)), "other settings are kept", k)
