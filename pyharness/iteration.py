# ENTRY: control |props=P46 |reach=converged,exhausted,reverted,stored |bounds=all three styles; 0, 12 or 52 ordinary iterations, then 2, 1 or 1 (thorough: 3, 2, 2) iterations with arbitrary residual sums (in the ratio 4:2:1) or an unusable geometry, then convergence or the iteration limit
# ENTRY: first |props=P46 |reach=converged,failed,reguess |bounds=all three styles; first evaluation unusable, with huge forces or non-finite, once, twice or followed by any outcome; 2 or 3 surfaces
# ENTRY: storm |props=P46 |reach=converged,failed |bounds=all three styles; every iteration after the first has an unusable geometry, a good one after 3, 24, 25, 49, 50 or never
# ENTRY: report |props=P46 |reach=done |bounds=all three styles; 1 to 3 reported iterations with arbitrary residuals (from the second on in the ratio 4:2:1)
# ENTRY: ramp |props=P46 |reach=ran,refused |bounds=resolution lists of 1 to 3 stages in any order, each stage converging, not converging or failing; every interpolation and style
# ENTRY: single |props=P46 |reach=done |bounds=resolution given or not, every style
# ASSUME: the compiled forward model answers with arbitrary residuals; an unusable geometry leaves the previous residuals in place; preconditioned residuals are positive; log is an arbitrary function with log(a/b) = log a - log b
from engine import S, ST, SymReal, _lift
import stubcore
import math, sys, types
import numpy as np

NO, BAD, PROG, HUGE = 1, 2, 3, 4
STYLES = ["vmec_8_52", "parvmec", "robust"]


class FakeMath:
    """math with a logarithm of symbolic numbers"""

    def __init__(self):
        self.memo = []

    def __getattr__(self, n):
        return getattr(math, n)

    def isfinite(self, x):
        return True if isinstance(x, SymReal) else math.isfinite(x)

    def isnan(self, x):
        return False if isinstance(x, SymReal) else math.isnan(x)

    def _one(self, e):
        import z3
        e = z3.simplify(e)
        if z3.is_rational_value(e):
            return SymReal(_lift(math.log(float(e.as_fraction()))))
        for k, v in self.memo:
            if k.eq(e):
                return v
        ST.fresh += 1
        v = SymReal(z3.Real("log!%d" % ST.fresh))
        self.memo.append((e, v))
        return v

    def log(self, x, *base):
        import z3
        if ST.mode == "replay" or not isinstance(x, SymReal):
            return math.log(x, *base)
        e = x.e
        if z3.is_app_of(e, z3.Z3_OP_DIV):
            return self._one(e.arg(0)) - self._one(e.arg(1))
        if z3.is_app_of(e, z3.Z3_OP_MUL) and e.num_args() == 2 and z3.is_rational_value(e.arg(0)) and e.arg(0).as_fraction() > 0:
            return self._one(e.arg(1)) + math.log(float(e.arg(0).as_fraction()))
        return self._one(e)


def mod():
    v, core = stubcore.package()
    m = S.module("vmecpp._iteration")
    m.math = math if ST.mode == "replay" else FakeMath()
    return m, core


def total(t):
    return t[0] + t[1] + t[2]


class Out:
    """what one evaluation of the forward model gives"""

    def __init__(self, inv=None, pre=None, rr=NO):
        self.inv, self.pre, self.rr = inv, pre, rr


class Model:
    def __init__(self, outs, last, style="vmec_8_52", ns=3, ftolv=1e-6, niterv=10, delt=0.9):
        self.outs, self.last = list(outs), last
        self.iteration_style, self.ns, self.ftolv, self.niterv, self.delt = style, ns, ftolv, niterv, delt
        self.log = []
        self.used = []
        self.fsqr = self.fsqz = self.fsql = self.fsqr1 = self.fsqz1 = self.fsql1 = 1.0
        self.restart_reason = NO
        self.mhd_energy = 42.5

    def evaluate(self, iter1, iter2, precondition=False, always_fix_m1_gauge=True):
        S.check(precondition is True and always_fix_m1_gauge is False, "the forces are preconditioned as in the solver")
        o = self.outs.pop(0) if self.outs else self.last
        self.log.append(("evaluate", iter1, iter2))
        if o.inv is not None:  # otherwise the previous residuals stay
            self.fsqr, self.fsqz, self.fsql = o.inv
            self.fsqr1, self.fsqz1, self.fsql1 = o.pre
        self.restart_reason = o.rr
        self.used.append(o)
        if len(self.log) > 2000:
            S.check(False, "the iteration ends")

    def perform_time_step(self, a, b, dt):
        self.log.append(("step", a, b, dt))

    def save_backup(self):
        self.log.append(("save",))

    def restore_backup(self):
        self.log.append(("restore",))

    def reinitialize(self):
        self.log.append(("reinit",))


def reference(outs, last, style, ns, ftolv, niterv, delt, log):
    """the documented iteration: a state machine over the outcomes of the forward model"""
    outs = list(outs)
    L = []
    st = types.SimpleNamespace(dt=delt, it1=1, it2=1, jac=0, low0=None, low1=None, prev=1.0, reguess=0, reverts=0, trace=[], conv=False, fail=False, states=[])
    inv, pre = (1.0, 1.0, 1.0), (1.0, 1.0, 1.0)
    hist = [0.0] * 10
    reinit = False
    for attempt in range(niterv):
        if reinit:
            L += [("reinit",), ("save",)]
            reinit = False
        n, skipped, retry = st.it2, 0, False
        while n <= niterv:
            st.it2 = n - skipped
            o = outs.pop(0) if outs else last
            L.append(("evaluate", st.it1, st.it2))
            if o.inv is not None:
                inv, pre = o.inv, o.pre
            bad = (st.it2 == 1 and o.rr == BAD) or any(not isinstance(x, SymReal) and not math.isfinite(x) for x in inv)
            if not bad and all(bool(x <= ftolv) for x in inv):
                st.conv = True
                break
            f0, f1 = total(inv), total(pre)
            damp = decay = -1.0
            if not bad:
                if st.it2 == st.it1:
                    hist = [0.15 / st.dt] * 10
                new = hist[-1]
                if st.it2 > st.it1:
                    g = abs(log(f1 / st.prev))
                    new = S.ite(g < 0.15, g, 0.15) / st.dt
                hist = hist[1:] + [new]
                st.prev = f1
                st.trace.append((inv, o.rr))
                damp = sum(hist) / 10
                decay = st.dt * damp / 2
                L.append(("step", 1.0 / (1.0 + decay), 1.0 - decay, st.dt))
            if st.jac == 0 and (bad or o.rr == HUGE) and ns >= 3:
                st.jac, st.reguess, reinit, retry = 1, st.reguess + 1, True, True
                break
            if bad:
                st.fail = True
                break
            if st.jac in (25, 50):
                st.jac += 1
                st.it1, st.dt, st.reverts, retry = st.it2, (0.98 if st.jac < 50 else 0.96) * delt, st.reverts + 1, True
                L.append(("restore",))
                break
            if st.jac >= 75:
                st.fail = True
                break
            saved = reverted = False
            since = st.it2 - st.it1
            if o.rr == BAD:
                cut = 0.9
            else:
                if since == 0 or st.low0 is None:
                    st.low0, st.low1 = f1, f0
                st.low0, st.low1 = S.ite(f1 < st.low0, f1, st.low0), S.ite(f0 < st.low1, f0, st.low1)
                slow = since > 12 and st.it2 > 50 and bool(inv[0] + inv[1] > 1e-2)
                cut = None
                if o.rr == HUGE:
                    saved = True
                elif style == "vmec_8_52":
                    if since > 0 and bool(f1 > 100 * st.low0):
                        cut = 0.9
                    elif since > 10 and bool(f1 <= st.low0):
                        saved = True
                    elif slow:
                        cut = 1 / 1.03
                else:
                    leash = 1e4 if style == "parvmec" else 1e3
                    if bool(f1 <= st.low0) and bool(f0 <= st.low1):
                        saved = True
                    elif since > 10 and (bool(f1 > leash * st.low0) or bool(f0 > leash * st.low1)) or style == "robust" and slow:
                        cut = 1 / 1.03
            if saved:
                L.append(("save",))
            if cut is not None:
                L.append(("restore",))
                st.dt *= cut
                st.jac += cut == 0.9
                st.reverts += 1
                reverted = True
            if cut is not None or o.rr == HUGE:
                st.it1 = st.it2
                skipped += 1
            st.states.append((inv, pre, st.it1, st.it2, st.dt, damp, decay, st.jac, o.rr, st.reverts, st.reguess, reverted, saved))
            n += 1
        if not retry:
            break
    st.inv = inv
    st.log = L
    return st


def compare(m, outs, last, style, ns=3, niterv=10, delt=0.9, callback=None, pass_style=True):
    model = Model(outs, last, style if not pass_style else "vmec_8_52", ns, 1e-6, niterv, delt)
    r = m.solve_equilibrium(model, **({"style": style} if pass_style else {}), **({"callback": callback} if callback else {}))
    w = reference(outs, last, style, ns, 1e-6, niterv, delt, m.math.log)
    names = lambda L: [x[0] for x in L]
    S.check(names(model.log) == names(w.log), "the solver evaluates, steps, stores, reverts and reinitialises when it should", str(names(model.log)[-8:]) + " vs " + str(names(w.log)[-8:]))
    for a, b in zip(model.log, w.log):
        if a[0] == "evaluate":
            S.check(a == b, "iteration counters", str(a) + str(b))
        if a[0] == "step":
            S.close(a[1] * (2.0 - b[2]), 1.0, 1e-9, "velocity is damped")
            S.close(a[2], b[2], 1e-9, "previous velocity is damped")
            S.close(a[3], b[3], 1e-9, "time step")
    S.check(bool(r.converged) == w.conv and bool(r.failed) == w.fail, "outcome reported as it was")
    S.check(not (r.converged and r.failed), "success and failure exclude each other")
    if r.converged:
        S.check(S.all([x <= 1e-6 for x in (r.fsqr, r.fsqz, r.fsql)]), "convergence means the residuals met the tolerance")
    for a, b in zip((r.fsqr, r.fsqz, r.fsql), w.inv):
        S.same(a, b, "residuals of the last evaluation")
    S.check(r.num_iterations == len(w.trace) == len(r.force_residual_r) == len(r.force_residual_z) == len(r.force_residual_lambda) == len(r.restart_reasons), "one trace entry per step")
    for k, (t, rr) in enumerate(w.trace):
        S.same(r.force_residual_r[k], t[0], "trace of the residuals")
        S.same(r.force_residual_z[k], t[1], "trace of the residuals")
        S.same(r.force_residual_lambda[k], t[2], "trace of the residuals")
        S.check(r.restart_reasons[k] == rr, "trace of the restart reasons")
    S.check(r.restarts == w.reverts and r.axis_reguesses == w.reguess and r.iteration_style == style, "restarts and axis guesses are counted")
    return r, w, model


def ordinary(k=0):
    x = 2.0**-10
    return Out((x, x, x), (x, x, x))


ZERO = Out((0.0, 0.0, 0.0), (1e-9, 1e-9, 1e-9))


def arbitrary(n):
    f = lambda c: S.real(f"{c}{n}", 0, 1000)
    g = lambda c: S.real(f"{c}{n}", 1e-12, 1000)
    return Out((f("r"), f("z"), f("l")), (g("pr"), g("pz"), g("pl")))


def sized(n):
    a, p = S.real(f"a{n}", 0, 1000), S.real(f"p{n}", 1e-12, 1000)
    return Out((a, 0.5 * a, 0.25 * a), (p, 0.5 * p, 0.25 * p))


def control():
    m, core = mod()
    style = STYLES[S.choice("style", 3)]
    n0 = [0, 12, 52][S.choice("before", 3)]
    outs = [ordinary(k) for k in range(n0)]
    for k in range((3 if n0 == 0 else 2) if S.thorough else (2 if n0 == 0 else 1)):
        outs.append(Out(rr=BAD) if n0 + k > 0 and S.choice(f"bad{k}", 2) else sized(k))
    end = S.choice("end", 2)
    niterv = len(outs) + (2 if end == 0 else 0)
    r, w, model = compare(m, outs, ZERO, style, niterv=niterv, pass_style=bool(S.choice("given", 2)) if n0 == 0 else style == "robust")
    S.reach("converged" if r.converged else "exhausted")
    if w.reverts:
        S.reach("reverted")
    if ("save",) in model.log:
        S.reach("stored")


NAN = float("nan")


def first():
    m, core = mod()
    style = STYLES[S.choice("style", 3)]
    kinds = [Out(rr=BAD), Out((5e3, 5e3, 5e3), (7.0, 8.0, 9.0), HUGE), Out((NAN, 1.0, 1.0), (1.0, 1.0, 1.0)), Out((1.0, float("inf"), 1.0), (1.0, 1.0, 1.0)), Out((1.0, 1.0, NAN), (1.0, 1.0, 1.0))]
    outs = [kinds[S.choice("one", 5)]]
    k = S.choice("two", 5)
    outs.append(kinds[k] if k < 3 else sized(0) if k == 3 else ZERO)
    k = S.choice("three", 3) if S.thorough else 2
    outs.append([kinds[1], kinds[2], ordinary()][k])
    r, w, model = compare(m, outs, ZERO, style, ns=2 + S.choice("ns", 2), niterv=6)
    S.reach("converged" if r.converged else "failed" if r.failed else "open")
    if w.reguess:
        S.reach("reguess")
        S.check(("reinit",) in model.log or r.num_iterations == 0 or not model.outs, "a new axis guess restarts from a fresh state")


def storm():
    m, core = mod()
    style = STYLES[S.choice("style", 3)]
    k = [3, 24, 25, 49, 50, 200][S.choice("after", 6)]
    f = lambda c: S.real(c, 1e-5, 10)
    o = Out((f("r"), f("z"), f("l")), (f("pr"), f("pz"), f("pl")))
    r, w, model = compare(m, [o] + [Out(rr=BAD)] * k, ZERO, style, niterv=300, delt=[0.9, 0.5][S.choice("delt", 2)])
    S.check(r.failed == (k == 200), "a geometry that stays unusable ends in failure, one that recovers does not")
    S.reach("failed" if r.failed else "converged")


def report():
    m, core = mod()
    style = STYLES[S.choice("style", 3)]
    n = 1 + S.choice("n", 2)
    outs = [arbitrary(0)] + [sized(k) for k in range(1, n)]
    if S.choice("bad", 2):
        outs.append(Out(rr=BAD))
    seen = []
    r, w, model = compare(m, outs, ZERO, style, niterv=len(outs), callback=seen.append)
    S.check(len(seen) == len(w.states), "one report per iteration")
    for s, (inv, pre, it1, it2, dt, damp, decay, jac, rr, reverts, reguess, reverted, saved) in zip(seen, w.states):
        for a, b in zip((s.fsqr, s.fsqz, s.fsql, s.fsqr1, s.fsqz1, s.fsql1), inv + pre):
            S.same(a, b, "reported residuals")
        S.close(s.fsq_invariant, total(inv), 1e-9, "reported sum of the residuals")
        S.close(s.fsq_preconditioned, total(pre), 1e-9, "reported sum of the preconditioned residuals")
        S.check((s.iter1, s.iter2, s.ijacob, s.restart_reason, s.n_restarts, s.n_reguesses) == (it1, it2, jac, rr, reverts, reguess), "reported counters")
        S.check(bool(s.restarted) == reverted and bool(s.saved_backup) == saved, "reported decision")
        S.close(s.delt, dt, 1e-9, "reported time step")
        S.close(s.otav, damp, 1e-9, "reported damping")
        S.close(s.dtau, decay, 1e-9, "reported damping")
        S.check(s.mhd_energy == 42.5, "reported energy")
    S.reach("done")


class Input:
    def __init__(self, ns):
        self.ns_array = np.array(ns)

    def _to_cpp_vmecindata(self):
        self.core = types.SimpleNamespace(ns_array=self.ns_array, iteration_style="as given")
        return self.core


class Stage:
    """a forward model that converges, does not converge or fails at each resolution"""

    def __init__(self, kind, ns, calls):
        self.kind, self.calls = kind, calls
        self.start(ns)

    def start(self, ns):
        self.ns, self.ftolv, self.niterv, self.delt, self.iteration_style = ns, 1e-6, 3, 0.9, "vmec_8_52"
        self.mhd_energy = 0.0

    def refine_to(self, ns, interpolation="missing"):
        self.calls.append(("refine", ns, interpolation))
        self.start(ns)

    def evaluate(self, iter1, iter2, precondition, always_fix_m1_gauge):
        k = self.kind[self.ns]
        x = [0.0, 1e-3, NAN][k]
        self.fsqr = self.fsqz = self.fsql = x
        self.fsqr1 = self.fsqz1 = self.fsql1 = x or 1e-9
        self.restart_reason = NO

    def perform_time_step(self, a, b, c): pass
    def save_backup(self): pass
    def restore_backup(self): pass
    def reinitialize(self): pass


def ramp():
    m, core = mod()
    ns = [[3], [5, 9], [3, 5, 9], [9, 5], [5, 3, 9], [2, 5], [2], [5, 5], [3, 9, 9], [2, 1, 2]][S.choice("ns", 10)]
    style = [None, "vmec_8_52", "parvmec", "robust"][S.choice("style", 4)]
    interp = [None, "linear", "cubic", "cubic_rho", "spline"][S.choice("interpolation", 5)]
    kind = {n: S.choice(f"outcome{n}", 3) for n in sorted(set(ns))}
    calls = []
    made = []

    class VM:
        @staticmethod
        def create(indata, n):
            calls.append(("create", indata, n))
            made.append(Stage(kind, n, calls))
            return made[-1]

    old = core.VmecModel
    core.VmecModel = VM
    inp = Input(ns)
    try:
        got = None
        try:
            got = m.solve_multigrid(inp, iteration_style=style, interpolation=interp)
        except ValueError:
            pass
    finally:
        core.VmecModel = old
    use, low = [], 3
    for n in ns:
        if n >= low:
            use.append(n)
            low = n
    ok = interp != "spline" and len(set(ns)) == len(ns) and bool(use)
    S.check((got is not None) == ok, "unusable or ambiguous resolution lists and unknown interpolations are refused")
    if not ok:
        S.check(not made, "nothing is solved when the request is refused")
        S.reach("refused")
        return
    model, results = got
    want = []
    for n in use:
        want.append(n)
        if kind[n] == 2:
            break
    S.check([c[2] if c[0] == "create" else c[1] for c in calls] == want and calls[0][0] == "create" and all(c[0] == "refine" for c in calls[1:]), "every usable stage is solved in order, until one fails", str(calls))
    S.check(model is made[0] and len(made) == 1 and calls[0][1] is inp.core, "one model carries the solution through the stages")
    S.check(len(results) == len(want), "one result per stage")
    for n, r in zip(want, results):
        S.check((r.converged, r.failed) == [(True, False), (False, False), (False, True)][kind[n]], "outcome of the stage")
        S.check(r.iteration_style == (style or "vmec_8_52"), "requested style")
    sch = None if interp is None else core.MultigridInterpolationScheme[interp.upper()]
    S.check(all(c[2] is sch or c[2] == sch for c in calls[1:]), "requested interpolation")
    S.check(inp.core.iteration_style == (core.IterationStyle[style.upper()] if style in STYLES[:2] else "as given"), "style handed to the core")
    S.reach("ran")


def single():
    m, core = mod()
    style = [None, "vmec_8_52", "parvmec", "robust"][S.choice("style", 4)]
    ns = [None, 7][S.choice("ns", 2)]
    kind = {7: S.choice("outcome7", 3), 5: S.choice("outcome5", 3)}
    calls, made = [], []

    class VM:
        @staticmethod
        def create(indata, n):
            calls.append((indata, n))
            made.append(Stage(kind, n, []))
            return made[-1]

    old = core.VmecModel
    core.VmecModel = VM
    inp = Input([3, 5])
    seen = []
    try:
        model, r = m.iterate(inp, **({"ns": ns} if ns else {}), iteration_style=style, callback=seen.append)
    finally:
        core.VmecModel = old
    n = ns or 5
    S.check(calls == [(inp.core, n)] and model is made[0], "solved at the requested or final resolution")
    S.check((r.converged, r.failed) == [(True, False), (False, False), (False, True)][kind[n]], "outcome")
    S.check(r.iteration_style == (style or "vmec_8_52"), "requested style")
    S.check(inp.core.iteration_style == (core.IterationStyle[style.upper()] if style in STYLES[:2] else "as given"), "style handed to the core")
    S.check(len(seen) == r.num_iterations == (3 if kind[n] == 1 else 0), "every iteration is reported")
    S.reach("done")
