# ENTRY: sparse_of_dense |props=P32,P37 |reach=kept,dropped,round |bounds=dense shapes up to 3x3 (2x3 and 1x5 included), every coefficient symbolic, one of them also NaN or an infinity
# ENTRY: dense_of_sparse |props=P32,P37 |reach=placed,refused |bounds=lists of up to 3 coefficients with symbolic mode numbers in [-3,4] and symbolic values, mpol 1..3, ntor 0..2
# ENTRY: dense_of_sparse_implicit |props=P32,P37 |reach=placed,refused,passed |bounds=lists of up to 3 coefficients with symbolic mode numbers m in [-1,3], n in [-2,2] and symbolic values; dense arrays passed through
# ENTRY: padding |props=P33,P37 |reach=padded,refused,unchanged |bounds=arrays of length 0..4, target length 0..6, every value and the fill value symbolic
# ASSUME: numpy is replaced by an element-wise model of the calls these functions make (zeros, nonzero, pad, indexing); the replay of a counterexample uses numpy itself
from engine import S
import math

SHAPES = [(1, 1), (2, 1), (1, 3), (2, 3), (3, 3), (1, 5)]


def sparse_of_dense():
    u = S.module("vmecpp._util")
    mpol, nn = SHAPES[S.choice("shape", len(SHAPES))]
    vals = [[S.real(f"c{m}_{j}") for j in range(nn)] for m in range(mpol)]
    k = S.choice("special", 4) if (mpol, nn) in ((2, 1), (1, 3), (2, 3)) else 0
    if k:
        vals[mpol - 1][0] = [None, math.nan, math.inf, -math.inf][k]
    d = S.array(vals)
    sp = u.dense_to_sparse_coefficients(d)
    ntor = nn // 2
    seen = {}
    for e in sp:
        m, n = int(e["m"]), int(e["n"])
        S.check(0 <= m < mpol and -ntor <= n <= ntor, "mode numbers of a listed coefficient are in range")
        S.check((m, n) not in seen, "a mode is listed once")
        seen[(m, n)] = e["value"]
        S.check(type(e["m"]) is int and type(e["n"]) is int, "mode numbers are plain integers")
    for m in range(mpol):
        for n in range(-ntor, ntor + 1):
            v = vals[m][n + ntor]
            if (m, n) in seen:
                S.reach("kept")
                S.same(S.lift(seen[(m, n)]), v, "the listed value is the coefficient")
            else:
                S.reach("dropped")
                S.same(v, 0.0, "only zero coefficients are left out")
    back = u.sparse_to_dense_coefficients(sp, mpol, ntor)
    S.check(tuple(back.shape) == (mpol, nn), "shape after the round trip")
    for m in range(mpol):
        for j in range(nn):
            S.same(S.lift(back[m, j]), vals[m][j], "round trip dense -> sparse -> dense")
    S.reach("round")


def dense_of_sparse():
    u = S.module("vmecpp._util")
    mpol = 1 + S.choice("mpol", 3)
    ntor = S.choice("ntor", 3)
    n = S.choice("entries", 4 if S.thorough else 3)
    ents = [(S.integer(f"m{i}", -3, 4), S.integer(f"n{i}", -3, 4), S.real(f"v{i}")) for i in range(n)]
    lst = [{"m": m, "n": k, "value": v} for m, k, v in ents]
    inr = S.all(S.all([m >= 0, m < mpol, k >= -ntor, k <= ntor]) for m, k, v in ents)
    try:
        d = u.sparse_to_dense_coefficients(lst, mpol, ntor)
    except ValueError:
        S.check(~inr if S.symbolic and n else not inr, "a list whose modes are all in range is accepted")
        S.reach("refused")
        return
    S.check(inr, "a mode outside the resolution is refused, not dropped or misplaced")
    S.check(tuple(d.shape) == (mpol, 2 * ntor + 1), "shape of the dense array")
    for m in range(mpol):
        for k in range(-ntor, ntor + 1):
            want = 0.0
            for em, en, v in ents:
                want = S.ite(S.all([em == m, en == k]), v, want)
            S.same(S.lift(d[m, k + ntor]), want, "every coefficient at its mode, all others zero")
    S.reach("placed")


def dense_of_sparse_implicit():
    u = S.module("vmecpp._util")
    if S.choice("kind", 2):
        a = S.array([[S.real("a"), S.real("b"), S.real("c")]])
        r = u.sparse_to_dense_coefficients_implicit(a)
        S.check(tuple(r.shape) == (1, 3), "a dense array passes unchanged (shape)")
        for j in range(3):
            S.same(S.lift(r[0, j]), a[0, j], "a dense array passes unchanged")
        S.reach("passed")
        return
    n = S.choice("entries", 4 if S.thorough else 3)
    ents = [(S.integer(f"m{i}", -1, 3), S.integer(f"n{i}", -2, 2), S.real(f"v{i}")) for i in range(n)]
    ok = S.all(m >= 0 for m, k, v in ents)
    try:
        d = u.sparse_to_dense_coefficients_implicit([{"m": m, "n": k, "value": v} for m, k, v in ents])
    except ValueError:
        S.check(~ok if S.symbolic and n else not ok, "a list with valid mode numbers is accepted")
        S.reach("refused")
        return
    S.check(ok, "negative poloidal mode numbers are refused")
    mp, nn = d.shape
    S.check(nn % 2 == 1, "odd number of toroidal columns")
    nt = nn // 2
    # as many modes as the largest listed mode numbers
    S.check(S.any([mp == 1] + [m == mp - 1 for m, k, v in ents]), "mpol is the largest m plus one")
    S.check(S.any([nt == 0] + [S.any([k == nt, k == -nt]) for m, k, v in ents]), "ntor is the largest |n|")
    for m, k, v in ents:
        S.check(S.all([m < mp, k <= nt, k >= -nt]), "every listed mode fits")
    for m in range(mp):
        for k in range(-nt, nt + 1):
            want = 0.0
            for em, en, v in ents:
                want = S.ite(S.all([em == m, en == k]), v, want)
            S.same(S.lift(d[m, k + nt]), want, "every coefficient at its mode, all others zero")
    S.reach("placed")


def padding():
    u = S.module("vmecpp._util")
    n = S.choice("n", 5)
    t = S.choice("target", 7)
    vals = [S.real(f"x{i}") for i in range(n)]
    fill = S.real("fill")
    which = S.choice("which", 3)
    a = S.array(vals)
    try:
        if which == 0:
            r = u.pad_to_target(a, t, fill)
            want = vals + [fill] * (t - n)
        elif which == 1:
            r = u.right_pad(a, t, fill)
            want = vals + [fill] * (t - n)
        else:
            r = u.right_pad(a, t)
            want = vals + [0.0] * (t - n)
    except ValueError:
        S.check(which == 0 and n > t, "refused only by pad_to_target for an array longer than the target")
        S.reach("refused")
        return
    S.check(not (which == 0 and n > t), "an array longer than the target is refused, not cut")
    S.check(len(r) == len(want), "length after padding")
    for x, y in zip(r, want):
        S.same(S.lift(x), y, "values kept in front, fill behind")
    S.reach("padded" if t > n else "unchanged")
