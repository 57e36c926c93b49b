# ENTRY: model_roundtrip |props=P35 |reach=arrays,scalars,containers,unions,nested,empty |bounds=arrays of rank 1..3 with up to 4 elements (empty ones included), optional, union, list, dict, tuple and nested-model fields; every finite value symbolic, NaN and both infinities at every position in turn; through JSON text and through JSON-like dicts
# ENTRY: dump_is_json |props=P35 |reach=ok |bounds=the same fields: the dumped structure holds only JSON types, special values as strings, finite values as themselves
# ASSUME: pydantic's compiled core moves doubles without changing them (it is executed as is); zero-dimensional arrays and trailing dimensions of empty arrays are outside
from engine import S, lift_deep
import json, math, typing
import numpy as np

SPECIAL = [None, math.nan, math.inf, -math.inf]
_cls = {}


def classes():
    m = S.module("vmecpp._pydantic_numpy")
    if not _cls:
        import jaxtyping as jt
        B = m.BaseModelWithNumpy

        class Inner(B):
            a: jt.Float[np.ndarray, "n"]
            x: float

        class M(B):
            f1: jt.Float[np.ndarray, "n"] | None = None
            f2: jt.Float[np.ndarray, "n m"] | None = None
            f3: np.ndarray | None = None
            i1: jt.Int[np.ndarray, "n"] | None = None
            b1: jt.Bool[np.ndarray, "n"] | None = None
            x: float = 0.0
            xs: list[float] = []
            xd: dict[str, float] = {}
            l: list[jt.Float[np.ndarray, "_"]] = []
            d: dict[str, jt.Float[np.ndarray, "_"]] = {}
            t: tuple[int, jt.Float[np.ndarray, "_"]] | None = None
            tt: tuple[jt.Float[np.ndarray, "_"], ...] = ()
            u1: float | np.ndarray = 0.0
            u2: np.ndarray | str = ""
            deep: dict[str, list[tuple[np.ndarray, str]]] | None = None
            inner: Inner | None = None
            inners: list[Inner] = []

        _cls["M"], _cls["I"] = M, Inner
    return _cls["M"], _cls["I"]


class Src:
    """numbers: symbolic ones, one of them possibly special"""

    def __init__(self):
        self.n = 0
        self.kind = S.choice("special", 4)
        self.at = S.choice("position", 4) if self.kind else -1

    def __call__(self):
        self.n += 1
        if self.n - 1 == self.at:
            return SPECIAL[self.kind]
        return S.real(f"v{self.n - 1}", -10**300, 10**300)

    def arr(self, *shape):
        def mk(sh):
            return self() if not sh else [mk(sh[1:]) for _ in range(sh[0])]
        return S.array(mk(list(shape)))


def build():
    M, I = classes()
    v = Src()
    k = S.choice("field", 16)
    if k == 0:
        S.reach("arrays")
        return M(f1=v.arr(4))
    if k == 1:
        return M(f2=v.arr(2, 2))
    if k == 2:
        return M(f3=v.arr(2, 1, 2))
    if k == 3:
        return M(i1=np.array([3, -(2**62), 2**62 + 1, 0], dtype=np.int64))
    if k == 4:
        return M(b1=np.array([True, False, False, True]))
    if k == 5:
        S.reach("scalars")
        return M(x=v())
    if k == 6:
        return M(xs=[v(), v(), v(), v()], xd={"p": v(), "q": v()})
    if k == 7:
        S.reach("containers")
        return M(l=[v.arr(1), v.arr(2), v.arr(1)])
    if k == 8:
        return M(d={"p": v.arr(2), "q": v.arr(2)})
    if k == 9:
        return M(t=(7, v.arr(3)), tt=(v.arr(1), v.arr(2)))
    if k == 10:
        S.reach("unions")
        return M(u1=v(), u2=v.arr(3))
    if k == 11:
        return M(u1=v.arr(2), u2="text")
    if k == 12:
        return M(deep={"p": [(v.arr(2), "a"), (v.arr(1), "NaN")]})
    if k == 13:
        S.reach("nested")
        return M(inner=I(a=v.arr(2), x=v()), inners=[I(a=v.arr(1), x=v())])
    if k == 14:
        S.reach("empty")
        return M(f1=S.array([]), i1=np.array([], dtype=np.int64), b1=np.array([], dtype=bool), l=[S.array([]), v.arr(1)])
    return M(f2=S.array([[], []]).reshape(2, 0), inner=I(a=S.array([]), x=v()))


def same(a, b, what):
    if isinstance(a, np.ndarray):
        S.check(isinstance(b, np.ndarray), "an array comes back as an array", what)
        S.check(tuple(a.shape) == tuple(b.shape), "same shape", f"{what}: {a.shape} {b.shape}")
        S.check(a.dtype.kind == b.dtype.kind, "same kind of numbers", f"{what}: {a.dtype} {b.dtype}")
        for x, y in zip(a.flat, b.flat):
            same(x, y, what)
    elif isinstance(a, (bool, np.bool_)):
        S.check(bool(a) == bool(b), "same logical", what)
    elif isinstance(a, (int, np.integer)):
        S.check(int(a) == int(b), "same integer", what)
    elif isinstance(a, float):
        S.check(isinstance(b, float), "a number comes back as a number", what)
        S.same(S.lift(b), S.lift(a), "same value in " + what)
    elif isinstance(a, (list, tuple)):
        S.check(type(a) is type(b) and len(a) == len(b), "same container", what)
        for x, y in zip(a, b):
            same(x, y, what)
    elif isinstance(a, dict):
        S.check(isinstance(b, dict) and list(a) == list(b), "same keys", what)
        for q in a:
            same(a[q], b[q], what)
    elif hasattr(a, "model_dump"):
        S.check(type(a) is type(b), "same model", what)
        for n in type(a).model_fields:
            same(getattr(a, n), getattr(b, n), what + "." + n)
    else:
        S.check(a is None and b is None or type(a) is type(b) and a == b, "same value", what)


def model_roundtrip():
    m = build()
    M = type(m)
    if S.choice("route", 2):
        back = M.model_validate_json(m.model_dump_json())
    else:
        back = M.model_validate(m.model_dump(mode="json"))
    same(m, back, "model")


def expect(v):
    """JSON structure for a value"""
    if isinstance(v, np.ndarray):
        return expect(v.tolist()) if v.dtype.kind != "f" or v.ndim else v
    if isinstance(v, (list, tuple)):
        return [expect(x) for x in v]
    if isinstance(v, dict):
        return {k: expect(x) for k, x in v.items()}
    if hasattr(v, "model_fields") or hasattr(type(v), "model_fields"):
        return {n: expect(getattr(v, n)) for n in type(v).model_fields}
    if isinstance(v, float) and type(v) is float:
        if v != v:
            return "NaN"
        if v in (math.inf, -math.inf):
            return "Infinity" if v > 0 else "-Infinity"
    return v


def dump_is_json():
    m = build()
    route = S.choice("route", 2)
    got = json.loads(m.model_dump_json(), parse_constant=lambda c: Bad(c)) if route else m.model_dump(mode="json")
    cmpj(got, expect(m), "model")
    S.reach("ok")


class Bad:
    def __init__(self, c):
        self.c = c


def cmpj(got, want, what):
    if isinstance(want, list):
        S.check(isinstance(got, list) and len(got) == len(want), "list in the dump", what)
        for a, b in zip(got, want):
            cmpj(a, b, what)
    elif isinstance(want, dict):
        S.check(isinstance(got, dict) and set(got) == set(want), "object in the dump", what)
        for k in want:
            cmpj(got[k], want[k], what + "." + k)
    elif isinstance(want, float):
        S.check(isinstance(got, (int, float)) and not isinstance(got, bool), "number in the dump", f"{what}: {got!r}")
        S.same(S.lift(got), S.lift(want), "dumped value " + what)
    else:
        S.check(type(got) is type(want) and got == want, "dumped value", f"{what}: {got!r}")
