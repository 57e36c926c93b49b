"""Symbolic execution of Python code by proxy objects: one z3 variable per input, every feasible branch
explored by re-execution, assertions decided by z3.  In replay mode the same harness runs on plain numbers
and unpatched modules."""
import builtins, importlib, os, sys, types
from fractions import Fraction

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402
import numpy as _np  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")


class Unsupported(Exception):
    pass


class Infeasible(BaseException):
    pass


class Failed(BaseException):
    """an assertion failed (replay mode)"""

    def __init__(self, label, detail=""):
        self.label, self.detail = label, detail


class Violation(BaseException):
    def __init__(self, kind, label, model, detail=""):
        self.kind, self.label, self.model, self.detail = kind, label, model, detail


class State:
    mode = "sym"
    tier = "quick"

    def start(self, prefix, values=None):
        self.prefix, self.values = prefix, values
        self.dec, self.alts, self.vars, self.fresh = [], [], {}, 0
        self.solver = z3.Solver()
        self.solver.set("timeout", 20000)
        self.reached, self.tags, self.tok = set(), {}, []
        self.ntag = 0
        self.pc = []

    def __init__(self):
        self.stats = dict(paths=0, forks=0, asserts=0, asserts_ok=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, errors=0, unknowns=0, violations=0)
        self.patched = []
        self.funcs = set()

    # -- solver ----------------------------------------------------------------------------------
    def q(self, *extra):
        import time
        t = time.time()
        r = self.solver.check(*extra)
        self.stats["solver_s"] += time.time() - t
        self.stats["queries"] += 1
        self.stats[str(r)] += 1
        return r

    def add(self, c):
        self.pc.append(c)
        self.solver.add(c)

    def branch(self, cond):
        """decide a symbolic condition: follow the prefix or explore"""
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        i = len(self.dec)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.dec.append(v)
            self.add(c if v else z3.Not(c))
            return v
        t = self.q(c)
        f = self.q(z3.Not(c))
        if t == z3.unsat and f == z3.unsat:
            raise Infeasible()
        if t == z3.unknown or f == z3.unknown:
            self.stats["unknowns"] += 1
        if f == z3.unsat:
            v = True
        elif t == z3.unsat:
            v = False
        else:
            self.alts.append(self.dec + [False])
            self.stats["forks"] += 1
            v = True
        self.dec.append(v)
        self.add(c if v else z3.Not(c))
        return v

    def concretise(self, e, limit=64):
        """choose a concrete value of an integer expression, forking over all of them"""
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        for _ in range(limit):
            if self.q() != z3.sat:
                raise Infeasible()
            # canonical: the smallest feasible value, so that re-execution takes the same steps
            v = self.minimum(e)
            if self.branch(e == v):
                return v
        raise Unsupported("more than %d values for an index" % limit)

    def minimum(self, e):
        m = self.solver.model()
        v = m.eval(e, model_completion=True).as_long()
        step = 1
        lo = None
        while True:  # go down exponentially, then bisect
            if self.q(e < v) != z3.sat:
                return v
            v = self.solver.model().eval(e, model_completion=True).as_long()
            if self.q(e <= v - step) == z3.sat:
                v = self.solver.model().eval(e, model_completion=True).as_long()
                step *= 4
            else:
                step = 1
            if v < -(1 << 70):
                raise Unsupported("unbounded integer used as an index")

    def model(self, extra=None):
        r = self.q(extra) if extra is not None else self.q()
        if r != z3.sat:
            return None
        m = self.solver.model()
        out = {}
        for n, e in self.vars.items():
            v = m.eval(e, model_completion=True)
            if z3.is_int_value(v):
                out[n] = v.as_long()
            elif z3.is_rational_value(v):
                out[n] = str(v.as_fraction())
            elif z3.is_algebraic_value(v):
                out[n] = str(v.approx(20).as_fraction())
            elif z3.is_string_value(v):
                out[n] = ["s", v.as_string()]
            else:
                out[n] = str(v)
        return out


ST = State()


def _lift(x):
    """z3 real expression of a number (proxy, tagged double or plain number)"""
    if isinstance(x, SymReal):
        return x.e
    if isinstance(x, SymInt):
        return z3.ToReal(x.e)
    if isinstance(x, (bool, _np.bool_)):
        return z3.RealVal(int(x))
    if isinstance(x, (int, _np.integer)):
        return z3.RealVal(int(x))
    if isinstance(x, (float, _np.floating)):
        f = builtins.float(x)
        if f in ST.tags:
            return ST.tags[f]
        if f != f or f in (builtins.float("inf"), -builtins.float("inf")):
            raise Unsupported("NaN or infinity mixed with a symbolic real")
        fr = Fraction(f)
        return z3.Q(fr.numerator, fr.denominator)
    raise Unsupported("not a number: %r" % type(x))


def _isnum(x):
    return isinstance(x, (int, float, SymInt, _np.integer, _np.floating))


class SymBool:
    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ST.branch(self.e)

    def __and__(self, o):
        return SymBool(z3.And(self.e, _b(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.e, _b(o)))

    __ror__ = __or__

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    def __eq__(self, o):
        return SymBool(self.e == _b(o))

    def __ne__(self, o):
        return SymBool(self.e != _b(o))

    def __hash__(self):
        return hash(bool(self))


def _b(x):
    return x.e if isinstance(x, SymBool) else z3.BoolVal(bool(x))


class SymReal(float):
    """symbolic finite real; its C payload is a unique tag, so that code which only moves doubles keeps track of it"""

    def __new__(cls, e):
        ST.ntag += 1
        tag = -7.25e-290 * (1.0 + ST.ntag * 2.0 ** -30)
        ST.tags[tag] = e
        o = float.__new__(cls, tag)
        o.e = e
        return o

    def _bin(self, o, f, rev=False):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        if not _isnum(o):
            return NotImplemented
        a, b = self.e, _lift(o)
        if rev:
            a, b = b, a
        return SymReal(f(a, b))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: a + b)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, True)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __truediv__(self, o): return self._bin(o, _div)
    def __rtruediv__(self, o): return self._bin(o, _div, True)
    def __neg__(self): return SymReal(-self.e)
    def __pos__(self): return self
    def __abs__(self): return SymReal(z3.If(self.e < 0, -self.e, self.e))

    def __pow__(self, n, mod=None):
        if isinstance(n, (int, float)) and not isinstance(n, SymReal) and n == int(n) and n >= 0:
            r = z3.RealVal(1)
            for _ in range(int(n)):
                r = r * self.e
            return SymReal(r)
        raise Unsupported("symbolic power")

    def _cmp(self, o, f):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        if not _isnum(o):
            return NotImplemented
        if isinstance(o, (float, _np.floating)) and not isinstance(o, SymReal):
            v = builtins.float(o)
            if v != v:
                return False if f(1, 2) != f(2, 1) or f(1, 1) else True
            if v in (builtins.float("inf"), -builtins.float("inf")):
                return bool(f(0.0, v))
        return SymBool(f(self.e, _lift(o)))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __bool__(self):
        return ST.branch(self.e != 0)

    def __hash__(self):
        return float.__hash__(self)

    def __float__(self):
        return self

    def is_integer(self):
        raise Unsupported("is_integer of a symbolic real")

    def __int__(self):
        raise Unsupported("int() of a symbolic real")

    __round__ = __trunc__ = __floor__ = __ceil__ = __index__ = __int__

    def sqrt(self):
        if ST.q(self.e < 0) != z3.unsat:
            raise Unsupported("square root of a possibly negative number")
        ST.fresh += 1
        r = z3.Real("sqrt!%d" % ST.fresh)
        ST.add(z3.And(r >= 0, r * r == self.e))
        return SymReal(r)

    def __repr__(self): return token(self, "r")
    __str__ = __repr__

    def __format__(self, spec):
        return token(self, spec or "r")

    def __reduce__(self):
        raise Unsupported("pickling a symbolic real")

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self


def _div(a, b):
    if ST.q(b == 0) != z3.unsat:
        raise Unsupported("division by a possibly zero number")
    return a / b


class SymInt:
    def __init__(self, e):
        self.e = e

    def _bin(self, o, f, rev=False):
        if isinstance(o, (bool, int, _np.integer)) or isinstance(o, SymInt):
            b = o.e if isinstance(o, SymInt) else z3.IntVal(builtins.int(o))
            return SymInt(f(b, self.e) if rev else f(self.e, b))
        if isinstance(o, float):
            b = _lift(o)
            a = z3.ToReal(self.e)
            return SymReal(f(b, a) if rev else f(a, b))
        return NotImplemented

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: a + b)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, True)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __neg__(self): return SymInt(-self.e)
    def __pos__(self): return self
    def __abs__(self): return SymInt(z3.If(self.e < 0, -self.e, self.e))

    def __mod__(self, o):  # Python and z3 agree for a positive divisor
        if isinstance(o, (int, _np.integer)) and o > 0:
            return SymInt(self.e % int(o))
        raise Unsupported("modulo")

    def __floordiv__(self, o):
        if isinstance(o, (int, _np.integer)) and o > 0:
            return SymInt(self.e / int(o))
        raise Unsupported("floor division")

    def __truediv__(self, o): return SymReal(z3.ToReal(self.e)) / o

    def _cmp(self, o, f):
        if isinstance(o, SymInt):
            return SymBool(f(self.e, o.e))
        if isinstance(o, (bool, int, _np.integer)):
            return SymBool(f(self.e, z3.IntVal(builtins.int(o))))
        if isinstance(o, (float, _np.floating)):
            return SymReal(z3.ToReal(self.e))._cmp(o, f)
        return NotImplemented

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __bool__(self): return ST.branch(self.e != 0)
    def __index__(self): return ST.concretise(self.e)
    __int__ = __index__
    def __float__(self): return SymReal(z3.ToReal(self.e))
    def __hash__(self): return hash(ST.concretise(self.e))
    def __repr__(self): return token(self, "d")
    __str__ = __repr__
    def __format__(self, spec): return token(self, spec or "d")
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self


class SymStr:
    """symbolic text (z3 sequence theory)"""

    def __init__(self, e):
        self.e = e

    @staticmethod
    def _l(o):
        if isinstance(o, SymStr):
            return o.e
        if isinstance(o, str):
            return z3.StringVal(o)
        raise Unsupported("text with %r" % type(o))

    def startswith(self, p, *a):
        if a:
            raise Unsupported("startswith with range")
        ps = p if isinstance(p, tuple) else (p,)
        return SymBool(z3.Or([z3.PrefixOf(self._l(x), self.e) for x in ps]))

    def endswith(self, p, *a):
        if a:
            raise Unsupported("endswith with range")
        ps = p if isinstance(p, tuple) else (p,)
        return SymBool(z3.Or([z3.SuffixOf(self._l(x), self.e) for x in ps]))

    def __len__(self):
        return ST.concretise(z3.Length(self.e))

    def __contains__(self, o):
        return ST.branch(z3.Contains(self.e, self._l(o)))

    def __getitem__(self, i):
        n = len(self)
        if isinstance(i, slice):
            a, b, s = i.indices(n)
            if s != 1:
                raise Unsupported("slice step")
            return SymStr(z3.SubString(self.e, a, max(0, b - a)))
        if i < 0:
            i += n
        if not 0 <= i < n:
            raise IndexError("string index out of range")
        return SymStr(z3.SubString(self.e, i, 1))

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[: len(self) - len(p)] if len(p) and self.endswith(p) else self

    def __iter__(self):
        return iter([self[i] for i in range(len(self))])

    def find(self, o):
        return SymInt(z3.IndexOf(self.e, self._l(o), 0))

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported("split on whitespace")
        out, rest = [], self
        while maxsplit != 0 and ST.branch(z3.Contains(rest.e, self._l(sep))):
            k = ST.concretise(z3.IndexOf(rest.e, self._l(sep), 0))
            out.append(rest[:k])
            rest = rest[k + len(sep):]
            maxsplit -= 1
        return out + [rest]

    def replace(self, a, b, n=-1):
        if n != -1 or len(a) != 1:
            raise Unsupported("replace")
        r = SymStr(z3.StringVal(""))
        for ch in self:
            r = r + (b if ch == a else ch)
        return r

    def partition(self, sep):
        p = self.split(sep, 1)
        return (p[0], sep, p[1]) if len(p) == 2 else (self, "", "")

    def __add__(self, o): return SymStr(z3.Concat(self.e, self._l(o)))
    def __radd__(self, o): return SymStr(z3.Concat(self._l(o), self.e))
    def __eq__(self, o): return SymBool(self.e == self._l(o)) if isinstance(o, (str, SymStr)) else False
    def __ne__(self, o): return SymBool(self.e != self._l(o)) if isinstance(o, (str, SymStr)) else True
    def __hash__(self): raise Unsupported("hash of a symbolic text")
    def __str__(self): return token(self, "s")
    __repr__ = __str__
    def __format__(self, spec): return token(self, "s")
    def __bool__(self): return ST.branch(z3.Length(self.e) > 0)


def token(x, spec):
    ST.tok.append((x, spec))
    return "\u27e8%d\u27e9" % (len(ST.tok) - 1)


# -- public interface for harnesses ----------------------------------------------------------------
def _plain(x):
    """a concrete number that stands for itself"""
    return type(x) in (builtins.float, builtins.int, _np.float64, _np.int64) and builtins.float(x) not in ST.tags


class API:
    Unsupported = Unsupported

    @property
    def symbolic(self):
        return ST.mode == "sym"

    @property
    def thorough(self):
        return ST.tier == "thorough"

    def _var(self, name, mk):
        if name in ST.vars:
            raise Exception("duplicate input " + name)
        v = ST.vars[name] = mk(name)
        return v

    def real(self, name, lo=-1000, hi=1000):
        if ST.mode == "replay":
            return builtins.float(Fraction(str(ST.values.get(name, "0"))))
        v = self._var(name, z3.Real)
        ST.add(z3.And(v >= lo, v <= hi))
        return SymReal(v)

    def integer(self, name, lo=None, hi=None):
        if ST.mode == "replay":
            return builtins.int(ST.values.get(name, lo or 0))
        v = self._var(name, z3.Int)
        if lo is not None:
            ST.add(v >= lo)
        if hi is not None:
            ST.add(v <= hi)
        return SymInt(v)

    def text(self, name, maxlen):
        if ST.mode == "replay":
            v = ST.values.get(name, ["s", ""])[1]
            return v.encode().decode("unicode_escape") if "\\u" in v else v
        v = self._var(name, z3.String)
        ST.add(z3.Length(v) <= maxlen)
        R = z3.Range(" ", "~")
        ST.add(z3.InRe(v, z3.Star(R)))
        return SymStr(v)

    def choice(self, name, n):
        if ST.mode == "replay":
            return builtins.int(ST.values.get(name, 0))
        v = self._var(name, z3.Int)
        ST.add(z3.And(v >= 0, v < n))
        for k in range(n - 1):
            if ST.branch(v == k):
                return k
        ST.add(v == n - 1)
        return n - 1

    def assume(self, c):
        if ST.mode == "replay":
            if not c:
                raise Infeasible()
            return
        e = _b(c)
        ST.add(e)
        if ST.q() != z3.sat:
            raise Infeasible()

    def reach(self, label):
        ST.reached.add(label)

    def check(self, c, label, detail=""):
        if ST.mode == "replay":
            if not c:
                raise Failed(label, str(detail))
            return
        ST.stats["asserts"] += 1
        e = _b(c)
        if z3.is_true(z3.simplify(e)):
            ST.stats["asserts_ok"] += 1
            return
        r = ST.q(z3.Not(e))
        if r == z3.unsat:
            ST.stats["asserts_ok"] += 1
            return
        if r == z3.unknown:
            ST.stats["unknowns"] += 1
            return
        raise Violation("assert", label, ST.model(z3.Not(e)), str(detail))

    def same(self, a, b, label):
        """exactly the same number (also NaN, infinities)"""
        if ST.mode == "replay":
            fa, fb = builtins.float(a), builtins.float(b)
            return self.check(fa == fb or (fa != fa and fb != fb), label, f"{a!r} vs {b!r}")
        if _plain(a) and _plain(b) and builtins.float(a) == builtins.float(b):
            ST.stats["asserts"] += 1
            ST.stats["asserts_ok"] += 1
            return
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (float, _np.floating)) and not isinstance(x, SymReal):
                f = builtins.float(x)
                if f != f or abs(f) == builtins.float("inf"):
                    if isinstance(y, (SymReal, SymInt)) or (_isnum(y) and builtins.float(y) in ST.tags):
                        return self.check(False, label, "special value vs a finite number")
                    g = builtins.float(y)
                    return self.check(g == f or (f != f and g != g), label, f"{a!r} vs {b!r}")
        return self.check(SymBool(_lift(a) == _lift(b)), label)

    def close(self, a, b, tol, label, scale=1.0):
        """|a-b| <= tol*scale"""
        if ST.mode == "replay":
            return self.check(abs(builtins.float(a) - builtins.float(b)) <= tol * scale, label, f"{a!r} vs {b!r}")
        if _plain(a) and _plain(b):
            ok = abs(builtins.float(a) - builtins.float(b)) <= tol * scale
            if ok:
                ST.stats["asserts"] += 1
                ST.stats["asserts_ok"] += 1
                return
        d = _lift(a) - _lift(b)
        t = _lift(builtins.float(tol * scale))
        return self.check(SymBool(z3.And(d <= t, -d <= t)), label)

    def sameint(self, a, b, label):
        if ST.mode == "replay":
            return self.check(a == b, label, f"{a!r} vs {b!r}")
        return self.check(a == b, label, f"{a!r} vs {b!r}" if not isinstance(a, SymInt) and not isinstance(b, SymInt) else "")

    # conditions over possibly symbolic values, without forking
    def all(self, cs):
        cs = list(cs)
        if ST.mode == "replay":
            return builtins.all(cs)
        return SymBool(z3.And([_b(c) for c in cs])) if cs else True

    def any(self, cs):
        cs = list(cs)
        if ST.mode == "replay":
            return builtins.any(cs)
        return SymBool(z3.Or([_b(c) for c in cs])) if cs else False

    def ite(self, c, a, b):
        if ST.mode == "replay" or isinstance(c, (builtins.bool, _np.bool_)):
            return a if c else b
        return SymReal(z3.If(_b(c), _lift(a), _lift(b)))

    def lift(self, x):
        """the proxy behind a double that passed through C code"""
        if ST.mode == "replay" or isinstance(x, (SymReal, SymInt)):
            return x
        f = builtins.float(x)
        return SymReal(ST.tags[f]) if f in ST.tags else f

    def parse_float(self, s):
        s = s.strip()
        if ST.mode == "replay":
            return builtins.float(s.lower().replace("d", "e"))
        if s.startswith("\u27e8") and s.endswith("\u27e9"):
            x, spec = ST.tok[builtins.int(s[1:-1])]
            if spec == "r":
                return x
            import re
            m = re.fullmatch(r"[ +-]?\d*\.(\d+)([eEgGf])", spec)
            if isinstance(x, SymInt) and spec == "d":
                return x
            if m and m.group(2) in "eE" and int(m.group(1)) >= 16 or m and m.group(2) in "gG" and int(m.group(1)) >= 17:
                return x
            if m:  # fewer digits: any number within the rounding error
                ST.fresh += 1
                y = z3.Real("rounded!%d" % ST.fresh)
                p = int(m.group(1))
                d = y - _lift(x)
                if m.group(2) == "f":
                    t = z3.Q(1, 10 ** p)
                else:
                    ax = z3.If(_lift(x) < 0, -_lift(x), _lift(x))
                    t = z3.Q(1, 2 * 10 ** (p - (m.group(2) in "gG"))) * ax
                ST.add(z3.And(d <= t, -d <= t))
                return SymReal(y)
            raise Unsupported("format " + spec)
        return builtins.float(s.lower().replace("d", "e"))

    def parse_int(self, s):
        s = s.strip()
        if ST.mode == "sym" and s.startswith("\u27e8") and s.endswith("\u27e9"):
            return ST.tok[builtins.int(s[1:-1])][0]
        return builtins.int(s)

    def contains(self, a, b):
        if ST.mode == "replay":
            return b in a
        return SymBool(z3.Contains(a.e, z3.StringVal(b)))

    def length(self, a):
        if ST.mode == "replay":
            return len(a)
        return SymInt(z3.Length(a.e))

    def parse_text(self, s):
        """text that may contain formatted symbolic strings"""
        if ST.mode == "replay":
            return s
        import re
        r = z3.StringVal("")
        for part in re.split("(\u27e8\\d+\u27e9)", s):
            if part.startswith("\u27e8"):
                x = ST.tok[builtins.int(part[1:-1])][0]
                if not isinstance(x, SymStr):
                    raise Unsupported("number inside text")
                r = z3.Concat(r, x.e)
            elif part:
                r = z3.Concat(r, z3.StringVal(part))
        return SymStr(r)

    def array(self, nested, dtype=float):
        if ST.mode == "replay":
            return _np.array(nested, dtype=dtype)
        return mkarray(nested, dtype)

    def module(self, name):
        """a module of /repo, its numpy and number types replaced by symbolic-aware ones (symbolic mode only)"""
        m = importlib.import_module(name)
        if "pydantic" in sys.modules:
            hook_pydantic(sys.modules["pydantic"])
        if ST.mode == "sym":
            patch(m)
        else:
            unpatch(m)
        return m


S = API()


# -- numpy ------------------------------------------------------------------------------------------
class SymArray(_np.ndarray):
    """object array that claims the dtype the code asked for"""

    def __array_finalize__(self, obj):
        self._claim = getattr(obj, "_claim", _np.dtype(float))

    @property
    def dtype(self):
        return self._claim

    def astype(self, dt, *a, **k):
        dt = _np.dtype(dt)
        if dt.kind == "f":
            return self._mk([float_shim(x) for x in self.flat], dt)
        if dt.kind == "i":
            return self._mk([_toint(x) for x in self.flat], dt)
        if dt.kind == "O":
            return _np.array(self.tolist(), dtype=object).reshape(self.shape)
        raise Unsupported("astype %s" % dt)

    def _mk(self, flat, dt):
        o = _np.empty(len(flat), dtype=object)
        for i, x in enumerate(flat):
            o[i] = x
        o = o.reshape(self.shape).view(SymArray)
        o._claim = _np.dtype(dt)
        return o

    def __deepcopy__(self, memo):
        return self.copy()

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        if method != "__call__" and method != "reduce":
            raise Unsupported("ufunc method " + method)
        name = ufunc.__name__
        ins = [_np.asarray(x).view(_np.ndarray) if isinstance(x, SymArray) else x for x in inputs]
        if method == "call" or name in ELEM:
            f = ELEM[name]
            r = _np.frompyfunc(f, len(ins), 1)(*ins)
        else:
            if method == "reduce":
                r = ufunc.reduce(*ins, **{k: v for k, v in kw.items() if v is not None})
            else:
                if ufunc.__name__ in ("sqrt", "exp", "log", "sin", "cos", "floor", "ceil", "rint"):
                    if name == "sqrt":
                        r = _np.frompyfunc(_sqrt, 1, 1)(*ins)
                    else:
                        raise Unsupported(name)
                else:
                    ins2 = [x.astype(object) if isinstance(x, _np.ndarray) and x.dtype != object else x for x in ins]
                    r = ufunc(*ins2)
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            o[...] = r
            return o
        if isinstance(r, _np.ndarray) and r.dtype == object:
            r = r.view(SymArray)
            r._claim = _np.dtype(bool) if name in BOOLOUT else (_np.dtype(float) if name in ("true_divide", "divide", "sqrt") else _rescl(inputs))
        return r


def _rescl(inputs):
    k = "i"
    for x in inputs:
        d = x.dtype if isinstance(x, _np.ndarray) else _np.dtype(float) if isinstance(x, float) else _np.dtype(int)
        if d.kind in "fO":
            k = "f"
    return _np.dtype(float if k == "f" else int)


BOOLOUT = {"equal", "not_equal", "less", "less_equal", "greater", "greater_equal", "isnan", "isinf", "isfinite", "logical_not", "logical_and", "logical_or"}


def _sqrt(x):
    return x.sqrt() if isinstance(x, SymReal) else _np.sqrt(x)


def _isnan(x):
    return False if isinstance(x, (SymReal, SymInt)) else bool(builtins.float(x) != builtins.float(x))


def _isinf(x):
    return False if isinstance(x, (SymReal, SymInt)) else abs(builtins.float(x)) == builtins.float("inf")


def _wrapcmp(f):
    return lambda a, b: f(a, b)


import operator as _op  # noqa: E402

ELEM = {
    "isnan": _isnan, "isinf": _isinf, "isfinite": lambda x: not _isnan(x) and not _isinf(x),
    "equal": lambda a, b: a == b, "not_equal": lambda a, b: a != b, "less": lambda a, b: a < b, "less_equal": lambda a, b: a <= b,
    "greater": lambda a, b: a > b, "greater_equal": lambda a, b: a >= b,
    "absolute": abs, "fabs": abs, "add": _op.add, "subtract": _op.sub, "multiply": _op.mul, "true_divide": _op.truediv, "divide": _op.truediv,
    "negative": _op.neg, "sqrt": _sqrt, "square": lambda x: x * x, "power": lambda a, b: a ** b,
    "maximum": lambda a, b: a if a >= b else b, "minimum": lambda a, b: a if a <= b else b,
    "logical_not": lambda a: not a, "remainder": lambda a, b: a % b,
}
for _k in ("isnan", "isinf"):
    pass


def _flatten(x, out):
    if isinstance(x, (list, tuple)):
        for y in x:
            _flatten(y, out)
    elif isinstance(x, _np.ndarray):
        for y in x.flat:
            out.append(y)
    else:
        out.append(x)
    return out


def hassym(x):
    if isinstance(x, SymArray):
        return True
    return any(isinstance(y, (SymReal, SymInt)) or (type(y) is builtins.float and y in ST.tags) for y in _flatten(x, []))


def lift_deep(x):
    """replace tagged doubles in lists and dicts by their proxies"""
    if isinstance(x, dict):
        return {k: lift_deep(v) for k, v in x.items()}
    if isinstance(x, list):
        return [lift_deep(v) for v in x]
    if type(x) is builtins.float and x in ST.tags:
        return SymReal(ST.tags[x])
    return x


def mkarray(x, dtype=None):
    fl = _flatten(x, [])
    if dtype is None:
        if any(isinstance(y, (str, bytes)) for y in fl):
            return _np.array(["?"], dtype="<U1")
        if all(isinstance(y, (bool, _np.bool_)) for y in fl) and fl:
            dtype = bool
        elif all(isinstance(y, (int, SymInt, _np.integer)) for y in fl) and fl:
            dtype = int
        else:
            dtype = float
    dt = _np.dtype(dtype)
    o = _np.empty(_np.shape(x) if not isinstance(x, SymArray) else x.shape, dtype=object)
    if o.size != len(fl):
        raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
    conv = float_shim if dt.kind == "f" else (_toint if dt.kind == "i" else (lambda y: y))
    for i, y in zip(_np.ndindex(o.shape), fl):
        o[i] = conv(y)
    o = o.view(SymArray)
    o._claim = dt
    return o


def _toint(x):
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymReal):
        raise Unsupported("integer conversion of a symbolic real")
    return builtins.int(x)


class _FloatMeta(type(float)):
    def __instancecheck__(cls, x):
        return isinstance(x, float)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float)


def float_shim(x=0.0):
    if isinstance(x, SymReal):
        return x
    if type(x) is builtins.float and x in ST.tags:
        return SymReal(ST.tags[x])
    if isinstance(x, SymInt):
        return SymReal(z3.ToReal(x.e))
    if isinstance(x, str) and x.startswith("\u27e8"):
        return S.parse_float(x)
    return builtins.float(x)


class NP:
    """numpy as seen by the code under test"""

    def __getattr__(self, n):
        return getattr(_np, n)

    float64 = _np.float64

    @staticmethod
    def _alloc(shape, val, dtype):
        dt = _np.dtype(dtype if dtype is not None else float)
        if dt.kind not in "fi":
            return _np.full(shape, val, dtype=dt)
        if not isinstance(shape, (tuple, list)):
            shape = (shape,)
        o = _np.empty(tuple(_op.index(k) for k in shape), dtype=object)
        o[...] = val
        o = o.view(SymArray)
        o._claim = dt
        return o

    def zeros(self, shape, dtype=None, **k): return self._alloc(shape, 0.0 if dtype is None or _np.dtype(dtype).kind == "f" else 0, dtype)
    def ones(self, shape, dtype=None, **k): return self._alloc(shape, 1.0 if dtype is None or _np.dtype(dtype).kind == "f" else 1, dtype)
    def empty(self, shape, dtype=None, **k): return self._alloc(shape, Uninit(), dtype)
    def full(self, shape, v, dtype=None, **k): return self._alloc(shape, v, dtype)
    def zeros_like(self, a, dtype=None, **k): return self.zeros(_np.shape(a), dtype or _np.asarray(a).dtype if not isinstance(a, SymArray) else dtype or a.dtype)
    def empty_like(self, a, dtype=None, **k): return self.empty(_np.shape(a), dtype or (a.dtype if isinstance(a, SymArray) else _np.asarray(a).dtype))

    def asarray(self, x, dtype=None, **k):
        if isinstance(x, SymArray) and (dtype is None or _np.dtype(dtype) == x.dtype):
            return x
        return self.array(x, dtype)

    def array(self, x, dtype=None, copy=True, **k):
        if isinstance(x, SymArray):
            return x.copy() if dtype is None or _np.dtype(dtype) == x.dtype else x.astype(dtype)
        if hassym(x):
            return mkarray(x, dtype)
        return _np.array(x, dtype=dtype)

    def asfortranarray(self, x, dtype=None): return self.asarray(x, dtype)
    def ascontiguousarray(self, x, dtype=None): return self.asarray(x, dtype)
    def copy(self, x): return self.array(x)
    def atleast_1d(self, x): return x if isinstance(x, SymArray) and x.ndim else (mkarray([x]) if hassym(x) and not isinstance(x, _np.ndarray) and not isinstance(x, (list, tuple)) else _np.atleast_1d(x))

    def isnan(self, x): return _isnan(x) if isinstance(x, (SymReal, SymInt)) else _np.isnan(x)
    def isinf(self, x): return _isinf(x) if isinstance(x, (SymReal, SymInt)) else _np.isinf(x)
    def isfinite(self, x): return True if isinstance(x, (SymReal, SymInt)) else _np.isfinite(x)
    def sqrt(self, x): return x.sqrt() if isinstance(x, SymReal) else _np.sqrt(x)
    def abs(self, x): return abs(x) if isinstance(x, (SymReal, SymInt)) else _np.abs(x)
    absolute = abs

    def nonzero(self, a):
        if not isinstance(a, SymArray):
            return _np.nonzero(a)
        idx = [i for i in _np.ndindex(a.shape) if bool(a[i])]
        return tuple(_np.array([i[d] for i in idx], dtype=_np.int64) for d in range(a.ndim))

    def argwhere(self, a):
        return _np.array(list(zip(*self.nonzero(a)))).reshape(-1, _np.ndim(a))

    def ndenumerate(self, a):
        return ((i, a[i]) for i in _np.ndindex(_np.shape(a)))

    def where(self, c, *r):
        if not r:
            return self.nonzero(c)
        if not (isinstance(c, SymArray) or hassym(list(r)) or isinstance(c, SymBool)):
            return _np.where(c, *r)
        c, x, y = _np.broadcast_arrays(*[_np.asarray(q, dtype=object) for q in (c, r[0], r[1])])
        o = _np.empty(c.shape, dtype=object)
        for i in _np.ndindex(c.shape):
            o[i] = x[i] if bool(c[i]) else y[i]
        return o.view(SymArray)

    def count_nonzero(self, a): return len(self.nonzero(a)[0])
    def any(self, a, **k): return builtins.any(bool(x) for x in _np.asarray(a).flat) if isinstance(a, SymArray) and not k else _np.any(a, **k)
    def all(self, a, **k): return builtins.all(bool(x) for x in _np.asarray(a).flat) if isinstance(a, SymArray) and not k else _np.all(a, **k)

    def interp(self, x, xp, fp, left=None, right=None):
        if not (isinstance(fp, SymArray) or hassym(list(fp))):
            return _np.interp(x, xp, fp, left, right)
        sc = _np.ndim(x) == 0
        xs = [x] if sc else list(x)
        xp = [builtins.float(v) for v in xp]
        fp = list(fp)
        out = []
        for v in xs:
            v = builtins.float(v)
            if v <= xp[0]:
                out.append(fp[0] if left is None or v == xp[0] else left)
            elif v >= xp[-1]:
                out.append(fp[-1] if right is None or v == xp[-1] else right)
            else:
                j = max(i for i in range(len(xp)) if xp[i] <= v)
                if xp[j] == v:
                    out.append(fp[j])
                else:
                    out.append((fp[j + 1] - fp[j]) * ((v - xp[j]) / (xp[j + 1] - xp[j])) + fp[j])
        return out[0] if sc else mkarray(out, float)

    def pad(self, a, pw, mode="constant", constant_values=0.0, **k):
        if not isinstance(a, SymArray) and not hassym(a):
            return _np.pad(a, pw, mode, constant_values=constant_values, **k)
        if mode != "constant" or k:
            raise Unsupported("pad mode")
        src = _np.asarray(self.asarray(a)).view(_np.ndarray)
        r = _np.pad(src, pw, mode="constant", constant_values=constant_values).view(SymArray)
        r._claim = self.asarray(a).dtype
        return r

    def concatenate(self, seq, axis=0):
        seq = [q if isinstance(q, _np.ndarray) else self.array(q) for q in seq]
        if not builtins.any(isinstance(q, SymArray) for q in seq):
            return _np.concatenate(seq, axis)
        r = _np.concatenate([_np.asarray(q).view(_np.ndarray).astype(object) for q in seq], axis).view(SymArray)
        r._claim = seq[0].dtype
        return r

    def array_equal(self, a, b, **k):
        a, b = self.asarray(a), self.asarray(b)
        return a.shape == b.shape and builtins.all(bool(x == y) for x, y in zip(a.flat, b.flat))


class Uninit(float):
    """content of np.empty: using it is an error"""

    def _bad(self, *a):
        raise Violation("uninit", "use of uninitialised array content", ST.model())

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __neg__ = __bool__ = _bad
    __lt__ = __le__ = __gt__ = __ge__ = _bad


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.int, SymInt))

    def __subclasscheck__(cls, c):
        return issubclass(c, (builtins.int, SymInt))


class IntShim(metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymReal):
            raise Unsupported("int() of a symbolic real")
        return builtins.int(x, *a)


class _FloatShimMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float)


class FloatShim(metaclass=_FloatShimMeta):
    def __new__(cls, x=0.0):
        return float_shim(x)


class _StrMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.str, SymStr))

    def __subclasscheck__(cls, c):
        return issubclass(c, (builtins.str, SymStr))


class StrShim(metaclass=_StrMeta):
    def __new__(cls, x="", *a):
        return x if isinstance(x, SymStr) else builtins.str(x, *a)


def _len(x):
    return len(x)


NPX = NP()


def hook_pydantic(p):
    """pydantic's compiled core hands out plain doubles: put the proxies back"""
    if getattr(p, "_symx", False):
        return
    p._symx = True
    orig = p.BaseModel.model_dump

    def model_dump(self, **k):
        r = orig(self, **k)
        return lift_deep(r) if ST.mode == "sym" else r

    p.BaseModel.model_dump = model_dump
_saved = {}


def patch(m, names=("np", "int", "float")):
    if m.__name__ in _saved:
        d = _saved[m.__name__]
    else:
        d = _saved[m.__name__] = {n: m.__dict__.get(n, None) for n in ("np", "numpy", "int", "float")}
    for n in ("np", "numpy"):
        if d[n] is not None:
            m.__dict__[n] = NPX
    m.__dict__["int"] = IntShim
    m.__dict__["float"] = FloatShim


def unpatch(m):
    d = _saved.get(m.__name__)
    if not d:
        return
    for n, v in d.items():
        if v is None:
            m.__dict__.pop(n, None)
        else:
            m.__dict__[n] = v


def bare_package(stub_core=False):
    """`import vmecpp` without running __init__.py (the C++ extension cannot be built here)"""
    if "vmecpp" in sys.modules:
        return
    sys.dont_write_bytecode = True
    p = types.ModuleType("vmecpp")
    p.__path__ = [REPO + "/src/vmecpp"]
    sys.modules["vmecpp"] = p
