"""A stand-in for the compiled extension vmecpp.cpp._vmecpp: plain records with the attributes the Python
layer sets and reads.  It computes nothing."""
import enum, sys, types
import engine


def install():
    if "vmecpp.cpp._vmecpp" in sys.modules:
        return sys.modules["vmecpp.cpp._vmecpp"]
    c = types.ModuleType("vmecpp.cpp._vmecpp")

    class OutputMode(enum.IntEnum):
        SILENT = 0
        LEGACY = 1
        PROGRESS = 2
        PROGRESS_NON_TTY = 3

    class FreeBoundaryMethod(enum.Enum):
        NESTOR = 0
        ONLY_COILS = 1
        BIEST = 2

    class IterationStyle(enum.Enum):
        VMEC_8_52 = 0
        PARVMEC = 1

    class MultigridInterpolationScheme(enum.Enum):
        LINEAR = 0
        CUBIC = 1
        CUBIC_RHO = 2

    class Record:
        def __init__(self, *a, **k):
            self._args = a
            self.__dict__.update(k)

    class VmecINDATA(Record):
        RO = ("mpol", "ntor", "raxis_c", "zaxis_s", "raxis_s", "zaxis_c", "rbc", "zbs", "rbs", "zbc")

        def __init__(self):
            object.__setattr__(self, "lasym", False)
            object.__setattr__(self, "_sets", [])

        def __setattr__(self, n, v):
            if n in self.RO:
                raise AttributeError("can't set attribute " + n)
            self._sets.append(n)
            object.__setattr__(self, n, v)

        def _set_mpol_ntor(self, new_mpol, new_ntor):
            z = engine.NPX.zeros if engine.ST.mode == "sym" else engine._np.zeros
            put = lambda n, v: object.__setattr__(self, n, v)
            put("mpol", new_mpol)
            put("ntor", new_ntor)
            for n in ("raxis_c", "zaxis_s"):
                put(n, z(new_ntor + 1))
            for n in ("rbc", "zbs"):
                put(n, z((new_mpol, 2 * new_ntor + 1)))
            for n in ("raxis_s", "zaxis_c"):
                put(n, z(new_ntor + 1) if self.lasym else None)
            for n in ("rbs", "zbc"):
                put(n, z((new_mpol, 2 * new_ntor + 1)) if self.lasym else None)

    c.OutputMode, c.FreeBoundaryMethod, c.IterationStyle = OutputMode, FreeBoundaryMethod, IterationStyle
    c.MultigridInterpolationScheme = MultigridInterpolationScheme
    c.VmecINDATA = VmecINDATA
    for n in ("WOutFileContents", "VmecppWOut", "HotRestartState", "MakegridParameters", "MagneticFieldResponseTable", "MagneticConfiguration",
              "Threed1Volumetrics", "Threed1FirstTable", "Threed1GeometricAndMagneticQuantities", "Threed1AxisGeometry", "Threed1Betas",
              "Threed1ShafranovIntegrals", "Mercier", "JxBOutFileContents", "VmecModel", "OutputQuantities"):
        setattr(c, n, type(n, (Record,), {}))
    c.Record = Record

    def run(*a, **k):
        raise RuntimeError("the compiled core is not available")

    c.run = run
    sys.modules["vmecpp.cpp._vmecpp"] = c
    return c


def package():
    """the real vmecpp package on top of the stand-in"""
    import importlib
    sys.dont_write_bytecode = True
    m = sys.modules.get("vmecpp")
    if m is not None and not hasattr(m, "__file__"):
        for k in [k for k in sys.modules if k == "vmecpp" or k.startswith("vmecpp.")]:
            del sys.modules[k]
    p = engine.REPO + "/src"
    if p not in sys.path:
        sys.path.insert(0, p)
    core = install()
    import types as _t
    if "vmecpp.cpp" not in sys.modules:
        cpp = _t.ModuleType("vmecpp.cpp")
        cpp.__path__ = [p + "/vmecpp/cpp"]
        cpp._vmecpp = core
        sys.modules["vmecpp.cpp"] = cpp
    return importlib.import_module("vmecpp"), core
