"""run.py HARNESS.py ENTRY TIER SECONDS: explore one entry, print @@json records"""
import importlib.util, json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine
from engine import ST, Failed, Infeasible, Unsupported, Violation


def emit(**k):
    print("@@" + json.dumps(k), flush=True)


def tracer(frame, event, arg):
    f = frame.f_code.co_filename
    if f.startswith(engine.REPO):
        ST.funcs.add(os.path.relpath(f, engine.REPO + "/src") + ":" + frame.f_code.co_qualname)
    return None


def main():
    path, entry, tier, secs = sys.argv[1:5]
    ST.tier = tier
    engine.bare_package()
    spec = importlib.util.spec_from_file_location("pyh", path)
    h = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(h)
    fn = getattr(h, entry)
    t0 = time.time()
    work = [[]]
    timeout = False
    nviol = 0
    while work:
        if time.time() - t0 > float(secs):
            timeout = True
            break
        prefix = work.pop()
        ST.mode = "sym"
        ST.start(prefix)
        end, rec = "done", None
        sys.setprofile(tracer)
        try:
            fn()
        except Infeasible:
            end = "infeasible"
        except Violation as v:
            end, rec = "violation", dict(kind=v.kind, label=v.label, model=v.model, detail=v.detail)
        except Unsupported as x:
            end = "error"
            sys.setprofile(None)
            emit(type="error", detail="unsupported: " + str(x) + " " + where(x))
            ST.stats["errors"] += 1
        except Exception as x:
            sys.setprofile(None)
            end, rec = "violation", dict(kind="exception", label=type(x).__name__, model=ST.model(), detail=(str(x)[:300] + " " + where(x)))
        finally:
            sys.setprofile(None)
        work += ST.alts
        ST.stats["paths"] += 1
        reached = sorted(ST.reached)
        if rec is not None and nviol < 40:
            rec["model"] = rec["model"] or {}
            ok, out = replay(fn, rec)
            if ok:
                nviol += 1
                ST.stats["violations"] += 1
                emit(type="violation", where=entry, replay_output=out, **{**rec, "model": list(rec["model"].items())})
            else:
                end = "error"
                ST.stats["errors"] += 1
                emit(type="error", detail="counterexample did not replay: %s; %s" % (out, json.dumps(rec)[:700]))
        emit(type="path", end=end, reached=reached, funcs=sorted(ST.funcs) if not work or ST.stats["paths"] == 1 else [])
        if nviol >= 6:
            break
    ST.stats["solver_s"] = round(ST.stats["solver_s"], 3)
    emit(type="path", end="funcs", reached=[], funcs=sorted(ST.funcs))
    emit(type="summary", timeout=timeout, **ST.stats)


def where(x):
    tb = traceback.extract_tb(x.__traceback__)
    return " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb[-4:]))


def replay(fn, rec):
    ST.mode = "replay"
    stats = dict(ST.stats)
    ST.start([], rec["model"])
    try:
        fn()
        return False, "ran without failing"
    except Failed as f:
        return True, f"{f.label}: {f.detail}"
    except Infeasible:
        return False, "assumption not met"
    except Exception as x:
        return True, f"{type(x).__name__}: {x} {where(x)}"
    finally:
        ST.mode = "sym"
        ST.stats.update(stats)


main()
