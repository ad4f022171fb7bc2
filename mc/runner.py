"""Runs the exploration of one property over all its units, in parallel, and reports.

A check module checks/<ID>.py (ID in lower case) defines
    units(tier)      -> list of JSON-able descriptors; their union is the bounded space of the property
    run(unit, ctx)   -> explores one unit completely, reporting to ctx
    RULE, BOUNDS, ASSUMPTIONS
The space is a fixed, finite list: VERIF_SEED only changes the order in which units are visited.
"""
import importlib
import importlib.abc
import importlib.machinery
import json
import multiprocessing as mp
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SWP_REPO", "/repo")
EVID = os.environ.get("SWP_EVIDENCE", os.path.join(HERE, "evidence"))


class _NoCacheLoader(importlib.machinery.SourceFileLoader):
    """Always compiles the source found in the working tree (no stale byte code)."""

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return compile(self.get_data(path), path, "exec", dont_inherit=True)


class _RepoFinder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname != "swprocess" and not fullname.startswith("swprocess."):
            return None
        base = os.path.join(REPO, *fullname.split("."))
        if os.path.isdir(base):
            fn = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(
                fullname, fn, loader=_NoCacheLoader(fullname, fn), submodule_search_locations=[base])
        fn = base + ".py"
        if os.path.exists(fn):
            return importlib.util.spec_from_file_location(fullname, fn, loader=_NoCacheLoader(fullname, fn))
        return None


def _prepare():
    import importlib.util  # noqa: F401
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, _RepoFinder())
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    # obspy looks its reader plugins up in the installed packages' metadata at every read: remember it.
    import importlib.metadata as im
    cache = {}
    meta = im.Distribution.metadata

    def metadata(self):
        k = str(getattr(self, "_path", id(self)))
        if k not in cache:
            cache[k] = meta.fget(self)
        return cache[k]
    im.Distribution.metadata = property(metadata)


class Stop(Exception):
    """Raised to end a unit once enough violations were found."""


class _Timeout(BaseException):
    pass


class Ctx:
    MAXV = 3

    def __init__(self, unit, tmp):
        self.unit = unit
        self.tmp = tmp
        self.states = 0          # distinct states: initial states (inputs) and states / observations reached from them
        self.transitions = 0     # operations executed on the implementation from those states
        self.validated = 0       # complete traces on which implementation and reference model agreed at every step
        self._seen = set()
        self.outcomes = set()    # distinct observable outcomes
        self.samples = []
        self.violations = []
        self.current = None
        self.capped = None
        self.known = {}          # listed findings met: signature -> number of times

    def newtmp(self):
        return tempfile.mkdtemp(dir=self.tmp)

    def state(self, o):
        k = hash(o)
        if k not in self._seen:
            self._seen.add(k)
            self.states += 1

    def outcome(self, o):
        o = o if isinstance(o, str) else repr(o)
        self.state(("outcome", o))
        if len(self.outcomes) < 20000:
            self.outcomes.add(o)

    def sample(self, s):
        if len(self.samples) < 1:
            self.samples.append(s)

    def fail(self, msg, trace=None, sig=None):
        if sig and sig in _KNOWN:               # a listed finding: noted, and the exploration goes on
            self.known[sig] = self.known.get(sig, 0) + 1
            return
        self.violations.append(dict(message=str(msg)[:4000], trace=trace if trace is not None else self.current,
                                    signature=sig or ""))
        if len(self.violations) >= self.MAXV:
            raise Stop()

    # -- one-step (input) exploration helper: f raises AssertionError on violation
    def case(self, desc, f, *a, **k):
        self.current = desc
        self.transitions += 1
        self.state(("input", repr(desc)))
        try:
            r = f(*a, **k)
        except Stop:
            raise
        except AssertionError as e:
            self.fail(f"{e}", trace=desc, sig=getattr(e, "sig", ""))
            return None
        except Exception as e:
            tb = traceback.format_exc(limit=-6)
            self.fail(f"unexpected {type(e).__name__}: {e}\n{tb}", trace=desc)
            return None
        self.validated += 1
        if r is not None:
            self.outcome(r)
        self.sample(desc)
        return r


_CHECK = None
_TMP = None
_KNOWN = set()


def _alarm(*_):
    raise _Timeout()


def _run_unit(args):
    unit, limit = args
    tmp = tempfile.mkdtemp(dir=_TMP)
    ctx = Ctx(unit, tmp)
    cwd = os.getcwd()
    os.chdir(tmp)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    t0 = time.time()
    try:
        warnings.simplefilter("ignore")
        from mc import util
        util.set_gain(unit.get("gain", 1.) if isinstance(unit, dict) else 1.)
        _CHECK.run(unit, ctx)
    except Stop:
        pass
    except _Timeout:
        ctx.violations.append(dict(message=f"no answer within {limit} s (the code under test does not terminate?)",
                                   trace=ctx.current, signature="timeout"))
    except AssertionError as e:
        ctx.violations.append(dict(message=str(e), trace=ctx.current, signature=getattr(e, "sig", "")))
    except Exception as e:
        ctx.violations.append(dict(message=f"unexpected {type(e).__name__}: {e}\n{traceback.format_exc(limit=-8)}",
                                   trace=ctx.current, signature=""))
    finally:
        signal.alarm(0)
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)
        try:
            import matplotlib.pyplot as plt
            plt.close("all")
        except Exception:
            pass
    return dict(unit=unit, states=ctx.states, transitions=ctx.transitions, validated=ctx.validated,
                outcomes=list(ctx.outcomes), samples=ctx.samples, violations=ctx.violations, capped=ctx.capped, known=ctx.known,
                wall=time.time() - t0)


def _jsonable(o):
    import numpy as np
    if isinstance(o, dict):
        return {str(k): _jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set, frozenset)):
        return [_jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return _jsonable(o.tolist())
    if isinstance(o, np.generic):
        return _jsonable(o.item())
    if isinstance(o, complex):
        return repr(o)
    if isinstance(o, float):
        return o if o == o and abs(o) != float("inf") else repr(o)
    if isinstance(o, (str, int, bool)) or o is None:
        return o
    return repr(o)


def known_findings(pid):
    fn = os.path.join(HERE, "known_findings.jsonl")
    out = []
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if not line.startswith("{"):
                continue
            d = json.loads(line)
            if d.get("property") == pid and d.get("status") == "known":
                out.append(d)
    return out


def _load(pid):
    global _CHECK, _KNOWN
    _KNOWN = {k["signature"] for k in known_findings(pid)}
    _CHECK = importlib.import_module(f"checks.{pid.lower()}")
    import swprocess
    assert os.path.realpath(swprocess.__file__).startswith(os.path.realpath(REPO)), swprocess.__file__


def main(pid, tier):
    global _TMP
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(EVID, exist_ok=True)
    rdir = os.path.join(EVID, "replay")
    _TMP = tempfile.mkdtemp(prefix=f"swp_{pid}_")
    results, violations, units = [], [], []
    try:
        try:
            _prepare()
            _load(pid)
            units = list(_CHECK.units(tier))
            limit = getattr(_CHECK, "UNIT_TIMEOUT", {"quick": 240, "thorough": 1500})[tier]
            order = list(range(len(units)))
            random.Random(seed).shuffle(order)
            nproc = min(int(os.environ.get("VERIF_JOBS", "8")), max(1, len(units)))
            if nproc == 1:
                results = [_run_unit((units[i], limit)) for i in order]
            else:
                with mp.get_context("fork").Pool(nproc, maxtasksperchild=getattr(_CHECK, "MAXTASKS", None)) as pool:
                    it = pool.imap_unordered(_run_unit, [(units[i], limit) for i in order], chunksize=1)
                    for _ in range(len(units)):
                        r = it.next(timeout=limit + 60)   # a worker that dies never answers
                        results.append(r)
                        violations += [dict(v, unit=r["unit"]) for v in r["violations"]]
                        if len(violations) >= 10:
                            pool.terminate()
                            break
            violations = [dict(v, unit=r["unit"]) for r in results for v in r["violations"]]
        except Exception as e:  # import error, harness error: the property could not be established
            violations.append(dict(message=f"{type(e).__name__}: {e}\n{traceback.format_exc()}", trace=None,
                                   signature="setup", unit=None))
    finally:
        shutil.rmtree(_TMP, ignore_errors=True)

    known = known_findings(pid)
    seen_known = {s for r in results for s in r["known"]}
    fresh = violations

    outcomes = set()
    for r in results:
        outcomes.update(r["outcomes"])
    states = sum(r["states"] for r in results)
    trans = sum(r["transitions"] for r in results)
    valid = sum(r["validated"] for r in results)
    samples = [_jsonable(s) for r in sorted(results, key=lambda r: json.dumps(_jsonable(r["unit"])))
               for s in r["samples"]][:6]
    capped = [r["capped"] for r in results if r["capped"]]
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=states, transitions=trans, traces_validated_against_impl=valid, samples=samples,
                            units=len(results), units_total=len(units), distinct_outcomes=len(outcomes),
                            bounds=getattr(_CHECK, "BOUNDS", {}).get(tier, "") if _CHECK else "",
                            rule=getattr(_CHECK, "RULE", "") if _CHECK else "",
                            exhaustive=bool(results) and len(results) == len(units) and not capped and not fresh,
                            caps=capped),
              assumptions=list(getattr(_CHECK, "ASSUMPTIONS", [])) if _CHECK else [],
              wall_s=round(time.time() - t0, 2), violations=len(fresh))
    with open(os.path.join(EVID, f"{pid}.json"), "w") as f:
        json.dump(_jsonable(ev), f, indent=1)

    for k in known:
        if k["signature"] in seen_known:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    print(f"{pid} [{tier}] units={len(results)}/{len(units)} states={states} transitions={trans} "
          f"validated={valid} outcomes={len(outcomes)} wall={time.time()-t0:.1f}s")
    if fresh:
        os.makedirs(rdir, exist_ok=True)
        for i, v in enumerate(fresh[:5]):
            path = os.path.join(rdir, f"{pid}-{i}.json")
            with open(path, "w") as f:
                json.dump(_jsonable(dict(property=pid, tier=tier, **v)), f, indent=1)
            print(f"VIOLATION property={pid} replay={path}")
            print("   " + v["message"].replace("\n", "\n   ")[:1500])
            print("   trace: " + json.dumps(_jsonable(v["trace"]))[:600])
        return 1
    return 0


def replay(path):
    global _TMP
    d = json.load(open(path))
    _TMP = tempfile.mkdtemp(prefix="swp_replay_")
    try:
        _prepare()
        _load(d["property"])
        r = _run_unit((d["unit"], 600))
    finally:
        shutil.rmtree(_TMP, ignore_errors=True)
    for v in r["violations"]:
        print(f"VIOLATION property={d['property']} replay={path}")
        print("   " + v["message"])
        print("   trace: " + json.dumps(_jsonable(v["trace"])))
    print("reproduced" if r["violations"] else "not reproduced")
    return 1 if r["violations"] else 0


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        code = replay(sys.argv[2])
    else:
        code = main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "quick")
    sys.stdout.flush()
    os._exit(code)
