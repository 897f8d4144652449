"""Case runner: verdicts, evidence, replay files, known findings.

A *case* is a JSON-serialisable dict.  A property module provides

    ID, TITLE, RULE, ASSUMPTIONS
    cases(tier, seed)      -> list of cases (deterministic)
    run(case, ctx)         -> runs the real code with monitors; they call ctx.*

Verdicts are three-valued: held / violated / inconclusive (the harness itself failed, or no
monitored event was observed).
"""
import hashlib
import json
import multiprocessing as mp
import os
import random
import signal
import threading
import sys
import time
import traceback

import numpy as np
import torch

from . import env, reach

CASE_TIMEOUT = int(os.environ.get("UMON_CASE_TIMEOUT", "240"))


class Violation(Exception):
    def __init__(self, what, detail=None):
        super().__init__(what)
        self.what = what
        self.detail = detail or {}


class CaseTimeout(BaseException):
    pass


def _short(x, n=24):
    a = np.asarray(x)
    flat = a.reshape(-1)
    s = np.array2string(flat[:n], threshold=n, precision=6, separator=",").replace("\n", "")
    return "shape%s %s%s" % (tuple(a.shape), s, "..." if flat.size > n else "")


def digest(*parts):
    h = hashlib.blake2b(digest_size=8)
    for p in parts:
        if isinstance(p, np.ndarray):
            h.update(str(p.dtype).encode() + str(p.shape).encode())
            h.update(np.ascontiguousarray(p).tobytes())
        else:
            h.update(repr(p).encode())
        h.update(b"|")
    return h.hexdigest()


class Ctx:
    """What the monitors of one case observed."""

    def __init__(self, case, tier):
        self.case = case
        self.tier = tier
        self.events = 0          # monitored calls of the code under test
        self.values = 0          # output values compared with the oracle
        self.states = set()      # distinct oracle states/behaviours seen
        self.notes = {}          # named counters
        self.nontrivial = False
        self.findings = []       # (key, text)
        self.sample = None

    # -- recording -----------------------------------------------------------------------
    def event(self, n=1):
        self.events += n

    def note(self, name, n=1):
        self.notes[name] = self.notes.get(name, 0) + int(n)

    def state(self, *parts):
        self.states.add(digest(*parts))

    def mark(self, *parts):
        """This case was non-trivial; parts identify its behaviour."""
        self.nontrivial = True
        self.states.add(digest(*parts))

    # -- verdicts ------------------------------------------------------------------------
    def fail(self, what, **detail):
        raise Violation(what, {k: (v if isinstance(v, (str, int, float, bool, list, dict, type(None))) else _short(v))
                               for k, v in detail.items()})

    def check(self, cond, what, **detail):
        self.values += 1
        if not bool(cond):
            self.fail(what, **detail)

    def finding(self, key, text):
        self.findings.append((key, text))

    def num(self, out, what="output"):
        """The code under test returned a tensor; give it as numpy (violation otherwise)."""
        if not isinstance(out, torch.Tensor):
            self.fail("%s is not a tensor" % what, got=str(type(out)))
        t = out.detach()
        if t.dtype in (torch.bfloat16, torch.float16):
            t = t.to(torch.float32)
        return t.cpu().numpy()

    def eq(self, got, want, what, dtype=None, **detail):
        """got (tensor) equals want (numpy) exactly, shape included."""
        if dtype is not None and isinstance(got, torch.Tensor) and got.dtype != dtype:
            self.fail("%s: number type" % what, got=str(got.dtype), want=str(dtype), **detail)
        g = self.num(got, what) if not isinstance(got, np.ndarray) else got
        w = np.asarray(want)
        if tuple(g.shape) != tuple(w.shape):
            self.fail("%s: shape" % what, got=str(tuple(g.shape)), want=str(tuple(w.shape)), **detail)
        self.values += int(w.size)
        if not np.array_equal(g.astype(np.float64), w.astype(np.float64)):
            bad = np.argwhere(g.astype(np.float64) != w.astype(np.float64))
            i = tuple(int(v) for v in bad[0]) if bad.size else ()
            self.fail("%s: wrong value" % what, at=str(i), got=float(g[i]), want=float(w[i]),
                      mismatches=int(len(bad)), of=int(w.size), **detail)

    def close(self, got, want, tol, what, **detail):
        """|got - want| <= tol elementwise (tol scalar or array); NaN fails."""
        g = (self.num(got, what) if not isinstance(got, np.ndarray) else got).astype(np.float64)
        w = np.asarray(want, dtype=np.float64)
        if tuple(g.shape) != tuple(w.shape):
            self.fail("%s: shape" % what, got=str(tuple(g.shape)), want=str(tuple(w.shape)), **detail)
        self.values += int(w.size)
        err = np.abs(g - w)
        ok = err <= tol
        if not np.all(ok):
            i = tuple(int(v) for v in np.argwhere(~ok)[0])
            self.fail("%s: outside tolerance" % what, at=str(i), got=float(g[i]), want=float(w[i]),
                      err=float(err[i]), tol=float(np.broadcast_to(tol, w.shape)[i]), **detail)
        return err


def seed_all(seed):
    random.seed(seed)
    np.random.seed(seed % (2 ** 32))
    torch.manual_seed(seed)


def case_seed(case, seed):
    return int(digest(json.dumps(case, sort_keys=True, default=str), seed), 16) % (2 ** 31)


def surroundings(mod, seed):
    """In some cases the modules under test are called in evaluation mode, or switched to and fro between calls.

    No law mentions the mode, so no monitored value may depend on it.
    """
    kind = seed % 10
    if kind > 2 or not getattr(mod, "ANY_MODE", True):
        return None
    rs = np.random.RandomState(seed)

    def hook(m, args):
        m.training = bool(kind == 2 and rs.randint(2))
    return torch.nn.modules.module.register_module_forward_pre_hook(hook)


def run_case(mod, case, tier):
    """Returns a plain dict; never raises (except for signals)."""
    ctx = Ctx(case, tier)
    res = {"case": case, "status": "held", "what": None, "detail": {}}
    t0 = time.time()

    def on_alarm(signum, frame):
        raise CaseTimeout()
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(CASE_TIMEOUT)
    hook = None
    try:
        cs = case_seed(case, case.get("seed", 0))
        hook = surroundings(mod, cs)
        seed_all(cs)
        # no law mentions gradient recording either; the modules that ask for gradients opt out
        if cs % 7 == 3 and getattr(mod, "ANY_GRAD", True):
            ctx.note("cases_without_gradient_recording")
            with torch.no_grad():
                mod.run(case, ctx)
        else:
            mod.run(case, ctx)
    except Violation as e:
        res.update(status="violated", what=e.what, detail=e.detail)
    except CaseTimeout:
        res.update(status="violated", what="no result within %d s (normally below a few seconds)" % CASE_TIMEOUT)
    except BaseException as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        text = "".join(traceback.format_exception(e))[-3000:]
        if any(env.repo_frame(f.filename) for f in tb):
            res.update(status="violated", what="valid use raised %s: %s" % (type(e).__name__, str(e)[:300]),
                       detail={"traceback": text})
        elif not isinstance(e, (MemoryError, OSError, ImportError, KeyboardInterrupt, SystemExit)):
            # the monitors are deterministic and never fail on the unchanged tree: what they were given is not what the interface promises
            res.update(status="violated", what="the outcome is outside the interface the monitor expects: %s: %s" % (type(e).__name__, str(e)[:300]),
                       detail={"traceback": text})
        else:
            res.update(status="error", what="harness: %s" % e, detail={"traceback": text})
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        if hook is not None:
            hook.remove()
            ctx.note("cases_in_evaluation_or_changing_mode")
    res.update(lines=reach.take(), events=ctx.events, values=ctx.values, states=sorted(ctx.states)[:20000],
               nontrivial=ctx.nontrivial, notes=ctx.notes, findings=ctx.findings,
               sample=ctx.sample, wall=round(time.time() - t0, 3))
    return res


_MOD = None
_TIER = None


def _worker(case):
    path = os.environ.get("UMON_FEATURES")
    if path:        # development aid: record what the workload shows the library
        from . import features
        features.install()
    r = run_case(_MOD, case, _TIER)
    if path:
        features.dump(path, _MOD.ID)
    return r


def load_known(pid):
    """known_findings.txt -> {key: text} for this property (only 'known:' lines suppress)."""
    out = {}
    path = os.path.join(env.VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                key, _, text = rest.partition(" ")
                out[key[len("key="):]] = text
    return out


def _stop(pool):
    # Pool.terminate can wait for ever on a queue lock that a worker held when it was ended (seen once, after an
    # early stop): do it aside, and end the workers outright when it does not come back
    def stop():
        pool.terminate()
        pool.join()

    procs = list(pool._pool)
    t = threading.Thread(target=stop, daemon=True)
    t.start()
    t.join(15)
    if t.is_alive():
        for p in procs + list(pool._pool):
            try:
                os.kill(p.pid, signal.SIGKILL)
            except OSError:
                pass


def run_property(mod, tier, seed, replay=None):
    global _MOD, _TIER
    _MOD, _TIER = mod, tier
    t0 = time.time()
    pid = mod.ID
    reach.start()
    known = load_known(pid)
    if replay:
        rec = json.load(open(replay))
        cases = [rec["case"]]
        tier = rec.get("tier", tier)
        _TIER = tier
    else:
        cases = mod.cases(tier, seed)
        for i, c in enumerate(cases):
            c.setdefault("seed", seed * 100003 + i)
    budget = float(os.environ.get("UMON_BUDGET", "600" if tier == "quick" else "3000"))
    jobs = int(os.environ.get("UMON_JOBS", "8"))
    results = []
    skipped = 0
    if len(cases) == 1 or jobs == 1:
        for c in cases:
            results.append(_worker(c))
    else:
        # longest first, so that the pool drains evenly
        order = sorted(range(len(cases)), key=lambda i: -cases[i].get("cost", 1))
        ctxm = mp.get_context("fork")
        pool = ctxm.Pool(min(jobs, len(cases)))
        try:
            it = pool.imap_unordered(_worker, [cases[i] for i in order], chunksize=1)
            for _ in range(len(cases)):
                left = budget - (time.time() - t0)
                try:
                    r = it.next(timeout=max(left, 0.01))
                except mp.TimeoutError:
                    skipped = len(cases) - len(results)
                    break
                results.append(r)
                if r["status"] == "violated" and sum(x["status"] == "violated" for x in results) >= 5:
                    break
        finally:
            _stop(pool)
    wall = time.time() - t0

    violated = [r for r in results if r["status"] == "violated"]
    errors = [r for r in results if r["status"] == "error"]
    found_keys = {}
    for r in results:
        for key, text in r["findings"]:
            if key in known:
                found_keys.setdefault(key, text)
            else:
                violated.append(dict(r, what=text, detail={"key": key}))
    events = sum(r["events"] for r in results)
    values = sum(r["values"] for r in results)
    states = set()
    for r in results:
        states.update(r["states"])
    nontriv = {digest(json.dumps(r["case"], sort_keys=True, default=str), r["states"][:50])
               for r in results if r["nontrivial"]}
    notes = {}
    for r in results:
        for k, v in r["notes"].items():
            notes[k] = notes.get(k, 0) + v
    samples = []
    for r in results:
        if r["nontrivial"] and len(samples) < 4:
            samples.append({"case": r["case"], "events": r["events"], "values_compared": r["values"],
                            "observed": r["sample"]})
    cov = {"evaluations": len(results), "distinct_nontrivial": len(nontriv), "rule": mod.RULE,
           "samples": samples, "monitored_events": events, "values_compared": values,
           "distinct_behaviours": len(states), "counters": notes, "cases_skipped_for_time": skipped,
           "known_findings_seen": sorted(found_keys)}
    hit = {tuple(x) for r in results for x in r["lines"]}
    cov["statements_reached"] = reach.summary(hit)
    if os.environ.get("UMON_LINES"):
        with open(os.environ["UMON_LINES"], "a") as f:
            f.writelines("%s %d\n" % x for x in sorted(hit))
    evid = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": int(seed),
            "level": "exploration", "coverage": cov, "assumptions": list(mod.ASSUMPTIONS),
            "wall_s": round(wall, 2), "violations": len(violated)}
    if not replay:
        os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(env.VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(evid, f, indent=1, default=str)

    for key, text in sorted(found_keys.items()):
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, known[key], key))
    if violated:
        rdir = os.path.join(env.VERIF, "replay")
        os.makedirs(rdir, exist_ok=True)
        for n, r in enumerate(violated[:5]):
            path = replay or os.path.join(rdir, "%s_%d.json" % (pid, n))
            if not replay:
                with open(path, "w") as f:
                    json.dump({"property": pid, "tier": tier, "case": r["case"], "what": r["what"],
                               "detail": r["detail"]}, f, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  what: %s" % r["what"])
            for k, v in r["detail"].items():
                print("  %s: %s" % (k, str(v)[-1500:]))
            print("  case: %s" % json.dumps(r["case"], default=str)[:800])
        return 1
    if errors:
        print("INCONCLUSIVE property=%s harness error in %d case(s)" % (pid, len(errors)))
        print(errors[0]["what"])
        print(errors[0]["detail"].get("traceback", ""))
        return 2
    if events == 0 or values == 0 or (not nontriv and not replay):
        print("INCONCLUSIVE property=%s the monitors observed nothing (events=%d values=%d)" % (pid, events, values))
        return 2
    if skipped:
        print("note: %d of %d cases skipped for time" % (skipped, len(cases)))
        if skipped > len(cases) // 2:
            print("INCONCLUSIVE property=%s too few cases ran" % pid)
            return 2
    print("HELD property=%s tier=%s seed=%d cases=%d nontrivial=%d events=%d values=%d behaviours=%d wall=%.1fs"
          % (pid, tier, seed, len(results), len(nontriv), events, values, len(states), wall))
    return 0
