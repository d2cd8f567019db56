"""Runner: executes the workload of one property in forked workers while the
property's monitors watch, then writes evidence and the verdict.

Exit codes: 0 held on everything observed, 1 violation (with replay file),
2 no answer (harness error, nothing observed, watchdog)."""
import fcntl
import os
import sys
import json
import time
import shutil
import signal
import hashlib
import importlib
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, "checks"))
REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")
sys.path.insert(0, REPO_SRC)
KNOWN_FILE = os.path.join(VERIF, "known_findings.txt")


class Violation(Exception):
    """The observed execution contradicts the property."""

    def __init__(self, what, detail=None):
        Exception.__init__(self, what)
        self.what = what
        self.detail = detail or {}


class Skip(Exception):
    """The generated case is outside the property's domain."""


class Watchdog(BaseException):
    pass


def short(x, n=400):
    try:
        import numpy as np
        if isinstance(x, np.ndarray):
            x = np.array2string(x, threshold=30, precision=10)
    except Exception:
        pass
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + "..."


class Ctx(object):
    """Per-worker monitor state."""

    def __init__(self, known):
        self.events = {}
        self.sigs = set()
        self.samples = []
        self.known_keys = known
        self.known_seen = {}
        self.skips = {}
        self.maxerr = {}
        self.case_events = 0
        self.case_sig = None
        self.case_sample = None

    # -- bookkeeping ------------------------------------------------------
    def ev(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)
        self.case_events += int(n)

    def sig(self, *parts):
        self.case_sig = "|".join(str(p) for p in parts)

    def sample(self, **kw):
        self.case_sample = {k: short(v, 300) for k, v in kw.items()}

    # -- oracles ----------------------------------------------------------
    def check(self, cond, what, **detail):
        ok = False
        try:
            ok = bool(cond)
        except Exception:
            ok = False
        if not ok:
            raise Violation(what, {k: short(v) for k, v in detail.items()})

    def close(self, got, want, what, rtol=1e-7, atol=1e-9, **detail):
        """got must be a real numeric array equal to want up to a tolerance;
        atol may be an array. NaN equals NaN."""
        import numpy as np
        try:
            if hasattr(got, "toarray"):
                got = got.toarray()
            g = np.asarray(got, dtype=float)
            w = np.asarray(want, dtype=float)
        except Exception as e:
            raise Violation(what + ": result is not numeric",
                            {"got": short(got), "error": repr(e)})
        if g.shape != w.shape:
            if g.size == w.size and g.squeeze().shape == w.squeeze().shape:
                g = g.reshape(w.shape)
            else:
                raise Violation(what + ": wrong shape",
                                {"got_shape": g.shape,
                                 "expected_shape": w.shape})
        if g.size == 0:
            return
        with np.errstate(all="ignore"):
            both_nan = np.isnan(g) & np.isnan(w)
            same_inf = (g == w)
            err = np.abs(g - w)
            tol = np.broadcast_to(np.asarray(atol, dtype=float)
                                  + rtol * np.abs(w), w.shape)
            ok = both_nan | same_inf | (err <= tol)
            rel = np.where(both_nan | same_inf, 0.0, err / tol)
        bad = ~ok
        if bad.any():
            idx = np.unravel_index(
                np.argmax(np.where(bad, np.nan_to_num(rel, nan=np.inf,
                                                      posinf=1e300), -1)),
                w.shape)
            d = {"index": [int(i) for i in idx], "got": repr(g[idx]),
                 "expected": repr(w[idx]), "num_bad": int(bad.sum()),
                 "size": int(w.size), "got_all": short(g),
                 "expected_all": short(w)}
            d.update({k: short(v) for k, v in detail.items()})
            raise Violation(what, d)
        m = float(np.nanmax(rel)) if rel.size else 0.0
        key = what.split(":")[0]
        if m > self.maxerr.get(key, 0):
            self.maxerr[key] = m

    def known(self, key):
        """Record an observation that matches a listed known finding exactly;
        unlisted keys are violations."""
        if key not in self.known_keys:
            raise Violation("unlisted finding " + key, {})
        self.known_seen[key] = self.known_seen.get(key, 0) + 1


def load_known(prop):
    out = {}
    if os.path.exists(KNOWN_FILE):
        for line in open(KNOWN_FILE):
            line = line.strip()
            if line.startswith("known: "):
                head, _, text = line[len("known: "):].partition(" :: ")
                fields = dict(p.split("=", 1) for p in head.split())
                if fields["property"] == prop:
                    out[fields["key"]] = text
    return out


def case_seed(prop, seed, i):
    h = hashlib.sha256(("%s/%d/%d" % (prop, seed, i)).encode()).digest()
    return int.from_bytes(h[:4], "little")


def repo_frames(tb):
    out = []
    for fr in traceback.extract_tb(tb):
        if os.path.realpath(fr.filename).startswith(
                os.path.realpath(REPO_SRC) + os.sep):
            out.append("%s:%s" % (os.path.basename(fr.filename), fr.name))
    return out


def run_case(mod, ctx, seed, tier, i, limit=240):
    """Returns None (held), ('skip', why), ('violation', what, detail),
    ('inconclusive', why)."""
    import numpy as np
    rng = np.random.RandomState(case_seed(mod.ID, seed, i))
    np.random.seed(case_seed(mod.ID, seed, i) % (2 ** 31))
    ctx.case_events = 0
    ctx.case_sig = None
    ctx.case_sample = None

    def on_alarm(signum, frame):
        raise Watchdog()

    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(limit)
    try:
        with np.errstate(all="ignore"):
            mod.case(ctx, rng, tier, i)
    except Skip as e:
        ctx.skips[str(e)] = ctx.skips.get(str(e), 0) + 1
        return ("skip", str(e))
    except Violation as e:
        return ("violation", e.what, e.detail)
    except Watchdog:
        return ("inconclusive", "watchdog")
    except (MemoryError, KeyboardInterrupt):
        return ("inconclusive", "resources")
    except Exception as e:
        et, ev, tb = sys.exc_info()
        frames = repo_frames(tb)
        txt = "".join(traceback.format_exception(et, ev, tb))
        if frames:
            what = "valid input rejected or operation crashed: %s in %s" % (
                repr(e)[:300], frames[-1])
        elif isinstance(e, (OSError, ImportError, NameError, AssertionError)):
            return ("inconclusive", txt[-1500:])
        else:
            what = "result of an operation has not the documented form: %s" \
                % repr(e)[:300]
        return ("violation", what, {"traceback": txt[-3000:]})
    finally:
        signal.alarm(0)
    if ctx.case_events > 0:
        if ctx.case_sig is not None:
            ctx.sigs.add(ctx.case_sig)
        if ctx.case_sample is not None and len(ctx.samples) < 2:
            s = dict(ctx.case_sample)
            s["case"] = i
            ctx.samples.append(s)
    return None


def claim(path):
    """Next case number, shared by the workers."""
    fd = os.open(path, os.O_RDWR | os.O_CREAT)
    try:
        fcntl.flock(fd, fcntl.LOCK_EX)
        b = os.read(fd, 32)
        i = int(b) if b else 0
        os.lseek(fd, 0, os.SEEK_SET)
        os.write(fd, b"%d" % (i + 1))
        return i
    finally:
        os.close(fd)


def worker(mod, w, nworkers, ncases, seed, tier, deadline, tmp, known):
    ctx = Ctx(known)
    res = {"done": 0, "violations": [], "inconclusive": []}
    stop = os.path.join(tmp, "stop")
    slow = [0.0, -1]
    while True:
        if time.time() > deadline or os.path.exists(stop):
            break
        i = claim(os.path.join(tmp, "next"))
        if i >= ncases:
            break
        tc = time.time()
        r = run_case(mod, ctx, seed, tier, i)
        res["done"] += 1
        slow = max(slow, [time.time() - tc, i])
        if r is None or r[0] == "skip":
            continue
        if r[0] == "violation":
            res["violations"].append({"case": i, "what": r[1],
                                      "detail": r[2]})
            open(stop, "w").close()
            break
        res["inconclusive"].append({"case": i, "why": r[1]})
        if len(res["inconclusive"]) > 3:
            break
    res.update(slow=slow, events=ctx.events, sigs=sorted(ctx.sigs), samples=ctx.samples,
               known=ctx.known_seen, skips=ctx.skips, maxerr=ctx.maxerr)
    p = os.path.join(tmp, "w%d.json" % w)
    with open(p + ".tmp", "w") as f:
        json.dump(res, f)
    os.rename(p + ".tmp", p)


def main(argv):
    prop = argv[0]
    opts = {}
    k = 1
    while k < len(argv):
        opts[argv[k].lstrip("-")] = argv[k + 1]
        k += 2
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(opts.get("seed", os.environ.get("VERIF_SEED", "1")))
    t0 = time.time()
    import warnings
    warnings.simplefilter("ignore")
    import common                                    # hooks, then pylogit
    src = os.path.realpath(common.pl.__file__)
    if not src.startswith(os.path.realpath(REPO_SRC) + os.sep):
        print("ERROR: pylogit imported from", src)
        return 2
    mod = importlib.import_module(prop.lower())
    assert mod.ID == prop
    known = load_known(prop)
    if "case" in opts:
        ctx = Ctx(known)
        r = run_case(mod, ctx, seed, tier, int(opts["case"]), limit=3600)
        print("case", opts["case"], "->", r, ctx.events, ctx.case_sig)
        if r is not None and r[0] == "violation":
            for kk, vv in r[2].items():
                print("  %s: %s" % (kk, vv))
        return 1 if r is not None and r[0] == "violation" else 0
    ncases = mod.CASES[tier]
    ncases = int(opts.get("cases", ncases))
    nworkers = int(opts.get("workers", min(8, os.cpu_count() or 1)))
    budget = float(opts.get("budget",
                            {"quick": 330.0, "thorough": 780.0}[tier]))
    deadline = t0 + budget
    out = os.path.join(VERIF, "out")
    os.makedirs(out, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(out, "tmp_%s_%d" % (prop, os.getpid()))
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    sys.stdout.flush()
    pids = []
    for w in range(nworkers):
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                dn = os.open(os.devnull, os.O_RDWR)
                os.dup2(dn, 1)
                errf = os.open(os.path.join(tmp, "err%d" % w),
                               os.O_RDWR | os.O_CREAT)
                os.dup2(dn, 2)
                try:
                    worker(mod, w, nworkers, ncases, seed, tier, deadline,
                           tmp, known)
                    code = 0
                except BaseException:
                    os.write(errf, traceback.format_exc().encode())
            finally:
                os._exit(code)
        pids.append(pid)
    hard = deadline + 60
    live = set(pids)
    while live:
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid:
            live.discard(pid)
        else:
            if time.time() > hard:
                for p in live:
                    try:
                        os.kill(p, signal.SIGKILL)
                    except OSError:
                        pass
            time.sleep(0.05)
    agg = {"done": 0, "violations": [], "inconclusive": []}
    events, sigs, samples, kn, skips, maxerr = {}, set(), [], {}, {}, {}
    errors = []
    slowest = [0.0, -1]
    for w in range(nworkers):
        p = os.path.join(tmp, "w%d.json" % w)
        if not os.path.exists(p):
            e = ""
            try:
                e = open(os.path.join(tmp, "err%d" % w)).read()[-2000:]
            except Exception:
                pass
            errors.append("worker %d ended without a result %s" % (w, e))
            continue
        r = json.load(open(p))
        agg["done"] += r["done"]
        agg["violations"] += r["violations"]
        agg["inconclusive"] += r["inconclusive"]
        for a, b in ((events, r["events"]), (kn, r["known"]),
                     (skips, r["skips"])):
            for key, v in b.items():
                a[key] = a.get(key, 0) + v
        for key, v in r["maxerr"].items():
            maxerr[key] = max(maxerr.get(key, 0), v)
        sigs.update(r["sigs"])
        slowest = max(slowest, r["slow"])
        samples += r["samples"]
    shutil.rmtree(tmp, ignore_errors=True)
    samples.sort(key=lambda s: s["case"])
    required = getattr(mod, "REQUIRED", [])
    missing = [e for e in required if events.get(e, 0) == 0]
    wall = time.time() - t0
    ev = {"property": prop, "tier": tier, "seed": seed,
          "level": getattr(mod, "LEVEL", "exploration"),
          "coverage": {
              "evaluations": agg["done"],
              "distinct_nontrivial": len(sigs),
              "rule": mod.RULE,
              "samples": samples[:4] or [{"note": "no case completed"}],
              "planned_cases": ncases,
              "observed_events": events,
              "skipped_outside_domain": skips,
              "slowest_case": {"seconds": round(slowest[0], 2),
                               "case": slowest[1]},
              "inconclusive_cases": len(agg["inconclusive"]),
              "known_findings_observed": kn,
              "largest_error_over_tolerance": {
                  k: round(v, 6) for k, v in sorted(maxerr.items())}},
          "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "wall_s": round(wall, 2),
          "violations": len(agg["violations"])}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    for key in sorted(kn):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[key]))
    if agg["violations"]:
        agg["violations"].sort(key=lambda v: v["case"])
        v = agg["violations"][0]
        rp = os.path.join(out, "replay_%s_%s_%d_%d.json" % (
            prop, tier, seed, v["case"]))
        with open(rp, "w") as f:
            json.dump({"property": prop, "seed": seed, "tier": tier,
                       "case": v["case"], "what": v["what"],
                       "detail": v["detail"],
                       "replay": "VERIF_TIER=%s /verif/run.sh %s --seed %d "
                                 "--case %d" % (tier, prop, seed, v["case"])},
                      f, indent=1)
        print("%s: %s" % (prop, v["what"]))
        for kk in sorted(v["detail"]):
            if kk != "traceback":
                print("   %s: %s" % (kk, v["detail"][kk]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    print("%s %s seed=%d: %d cases, %d distinct, events=%s skips=%s %.1fs" % (
        prop, tier, seed, agg["done"], len(sigs), json.dumps(
            events, sort_keys=True), json.dumps(skips), wall))
    if errors or agg["inconclusive"] or missing or not sigs:
        for e in errors:
            print("ERROR:", e)
        for e in agg["inconclusive"][:3]:
            print("INCONCLUSIVE: case %s: %s" % (e["case"], e["why"]))
        if missing:
            print("INCONCLUSIVE: monitors never reached:", missing)
        fatal = errors or missing or not sigs or (
            len(agg["inconclusive"]) > max(2, 0.02 * agg["done"]))
        return 2 if fatal else 0
    return 0


if __name__ == "__main__":
    sys.modules["core"] = sys.modules["__main__"]
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
