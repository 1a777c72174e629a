"""Runs one check: generated cases in worker processes, shrinking, confirmation, replay file, evidence.

A check module (checks/<id>.py) provides
  ID, RULE            property id; how cases are made and what makes one non-trivial
  TIERS               {"quick": {"examples": n, "budget": s}, "thorough": {...}}  (examples over all workers)
  strategy(tier)      Hypothesis strategy giving a JSON-able dict (the complete case, data seeds included)
  run_case(case,ctx)  -> Outcome
  minimise(case,out)  optional: smaller candidate cases tried after Hypothesis' shrinking
  ASSUMPTIONS         optional list of strings
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import queue as pyqueue
import shutil
import signal
import sys
import time
import traceback

LIB = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(LIB)
for _p in (LIB, os.path.join(ROOT, "checks"), "/opt/veriftools/pyvenv/lib/python3.12/site-packages"):
    if _p not in sys.path:
        sys.path.append(_p)

import warnings  # noqa: E402

warnings.filterwarnings("ignore")

import build  # noqa: E402
import fcube  # noqa: E402

WORKERS = 8
SHRINK_S = 30
CONFIRM = 3
SAN_BIN = None


class Stop(BaseException):
    pass


class Infra(Exception):
    """The machinery, not the property, failed (disk full and the like)."""


class Outcome:
    def __init__(self):
        self.fails = []        # [(key, message)]
        self.where = []        # pixel numbers of failures, for minimisation
        self.evals = 0
        self.nontrivial = 0
        self.sample = None
        self.labels = {}

    def fail(self, key, msg, where=None):
        self.fails.append((key, str(msg)[:1500]))
        if where is not None:
            self.where.extend(int(w) for w in where)

    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + int(n)


class Ctx:
    def __init__(self, bindir, base, tier, root):
        self.bin, self.base, self.tier, self.build = bindir, base, tier, root
        self.k = 0
        self.dir = None

    def fresh(self):
        self.drop()
        self.k += 1
        self.dir = os.path.join(self.base, "c%d" % self.k)
        os.makedirs(self.dir)
        return self.dir

    def drop(self):
        if self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)
            self.dir = None

    def exe(self, name, san=False):
        return os.path.join(SAN_BIN if san else self.bin, name)


def case_hash(case):
    return hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def evaluate(mod, case, ctx):
    """One evaluation; anything the code under test makes the check stumble over is a failure of the case."""
    ctx.fresh()
    try:
        return mod.run_case(case, ctx)
    except Infra:
        raise
    except OSError as e:
        if e.errno in (28, 12, 23, 24):
            raise Infra(str(e))
        out = Outcome()
        out.evals = 1
        out.fail("exception", traceback.format_exc())
        return out
    except Exception:
        out = Outcome()
        out.evals = 1
        out.fail("exception", traceback.format_exc())
        return out
    finally:
        ctx.drop()


def load_known():
    known = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                f = dict(x.split("=", 1) for x in line.split("|")[0].split()[1:] if "=" in x)
                f["text"] = line.split("|", 1)[1].strip() if "|" in line else ""
                known.append(f)
    return known


def split_known(pid, fails):
    keys = {f["key"]: f for f in load_known() if f.get("property") == pid}
    new = [f for f in fails if f[0] not in keys]
    old = [keys[f[0]] for f in fails if f[0] in keys]
    return new, old


def worker(modname, widx, seed, tier, conf, bindir, broot, base, t_end, stop, q):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    stats = dict(evals=0, nontrivial=0, cases=0, labels={}, samples=[], known=[], fail=None, error=None, once=[])
    try:
        from hypothesis import given, settings, HealthCheck, Phase
        from hypothesis import seed as hseed
        mod = importlib.import_module(modname)
        ctx = Ctx(bindir, os.path.join(base, "w%d" % widx), tier, broot)
        os.makedirs(ctx.base)
        seen = set()
        best = {}
        sample_at = {0, 3, 10}

        # cases whose outcome depends on chance or on the schedule may need several attempts
        tries = 12 if getattr(mod, "NONDETERMINISTIC", False) else CONFIRM

        def again(case):
            for _ in range(tries):
                new, _ = split_known(mod.ID, evaluate(mod, case, ctx).fails)
                if new:
                    return True
            return False

        def body(case):
            now = time.time()
            if best:
                if now > best["t0"] + SHRINK_S:
                    raise Stop()
            elif now > t_end or stop.is_set():
                raise Stop()
            h = case_hash(case)
            out = evaluate(mod, case, ctx)
            if not best:
                stats["cases"] += 1
                stats["evals"] += out.evals
                if h not in seen:
                    seen.add(h)
                    stats["nontrivial"] += out.nontrivial
                for k, v in out.labels.items():
                    stats["labels"][k] = stats["labels"].get(k, 0) + v
                if len(seen) - 1 in sample_at and len(stats["samples"]) < 3:
                    stats["samples"].append(dict(case=case, observed=out.sample))
            new, old = split_known(mod.ID, out.fails)
            for o in old:
                if o not in stats["known"]:
                    stats["known"].append(o)
            if new:
                if not best:
                    if not again(case):
                        # seen once only: noted, the search goes on
                        stats["once"].append(dict(case=case, fails=new))
                        return
                    best["t0"] = time.time()
                    best["first"] = case
                    stop.set()
                best.update(case=case, fails=new, where=out.where)
                raise AssertionError(new[0][1])

        n = max(1, conf["examples"] // WORKERS)
        test = given(mod.strategy(tier))(body)
        test = settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
                        phases=(Phase.generate, Phase.shrink),
                        suppress_health_check=list(HealthCheck), print_blob=False)(test)
        test = hseed(int(hashlib.sha256(("%d/%s/%d" % (seed, mod.ID, widx)).encode()).hexdigest()[:12], 16))(test)
        try:
            test()
        except Stop:
            pass
        except AssertionError:
            pass
        except Exception:
            if not best:
                raise
        if best:
            # pixel-level minimisation
            if hasattr(mod, "minimise"):
                t1 = time.time() + SHRINK_S
                progress = True
                while progress and time.time() < t1:
                    progress = False
                    for cand in mod.minimise(best["case"], best["where"]):
                        if time.time() > t1:
                            break
                        o = evaluate(mod, cand, ctx)
                        new, _ = split_known(mod.ID, o.fails)
                        if new:
                            best.update(case=cand, fails=new, where=o.where)
                            progress = True
                            break
            # the minimal case, or the case found first if that fails more reliably
            n_ok = 0
            for cand in (best["case"], best["first"]):
                n_ok = 0
                for _ in range(tries):
                    o = evaluate(mod, cand, ctx)
                    new, _ = split_known(mod.ID, o.fails)
                    n_ok += bool(new)
                    if new:
                        best.update(case=cand, fails=new)
                if n_ok:
                    break
            stats["fail"] = dict(case=best["case"], fails=best["fails"], confirmed=n_ok)
    except BaseException:
        stats["error"] = traceback.format_exc()
        stop.set()
    q.put((widx, stats))


def write_evidence(mod, tier, seed, cov, wall, violations):
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    ev = dict(property=mod.ID, tier=tier, seed=seed, level="exploration", coverage=cov, wall_s=round(wall, 2),
              violations=violations, assumptions=getattr(mod, "ASSUMPTIONS", []))
    tmp = os.path.join(ROOT, "evidence", mod.ID + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=plain)
        f.write("\n")
    os.replace(tmp, os.path.join(ROOT, "evidence", mod.ID + ".json"))


def plain(x):
    return x.item() if hasattr(x, "item") else str(x)


def trim(x, n=3000):
    s = json.dumps(x, sort_keys=True, default=plain)
    return x if len(s) <= n else s[:n] + " ..."


def main(argv):
    pid = argv[0]
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module(pid.lower())
    try:
        broot = build.ensure("std")
        if getattr(mod, "SANITIZED", False):
            global SAN_BIN
            SAN_BIN = os.path.join(build.ensure("san"), "bin")
    except build.BuildError as e:
        print("ERROR %s" % e)
        return 2
    bindir = os.path.join(broot, "bin")
    base = fcube.scratch("force-verif-%s-" % pid)

    def cleanup(*a):
        shutil.rmtree(base, ignore_errors=True)
        for p in mp.active_children():
            p.terminate()
        if a:
            os._exit(4)

    signal.signal(signal.SIGTERM, cleanup)
    signal.signal(signal.SIGINT, cleanup)
    try:
        if len(argv) > 2 and argv[1] == "--replay":
            rec = json.load(open(argv[2]))
            ctx = Ctx(bindir, os.path.join(base, "r"), tier, broot)
            os.makedirs(ctx.base)
            out = evaluate(mod, rec["case"], ctx)
            for f in out.fails:
                print("%s: %s" % f)
            print("replay: %s" % ("FAILS" if out.fails else "passes"), out.labels)
            return 1 if out.fails else 0

        conf = dict(mod.TIERS[tier])
        if os.environ.get("VERIF_BUDGET"):
            conf["budget"] = float(os.environ["VERIF_BUDGET"])
        stop = mp.Event()
        q = mp.Queue()
        t_end = time.time() + conf["budget"]
        procs = [mp.Process(target=worker, args=(pid.lower(), w, seed, tier, conf, bindir, broot, base, t_end, stop, q))
                 for w in range(WORKERS)]
        for p in procs:
            p.start()
        res = {}
        while len(res) < WORKERS:
            try:
                w, s = q.get(timeout=2)
                res[w] = s
            except pyqueue.Empty:
                for i, p in enumerate(procs):
                    if not p.is_alive() and i not in res:
                        try:
                            w, s = q.get(timeout=1)
                            res[w] = s
                        except pyqueue.Empty:
                            res[i] = dict(evals=0, nontrivial=0, cases=0, labels={}, samples=[], known=[], fail=None, once=[],
                                          error="worker died (exit %s)" % p.exitcode)
        for p in procs:
            p.join()
        stats = [res[w] for w in range(WORKERS)]
        labels = {}
        for s in stats:
            for k, v in s["labels"].items():
                labels[k] = labels.get(k, 0) + v
        samples = [dict(case=trim(x["case"]), observed=trim(x["observed"])) for s in stats for x in s["samples"]][:4]
        fails = [s["fail"] for s in stats if s["fail"]]
        confirmed = [f for f in fails if f["confirmed"] > 0]
        once = [f for s in stats for f in s["once"]] + [f for f in fails if f["confirmed"] == 0]
        cov = dict(evaluations=sum(s["evals"] for s in stats),
                   distinct_nontrivial=sum(s["nontrivial"] for s in stats), rule=mod.RULE, samples=samples,
                   cases=sum(s["cases"] for s in stats), labels=labels)
        write_evidence(mod, tier, seed, cov, time.time() - t0, len(confirmed))
        seen = set()
        for s in stats:
            for k in s["known"]:
                if k["key"] not in seen:
                    seen.add(k["key"])
                    print("KNOWN-FINDING: property=%s %s" % (pid, k["text"]))
        report = confirmed
        if report:
            report.sort(key=lambda f: (-f["confirmed"], len(json.dumps(f["case"]))))
            f = report[0]
            os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
            path = os.path.join(ROOT, "replays", "%s-%s.json" % (pid, case_hash(f["case"])))
            with open(path, "w") as fh:
                json.dump(dict(property=pid, seed=seed, tier=tier, case=f["case"],
                               fails=[list(x) for x in f["fails"][:20]]), fh, indent=1)
            print(f["fails"][0][1])
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        errs = [s["error"] for s in stats if s["error"]]
        if errs:
            print(errs[0])
            print("ERROR check %s did not complete" % pid)
            return 3
        if once:
            print("note: %d failing case(s) did not reproduce: %s" % (len(once), once[0]["fails"][0][1][:400]))
            print(json.dumps(trim(once[0]["case"])))
        if cov["evaluations"] == 0 or cov["distinct_nontrivial"] == 0:
            print("ERROR nothing was evaluated")
            return 3
        print("%s held: %d cases, %d evaluations, %d distinct non-trivial, %.1f s  %s" % (
            pid, cov["cases"], cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0,
            json.dumps(labels, sort_keys=True)[:800]))
        return 0
    finally:
        cleanup()


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.exit(rc)
