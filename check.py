"""Decides one property:  check.py C01 [quick|thorough]

1. verification conditions are generated from /repo's current source (harness/, pyvc/) and
   discharged by z3 (cvc5 where z3 answers unknown);
2. a search on CPython (vlib/native.py) runs beside it: it looks for a failing input of the
   real code, and is the labelled bounded stand-in for obligations the verifier leaves open.
Exit 0: held.  Exit 1 with a VIOLATION line: broken.
"""
import json
import multiprocessing as mp
import os
import queue
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
REPO = os.environ.get("VERIF_DEV_REPO", "/repo")  # set only to try the checks on a scratch copy


def reexec():
    if os.environ.get("VERIF_CHILD") == "1":
        return None
    scratch = tempfile.mkdtemp(prefix="verif_")
    env = dict(os.environ, VERIF_CHILD="1", PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"), VERIF_SCRATCH=scratch,
               PYTHONHASHSEED="0", VERIF_REPO=REPO, HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(scratch, "hyp"), PYTHONPATH=REPO)
    try:
        p = subprocess.run([PY, os.path.abspath(__file__)] + sys.argv[1:], env=env, cwd=HERE)
        return p.returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


# ------------------------------------------------------------------ engine workers
class JobTimeout(BaseException):
    pass


def worker(inq, outq):
    signal.signal(signal.SIGINT, signal.SIG_IGN)

    def onalarm(sig, frm):
        raise JobTimeout()

    signal.signal(signal.SIGALRM, onalarm)
    import resource

    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    from harness import base

    while True:
        job = inq.get()
        if job is None:
            return
        jid, h, params, prop, bounded, limit, tmo = job
        signal.setitimer(signal.ITIMER_REAL, limit)
        try:
            r = base.execute(h, params, prop, bounded, tmo)
        except JobTimeout:
            r = {"harness": h, "params": params, "err": f"timeout after {limit} s", "obl": {}, "covers": [], "funcs": {}}
        except BaseException as e:
            r = {"harness": h, "params": params, "err": f"engine: {type(e).__name__}: {e} {traceback.format_exc()[-600:]}", "obl": {}, "covers": [], "funcs": {}}
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        outq.put((jid, r))


class Pool:
    def __init__(self, n):
        self.ctx = mp.get_context("fork")
        self.inq, self.outq = self.ctx.Queue(), self.ctx.Queue()
        self.ps = [self.ctx.Process(target=worker, args=(self.inq, self.outq), daemon=True) for _ in range(n)]
        for p in self.ps:
            p.start()

    def run(self, jobs, deadline, stop=lambda r=None: False):
        """jobs: list of (h, params, prop, bounded, limit, tmo).  Returns results in order; None = not run."""
        res = [None] * len(jobs)
        for k, j in enumerate(jobs):
            self.inq.put((k,) + tuple(j))
        left = len(jobs)
        while left and time.time() < deadline and not stop():
            try:
                k, r = self.outq.get(timeout=0.5)
            except queue.Empty:
                if not any(p.is_alive() for p in self.ps):
                    break
                continue
            res[k] = r
            stop(r)
            left -= 1
        if left:
            try:
                while True:
                    self.inq.get_nowait()
            except queue.Empty:
                pass
        return res

    def close(self):
        self.inq.cancel_join_thread()
        for p in self.ps:
            p.kill()


# ------------------------------------------------------------------ native search
class Native:
    def __init__(self, prop, seed, budget, n, tag=""):
        self.prop, self.procs = prop, []
        self.out = []
        for w in range(n):
            f = tempfile.NamedTemporaryFile("w+", dir=os.environ["VERIF_SCRATCH"], suffix=".json", delete=False)
            e = tempfile.NamedTemporaryFile("w+", dir=os.environ["VERIF_SCRATCH"], suffix=".err", delete=False)
            p = subprocess.Popen([sys.executable, "-m", "vlib.native", prop, str(seed), str(budget), str(w), str(n)],
                                 cwd=HERE, stdout=f, stderr=e)
            self.procs.append((p, f, e))

    def poll(self):
        """A failure found so far, or None."""
        for p, f, e in self.procs:
            if p.poll() is not None:
                r = self.read(f)
                if r and r["fail"]:
                    return r["fail"]
        return None

    def read(self, f):
        try:
            return json.loads(open(f.name).read().strip().splitlines()[-1])
        except Exception:
            return None

    def wait(self, timeout):
        """(failure | None, stats list, crashes)"""
        end = time.time() + timeout
        while time.time() < end:
            f = self.poll()
            if f:
                break
            if all(p.poll() is not None for p, _, _ in self.procs):
                break
            time.sleep(0.2)
        fail, stats, crashed = None, [], []
        for p, f, e in self.procs:
            if p.poll() is None:
                p.kill()
                p.wait()
            r = self.read(f)
            if r is None:
                crashed.append(open(e.name).read()[-1500:])
                continue
            stats.append(r["stats"])
            if r["fail"] and not fail:
                fail = r["fail"]
        return fail, stats, crashed

    def kill(self):
        for p, _, _ in self.procs:
            if p.poll() is None:
                p.kill()


TIER = {
    "quick": dict(native=25, nworkers=3, eworkers=6, engine=300, focus=25, enough=90),
    "thorough": dict(native=400, nworkers=3, eworkers=6, engine=9000, focus=200, enough=1200),
}


def replay_file(prop, name, text):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{prop}-{name}.txt")
    with open(p, "w") as fh:
        fh.write(text)
    return p


def known_findings():
    out = []
    try:
        for line in open(os.path.join(HERE, "known_findings.txt")):
            line = line.strip()
            if line.startswith("finding: "):
                d = line[len("finding: "):]
                p, rest = d.split(" ", 1)
                out.append((p.split("=")[1], rest))
    except OSError:
        pass
    return out


def unlucky(r):
    """Ended by a time limit, with nothing refuted."""
    bad = [b[0] for o in r["obl"].values() for b in o["bad"]]
    return "no" not in bad and ("unknown" in bad or (r["err"] or "").startswith(("timeout", "solver")))


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in TIER:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = TIER[tier]
    t0 = time.time()
    sys.path.insert(0, HERE)
    native = Native(prop, seed, cfg["native"], cfg["nworkers"])
    violations = []  # (kind, text, native-confirmed)
    engine = {"results": [], "error": None}
    jobs = []
    pool = None
    try:
        try:
            from harness import allh, base  # noqa: F401
            from pyvc import models as M

            for name, h in base.REG.items():
                if prop in h.props:
                    for params in h.jobs(tier, prop):
                        jobs.append((name, params, prop, None, h.limit, 8000))
            # the verifier decides; its run is cut short only once an obligation has been refuted (or
            # is long overdue) and the search beside it has a failing input of the real code to show
            seen_no = []

            def stop(r=None):
                if r is not None and any(b[0] == "no" for o in r["obl"].values() for b in o["bad"]):
                    seen_no.append(1)
                return (bool(seen_no) or time.time() > t0 + cfg["enough"]) and native.poll() is not None

            pool = Pool(cfg["eworkers"])
            first = [j[:4] + (max(20, j[4] // 3), j[5]) for j in jobs]
            engine["results"] = pool.run(first, t0 + cfg["engine"], stop=stop)
            # solver runs that came to nothing get a second try in processes with a fresh solver state
            again = [k for k, r in enumerate(engine["results"]) if r is not None and unlucky(r)]
            if again and not stop():
                pool.close()
                pool = Pool(cfg["eworkers"])
                for k, r in zip(again, pool.run([jobs[k] for k in again], t0 + cfg["engine"], stop=stop)):
                    if r is not None:
                        engine["results"][k] = r
        except Exception:
            engine["error"] = traceback.format_exc()
        fail, nstats, crashed = native.wait(max(5, t0 + cfg["native"] * 6 + 90 - time.time()))
        # ---- triage the obligations
        obligations = discharged = 0
        refuted, undecided, notrun = [], [], 0
        by_harness, funcs, covers = {}, {}, set()
        st = dict(checks=0, stime=0.0, cvc5=0, paths=0, loops=0)
        for k, r in enumerate(engine["results"]):
            if r is None:
                notrun += 1
                continue
            bh = by_harness.setdefault(r["harness"], dict(jobs=0, obligations=0, discharged=0))
            bh["jobs"] += 1
            for key in st:
                st[key] += r.get(key, 0)
            for f, c in r["funcs"].items():
                funcs[f] = funcs.get(f, 0) + c
            covers.update(f"{r['harness']}: {c}" for c in r["covers"])
            tag = f"{r['harness']} {json.dumps(r['params'], sort_keys=True)}"
            if r["err"]:
                undecided.append((k, tag, r["err"]))
            elif not r["obl"] and not base.REG[r["harness"]].may_be_empty:
                undecided.append((k, tag, "no obligations generated"))
            for n, o in r["obl"].items():
                obligations += 1
                bh["obligations"] += 1
                bad = [b for b in o["bad"]]
                if not bad:
                    discharged += 1
                    bh["discharged"] += 1
                    continue
                if any(b[0] == "no" for b in bad):
                    refuted.append((k, tag, n, [b for b in bad if b[0] == "no"][0]))
                else:
                    undecided.append((k, tag, f"{n}: {bad[0][0]} {bad[0][2] or ''}", n, bad[0]))
        bounded = []
        # ---- open or refuted obligations: try to find a failing input, then the bounded run
        if (refuted or undecided) and not fail:
            end = time.time() + cfg["focus"]
            from vlib import native as N

            seen = set()
            for item in refuted + undecided:
                k = item[0]
                if k in seen or time.time() > end:
                    continue
                seen.add(k)
                h = base.REG[jobs[k][0]]
                if h.replay is None:
                    continue
                hints = [b[1] for o in engine["results"][k]["obl"].values() for b in o["bad"] if b[1]]
                fail = focus_in_child(h.name, jobs[k][1], prop, hints, seed, min(10, max(2, end - time.time())))
                if fail:
                    break
            if not fail:
                more = Native(prop, seed + 1000, cfg["focus"], 6)
                bjobs = [(jobs[k][0], jobs[k][1], prop, 2, 60, 8000) for k in sorted({x[0] for x in refuted + undecided}) if base.REG[jobs[k][0]].boundable][:60]
                bres = {}
                if bjobs:
                    for j, r in zip(bjobs, pool.run(bjobs, time.time() + 150)):
                        bres[(j[0], json.dumps(j[1], sort_keys=True))] = r
                fail, s2, c2 = more.wait(cfg["focus"] * 4 + 60)
                nstats += s2
                still = []
                # refuted without a bound, not refuted for 2 elements: run again with lengths symbolic but at
                # most 8.  Refuted again: a lemma is missing.  Discharged: the failure needs long sequences.
                doubt = sorted({i[0] for i in refuted if unconfirmed(bres.get((jobs[i[0]][0], json.dumps(jobs[i[0]][1], sort_keys=True))), i[2])})[:24]
                cjobs = [(jobs[k][0], jobs[k][1], prop, -8, 90, 8000) for k in doubt] if not fail else []
                cres = dict(zip(doubt, pool.run(cjobs, time.time() + 150))) if cjobs else {}
                for item in refuted:
                    k, tag, n, b = item
                    r = bres.get((jobs[k][0], json.dumps(jobs[k][1], sort_keys=True)))
                    if unconfirmed(r, n):
                        c = cres.get(k)
                        if c is None or c["err"] or n not in c["obl"] or c["obl"][n]["bad"]:
                            bounded.append(f"{tag}: {n} (refuted without bound for lack of lemma, discharged for at most 2 elements)")
                            continue
                    still.append(item)
                for item in undecided:
                    k, tag, why = item[:3]
                    r = bres.get((jobs[k][0], json.dumps(jobs[k][1], sort_keys=True)))
                    if r is not None and not r["err"]:
                        bad = [(n, x) for n, o in r["obl"].items() for x in o["bad"] if x[0] == "no"]
                        if bad and jobs[k][0] in BOUNDED_EXACT:
                            still.append((k, tag, bad[0][0], bad[0][1]))
                            continue
                        if r["obl"] and not any(o["bad"] for o in r["obl"].values()):
                            bounded.append(f"{tag}: {why}; bounded stand-in: at most 2 elements, all obligations discharged")
                            continue
                    bounded.append(f"{tag}: {why}; bounded stand-in: native search only")
                refuted = still
    finally:
        native.kill()
        if pool:
            pool.close()
    # ---- verdict
    lines = []
    if fail:
        head = obl_text(refuted, engine["results"]) or ("\nno obligation was refuted; left open by the verifier, so that the search decides: "
                                                        + ("; ".join(f"{x[1]}: {x[2]}"[:200] for x in undecided[:10]) or "none"))
        p = replay_file(prop, "input", f"property {prop}\n{head}\n\nfailing input of the real code\nlaw: {fail['law']}\n{fail['desc']}\n\n"
                        f"replay (python, eth_abi from /repo):\n{fail['code']}\n")
        lines.append(f"VIOLATION property={prop} replay={p}")
        print(f"{prop}: {fail['law']}: {fail['desc'][:600]}")
    elif refuted:
        p = replay_file(prop, "obligation", f"property {prop}\nno failing input found\n" + obl_text(refuted, engine["results"]))
        lines.append(f"VIOLATION property={prop} replay={p} no-failing-input-found")
    for fp, text in known_findings():
        if fp == prop:
            from vlib import native as N

            if N.finding_present():
                print(f"KNOWN-FINDING: property={prop} {text}")
    evidence(prop, tier, seed, t0, obligations, discharged, by_harness, funcs, covers, st, undecided, bounded, notrun, nstats, crashed, refuted, fail, engine, len(jobs), lines)
    print(f"{prop} {tier}: {discharged}/{obligations} obligations discharged, {len(undecided)} open, {len(refuted)} refuted, {notrun} not run; "
          f"native evaluations {sum(s['evaluations'] for s in nstats)}; {time.time() - t0:.1f} s")
    for x in undecided[:8]:
        print("  open:", x[1], x[2][:300])
    for x in refuted[:8]:
        print("  refuted:", x[1], x[2], x[3])
    if engine["error"]:
        print("  engine error:", engine["error"][-1500:])
    for c in crashed[:2]:
        print("  native worker crashed:", c[-800:])
    for l in lines:
        print(l)
    return 1 if lines else 0


# harnesses whose specifications are also exact for unrolled loops: there a refutation of the bounded
# run speaks for itself; elsewhere it only confirms one of the unbounded run
BOUNDED_EXACT = ("codec-history", "registry-mapping", "registry-ops")


def unconfirmed(r, n):
    """The bounded run r does not refute obligation n."""
    return r is not None and not r["err"] and (n not in r["obl"] or not any(x[0] == "no" for x in r["obl"][n]["bad"]))


def focus_in_child(hname, params, prop, hints, seed, budget):
    """Look for a failing input near a refuted obligation, in a child process."""
    code = ("import sys,json; sys.path.insert(0,%r); from harness import allh, base; "
            "a=json.loads(sys.argv[1]); print(json.dumps(base.REG[a[0]].replay(a[1],a[2],a[3],a[4],a[5])))" % HERE)
    try:
        p = subprocess.run([sys.executable, "-c", code, json.dumps([hname, params, prop, hints, seed, budget])], cwd=HERE,
                           capture_output=True, text=True, timeout=budget * 3 + 30)
        return json.loads(p.stdout.strip().splitlines()[-1])
    except Exception:
        return None


def obl_text(refuted, results):
    out = []
    for k, tag, n, b in refuted[:20]:
        out.append(f"\nfailed obligation: {n}\n  job: {tag}\n  verifier: {b[0]}; counter-model: {b[1]}\n  {b[2] or ''}")
    return "".join(out)


ASSUMPTIONS = [
    "bytes, lists and encodings are shorter than 2**61 bytes; memory is sufficient",
    "values are of the builtin types or of types unrelated to them (no subclass overriding builtin behaviour)",
    "induction over the nesting of types: a compound coder is verified against the contract of its components, leaves discharge it directly",
]


def evidence(prop, tier, seed, t0, obligations, discharged, by_harness, funcs, covers, st, undecided, bounded, notrun, nstats, crashed, refuted, fail, engine, njobs, lines):
    try:
        from pyvc import models as M

        trusted = list(M.TRUSTED) + [t for pre, t in BY_HARNESS if any(h.startswith(pre) for h in by_harness)]
    except Exception:
        trusted = []
    cov = {
        "obligations": obligations, "discharged": discharged,
        "checker_cmd": f"{PY} check.py {prop} {tier}  (pyvc verification conditions, back end z3 4.x python API, cvc5 1.1.2 on unknown)",
        "trusted_base": ["pyvc (this repository's VC generator and its models of the builtins)", "z3", "cvc5"] + trusted,
        "jobs": njobs, "jobs_not_run": notrun, "by_harness": by_harness,
        "functions_under_contract": sorted(funcs), "paths": st["paths"], "solver_queries": st["checks"],
        "solver_time_s": round(st["stime"], 2), "decided_by_cvc5": st["cvc5"], "loops_with_inferred_invariants": st["loops"],
        "reachability_covers": len(covers),
        "open_obligations": [f"{x[1]}: {x[2]}"[:300] for x in undecided[:50]], "open_count": len(undecided),
        "bounded_standins": bounded[:50],
        "native_search": {"label": "bounded (sampled), not counted as proved", "evaluations": sum(s["evaluations"] for s in nstats),
                          "enumerated": sum(s["enumerated"] for s in nstats), "laws": merge([s["laws"] for s in nstats]), "crashed_workers": len(crashed)},
    }
    if engine["error"]:
        cov["engine_error"] = engine["error"][-1000:]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": LEVELS.get(prop, "proof"), "coverage": cov,
          "assumptions": ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": len(lines)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", f".{prop}.tmp")
    with open(tmp, "w") as fh:
        json.dump(ev, fh, indent=1, sort_keys=True)
    os.replace(tmp, os.path.join(HERE, "evidence", f"{prop}.json"))


LEVELS = {}

BY_HARNESS = [
    ("type", "parsimonious: matching follows PEG semantics over the live expression objects of the grammar; NodeVisitor visits bottom-up and wraps exceptions"),
    ("type", "re: alternations of words between \\b, and character classes with quantifiers, as documented"),
    ("strategy", "hypothesis: integers/decimals/binary/text/lists/tuples/booleans and .map generate only values within their documented arguments"),
    ("compound", "components of compound coders: the coder interface contract (discharged by the leaf harnesses for basic types, by the compound harnesses for nested ones, assumed for custom coders)"),
    ("codec", "registry lookups of the codec: by contract (discharged by the registry harnesses)"),
    ("registry", "grammar.parse inside registry lookups: a type or a ParseError, a function of the string (discharged by the type harnesses)"),
    ("registry", "functools.lru_cache: memoises per argument tuple until cache_clear; copy.copy / deepcopy"),
]


def merge(ds):
    out = {}
    for d in ds:
        for k, v in d.items():
            out[k] = out.get(k, 0) + v
    return out


if __name__ == "__main__":
    rc = reexec()
    if rc is None:
        rc = main()
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(rc)  # nothing left behind in a queue may hold up the end
    sys.exit(rc)
