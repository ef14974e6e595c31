"""Runs every job of every harness once, for all properties together, and lists what is not
discharged:  sweep.py [filter]   (development aid; check.py is what decides)."""
import json, os, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from concurrent.futures import ProcessPoolExecutor, as_completed
from harness import allh, base  # noqa: F401


def one(a):
    import signal

    def on(sig, frm):
        raise base.Unsupported("timeout")

    signal.signal(signal.SIGALRM, on)
    signal.alarm(200)
    try:
        return a, base.execute(a[0], a[1], None)
    finally:
        signal.alarm(0)


def main():
    flt = sys.argv[1] if len(sys.argv) > 1 else ""
    jobs = {}
    for name, h in base.REG.items():
        if flt and flt not in name:
            continue
        for prop in sorted(h.props):
            for p in h.jobs("quick", prop):
                jobs[(name, json.dumps(p, sort_keys=True))] = (name, p)
    t0 = time.time()
    n = ok = 0
    with ProcessPoolExecutor(8) as ex:
        for f in as_completed([ex.submit(one, a) for a in jobs.values()]):
            try:
                a, r = f.result()
            except BaseException as e:
                print("CRASH", e)
                continue
            n += len(r["obl"])
            bad = {k: o["bad"][:1] for k, o in r["obl"].items() if o["bad"]}
            ok += len(r["obl"]) - len(bad)
            if r["err"]:
                print("ERR", a[0], json.dumps(a[1])[:100], r["err"][:300])
            no = {k: b for k, b in bad.items() if b[0][0] == "no"}
            if no:
                print("REFUTED", a[0], json.dumps(a[1])[:100], str(no)[:400])
            elif bad:
                print("OPEN", a[0], json.dumps(a[1])[:100], str(bad)[:300])
            sys.stdout.flush()
    print(f"{len(jobs)} jobs, {ok}/{n} discharged, {time.time() - t0:.0f} s")


main()
