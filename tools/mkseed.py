"""Build and confirm planted bugs:  mkseed.py DEFS.py [ID...]

DEFS.py defines SEEDS = {id: dict(property, edits=[(file, old, new)], demo, needs, breaks)}.
Each is applied to a scratch copy of /repo, the tests are run there, the demo is run with and
without it, and it is kept in /verif/seeded/<id> only if it counts.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile
import xml.etree.ElementTree as ET

OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
ADDED = None


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def tests(copy, work):
    env = dict(os.environ, PYTHONPATH=copy, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", HYPOTHESIS_STORAGE_DIRECTORY=work + "/hyp", LANG="C.UTF-8")
    x = work + "/junit.xml"
    subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "vp_hypothesis_profile", "-n", os.environ.get("SEEDN", "4"),
                    "--timeout=120", "--continue-on-collection-errors", "--doctest-glob=*.rst",
                    "-o", "doctest_optionflags=DONT_ACCEPT_TRUE_FOR_1 ELLIPSIS IGNORE_EXCEPTION_DETAIL NORMALIZE_WHITESPACE",
                    "-o", "junit_family=xunit2", "--junitxml=" + x, "tests", "docs"], cwd=copy, env=env, capture_output=True, timeout=900)
    sh(f"/opt/venv/bin/python /opt/vp/results.py {work}/o.json junit:{x}", cwd=copy)
    o = json.load(open(work + "/o.json"))
    return [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in set(o.get("passed", []))]


def one(i, d):
    work = tempfile.mkdtemp(prefix="seed_")
    copy = work + "/repo"
    dst = os.path.join(OUT, i)
    try:
        sh(f"cp -a /repo {copy} && git -C {copy} checkout -q -- .")
        for fn, old, new in d["edits"]:
            p = os.path.join(copy, fn)
            s = open(p).read()
            assert s.count(old) == 1, (i, fn, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh(f"git -C {copy} diff").stdout
        mine = [l for l in sh(f"git -C {copy} diff c297f91 HEAD").stdout.splitlines() if l.startswith("+") and not l.startswith("+++")]
        orig = [l for l in diff.splitlines() if l.startswith("-") and not l.startswith("---") and "+" + l[1:] not in mine]
        os.makedirs(dst, exist_ok=True)
        open(os.path.join(dst, "demo.py"), "w").write(d["demo"].strip() + "\n")
        open(os.path.join(dst, "demo.sh"), "w").write(
            '#!/bin/bash\n# exit 0: the property holds on this input; nonzero: it is broken\nexport PYTHONDONTWRITEBYTECODE=1\n'
            'exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        os.chmod(os.path.join(dst, "demo.sh"), 0o755)
        open(os.path.join(dst, "patch.diff"), "w").write(diff)
        json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(os.path.join(dst, "meta.json"), "w"), indent=1)
        env = dict(os.environ, PYTHONPATH=copy)
        demo = sh(f"bash {dst}/demo.sh", cwd=copy, timeout=300, env=env)
        base = sh(f"bash {dst}/demo.sh", cwd="/repo", timeout=300)
        failed = tests(copy, work)
        good = demo.returncode != 0 and base.returncode == 0 and not failed
        print(i, d["property"], "OK" if good else "BAD", f"demo {demo.returncode}/{base.returncode} tests failed {len(failed)} original lines changed {len(orig)}", flush=True)
        if not good:
            print("   ", failed[:3], base.stderr[-300:], demo.stdout[-200:], flush=True)
            shutil.rmtree(dst)
        return good
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    defs = runpy.run_path(sys.argv[1])["SEEDS"]
    for i in sys.argv[2:] or list(defs):
        one(i, defs[i])


main()
