#!/usr/bin/env python3
"""Developer regression: apply small edits to scratch copies of /repo and see what the checks say.
usage: mut.py FILE.py [name-substring]    (FILE.py defines MUTS = [(name, expect, edits, checks)])
edits: [(file, old, new)]; expect: list of property ids that must report, [] = all must stay quiet.
Each worker has its own scratch clone and build directory under /tmp/w/mutN."""
import os, subprocess, sys, shutil, importlib.util
from concurrent.futures import ThreadPoolExecutor
import threading, queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = int(os.environ.get("MUT_WORKERS", "6"))


def sh(cmd, env=None, cwd=None):
    p = subprocess.run(cmd, shell=isinstance(cmd, str), env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def main():
    spec = importlib.util.spec_from_file_location("m", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    muts = [x for x in m.MUTS if len(sys.argv) < 3 or sys.argv[2] in x[0]]
    if os.environ.get("MUT_ALL"):
        # every check must stay quiet on the edits that keep the behaviour
        sys.path.insert(0, VERIF + "/analyzer")
        import checks as reg
        pick = os.environ["MUT_ALL"].split(",") if os.environ["MUT_ALL"] != "1" else sorted(reg.REG)
        muts = [(n, e, ed, pick) for n, e, ed, c in muts if not e]
    # the checks as they are now: editing /verif does not disturb a run
    snap = os.environ.get("MUT_DIR", "/tmp/w/mut") + "-snap"
    shutil.rmtree(snap, ignore_errors=True)
    os.makedirs(snap)
    for f in ("check.py", "known_findings.txt"):
        shutil.copy(os.path.join(VERIF, f), snap)
    for f in ("analyzer", "driver"):
        shutil.copytree(os.path.join(VERIF, f), os.path.join(snap, f), ignore=shutil.ignore_patterns("target", "__pycache__"))
    slots = queue.Queue()
    for i in range(W):
        slots.put(i)
    head = sh("git -C /repo rev-parse HEAD")[1].strip()

    def job(x):
        name, expect, edits, checks = x
        i = slots.get()
        try:
            d = os.environ.get("MUT_DIR", "/tmp/w/mut") + "%d" % i
            r = d + "/repo"
            os.makedirs(d, exist_ok=True)
            if not os.path.exists(r):
                sh(["git", "clone", "-q", "/repo", r])
                shutil.copy("/repo/Cargo.lock", r)
            sh("git checkout -q -- . ; git fetch -q; git reset -q --hard " + head, cwd=r)
            for f, old, new in edits:
                p = os.path.join(r, f)
                s = open(p).read()
                if callable(old):
                    s2 = old(s)
                else:
                    if old not in s:
                        return name, "EDIT-FAILED " + f + ": " + old[:60], ""
                    s2 = s.replace(old, new, 1) if new is not None else s
                open(p, "w").write(s2)
            env = dict(os.environ, BSP_REPO=r, BSP_BUILD=d + "/build", BSP_EVIDENCE=d + "/ev")
            out = []
            rep = []
            bad = []
            for c in checks:
                rc, o = sh([sys.executable, snap + "/check.py", c], env=env)
                if rc == 1:
                    rep.append(c)
                elif rc != 0:
                    bad.append(c + ":rc%d" % rc)
                if rc:
                    out += [l[:200] for l in o.splitlines() if not l.startswith("VIOLATION") and not l.startswith(c + ":")][:3]
            good = (bool(set(rep) & set(expect)) if expect else not rep) and not bad
            return name, ("ok " if good else "BAD") + " expect=%s reported=%s %s" % (",".join(expect) or "-", ",".join(rep) or "-", " ".join(bad)), "\n      ".join(out)
        finally:
            slots.put(i)
    v = os.environ.get("MUT_VERBOSE")
    nb = 0
    with ThreadPoolExecutor(W) as ex:
        for name, res, out in ex.map(job, muts):
            b = not res.startswith("ok")
            nb += b
            print("%-44s %s" % (name, res))
            if (b or v) and out and nb < 30:
                print("      " + out)
    print("%d mutants, %d not as expected" % (len(muts), nb))


main()
