#!/usr/bin/env python3
"""selftest/run.py [NAME-REGEX]: apply every edit listed in selftest/edits/*.py to a scratch copy of /repo and compare
what the checks say with what the edit is meant to be: `fires` lists the checks that must report it (breaking edits),
everything else must stay quiet (all checks, for edits with an empty `fires`).  Development aid; no check uses it."""
import glob
import os
import re
import shutil
import subprocess
import sys
import importlib.util

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
W = os.environ.get("ND_SELF", "/tmp/ndself")
REPO = W + "/repo"
FACTS = W + "/facts"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def edits():
    out = []
    for p in sorted(glob.glob(HERE + "/edits/*.py")):
        spec = importlib.util.spec_from_file_location("e", p)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        out += [(os.path.basename(p)[:-3] + "/" + e[0],) + tuple(e[1:]) for e in m.EDITS]
    return out


def main():
    pat = re.compile(sys.argv[1] if len(sys.argv) > 1 else "")
    only = sys.argv[2].split(",") if len(sys.argv) > 2 else None
    os.makedirs(W, exist_ok=True)
    sh("rsync -a --delete --exclude target --exclude .git /repo/ %s/ || (rm -rf %s; cp -a /repo %s)" % (REPO, REPO, REPO))
    ids = sorted(os.path.basename(p)[:-3].upper() for p in glob.glob(VERIF + "/rules/c[0-9]*.py"))
    bad = 0
    for name, changes, fires in edits():
        fires = ids if fires is None else fires         # None: either answer will do
        if not pat.search(name):
            continue
        ok = True
        for f, old, new in changes:
            p = os.path.join(REPO, f)
            s = open(p).read()
            if s.count(old) < 1:
                print("%-50s EDIT DOES NOT APPLY %s: %r" % (name, f, old[:60]))
                ok = False
                break
            s = s.replace(old, new, 1)
            open(p, "w").write(s)
        if ok:
            r = sh("ND_REPO=%s ND_DRIVER_TARGET=/tmp/drv bash %s/lib/facts.sh %s" % (REPO, VERIF, FACTS))
            if r.returncode:
                print("%-50s DOES NOT BUILD\n%s" % (name, r.stdout[-1500:]))
            else:
                procs = {}
                want = [x for x in ids if only is None or x in only]
                for x in want:
                    procs[x] = subprocess.Popen(["python3", VERIF + "/check.py", x], env=dict(os.environ, ND_FACTS=FACTS, ND_EVIDENCE=W + "/ev"),
                                                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                got = {}
                for x, pr in procs.items():
                    o, _ = pr.communicate()
                    got[x] = (pr.returncode, o)
                fired = [x for x in want if got[x][0] != 0]
                exp = [x for x in fires if x in want]
                missed = [x for x in exp if x not in fired and fires is not ids]
                extra = [x for x in fired if x not in fires]
                st = "ok" if not missed and not (extra and not fires) else "FAIL"
                if st == "FAIL":
                    bad += 1
                print("%-50s %-5s fired=%s%s%s" % (name, st, ",".join(fired) or "-", " MISSED=" + ",".join(missed) if missed else "", " also=" + ",".join(extra) if extra else ""))
                if st == "FAIL" or os.environ.get("SHOW"):
                    for x in fired:
                        print("      " + "\n      ".join(got[x][1].strip().splitlines()[:6]))
        for f, _, _ in changes:
            shutil.copy(os.path.join("/repo", f), os.path.join(REPO, f))
    print("failures: %d" % bad)


main()
