#!/bin/bash
# selftest/one.sh NAME: leave the facts of one edit in /tmp/ndone/facts (for debugging a rule)
python3 - "$1" <<'P'
import sys,importlib.util,glob,os,shutil,subprocess
n=sys.argv[1]
subprocess.run("mkdir -p /tmp/ndone; rsync -a --delete --exclude target --exclude .git /repo/ /tmp/ndone/repo/ 2>/dev/null || (rm -rf /tmp/ndone/repo; cp -a /repo /tmp/ndone/repo)",shell=True)
f,e=n.split("/")
spec=importlib.util.spec_from_file_location("e","/verif/selftest/edits/%s.py"%f);m=importlib.util.module_from_spec(spec);spec.loader.exec_module(m)
for x in m.EDITS:
    if x[0]==e:
        for f,o,w in x[1]:
            p="/tmp/ndone/repo/"+f;s=open(p).read();assert o in s;open(p,"w").write(s.replace(o,w,1))
P
ND_REPO=/tmp/ndone/repo ND_DRIVER_TARGET=/tmp/drv bash /verif/lib/facts.sh /tmp/ndone/facts
