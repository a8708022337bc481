#!/usr/bin/env python3
"""check.py ID [args]: builds the check of a property and runs it."""
import os
import shutil
import subprocess
import sys

import build

ROOT = build.ROOT
os.chdir(ROOT)
pid = sys.argv[1]
cfg = build.load()[pid]
os.makedirs("evidence", exist_ok=True)
ev = os.path.join(ROOT, "evidence", pid + ".json")
if "--replay" not in sys.argv:
    try:
        os.unlink(ev)
    except OSError:
        pass
with build.lock():
    exe = build.build(pid, cfg)
if exe is None:
    print("[%s] the check does not build against /repo's working tree" % pid)
    sys.exit(2)
tmp = os.path.join("/tmp", "verif.%s.%d" % (pid, os.getpid()))
os.makedirs(tmp)
env = dict(os.environ, GLIBC_TUNABLES="glibc.malloc.hugetlb=1", PBT_TMP=tmp, PBT_REPO=build.REPO, PBT_ROOT=ROOT)
try:
    r = subprocess.run([exe, "--evidence", ev, "--replays",
                        os.path.join(ROOT, "replays")] + sys.argv[2:],
                       env=env, cwd=tmp)
    rc = r.returncode
finally:
    shutil.rmtree(tmp, ignore_errors=True)
sys.exit(rc if rc in (0, 1) else 2)
