#!/usr/bin/env python3
"""run.py PROPERTY [--thorough] [--replay FILE] [--case SUITE IDX] ...: build the property's harness from /repo's current
tree and run it.  Exit code: 0 held, 1 violation, anything else: no answer."""
import os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import build
FLAV = {"C19": ["--flavour", "big"], "C11": ["--flavour", "sched"], "C12": ["--flavour", "sched"], "C13": ["--pinvoke"]}
def main():
    prop = sys.argv[1].upper()
    cmd = [sys.executable, os.path.join(here, "build.py"), prop.lower()] + FLAV.get(prop, [])
    r = subprocess.run(cmd, stdout=subprocess.PIPE, text=True)
    if r.returncode:
        print("NO ANSWER: the harness for %s does not build" % prop)
        return 3
    exe = r.stdout.strip().splitlines()[-1]
    env = dict(os.environ)
    env.setdefault("VERIF_DIR", os.path.dirname(here))
    os.execve(exe, [exe] + sys.argv[2:], env)
sys.exit(main())
