#!/usr/bin/env python3
"""replay.py FILE: rebuilds the simulator and replays a recorded violation (exit 1 if it shows)."""
import os, subprocess, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import simbuild
from simconf import CONF
prop = [l.split()[1] for l in open(sys.argv[1]) if l.startswith("prop ")]
exe = simbuild.build(os.environ.get("VERIF_BUILD", os.path.join(simbuild.HERE, "build")), CONF.get(prop[0], {}).get("flavour", "") if prop else "")
os.environ["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=0"
for l in open(sys.argv[1]):
    if l.startswith("args "):
        sys.exit(subprocess.call([exe] + l.split()[1:]))
sys.exit(subprocess.call([exe, "replay", sys.argv[1]] + sys.argv[2:]))
