#!/usr/bin/env python3
"""replay.py <ID> <entry> <values file> [--native]: run one harness entry of property <ID> concretely on the inputs of a replay file
(built from /repo's current sources; --native uses g++ without instrumentation). Exit 0: no violation."""
import sys, os, json, subprocess, shutil, glob, check
pid, entry, values = sys.argv[1:4]
d = os.path.join(check.V, "props", pid); conf = json.load(open(d + "/conf.json")); conf["dir"] = d
conf.setdefault("harness", sorted(os.path.basename(p) for p in glob.glob(d + "/*.cpp")))
run = os.path.join(check.V, "build", "replay-%d" % os.getpid()); os.makedirs(run)
try:
    exe, err = check.compile_all(conf, run, check.build_engine(), "native" if "--native" in sys.argv else "sym")
    if err: print(err); sys.exit(2)
    rc = subprocess.run(["setarch", "-R", exe, "--entry", entry, "--replay", os.path.abspath(values)]).returncode
    print("exit", rc)
finally: shutil.rmtree(run, ignore_errors=True)
sys.exit(0 if rc in (0, 3) else 1)
