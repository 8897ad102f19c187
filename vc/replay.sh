#!/bin/bash
# replay.sh FILE : compile a replay program against /repo's current tree and run it
f=$(realpath "$1"); cd "$(dirname "$0")" && exec python3-vt - "$f" <<'P'
import sys, tempfile, shutil, subprocess
sys.path.insert(0, ".")
import build
w = tempfile.mkdtemp(prefix="vc-replay-")
try:
    d = build.Deps(w)
    ok, errs = d.binary(sys.argv[1], w + "/r")
    if not ok:
        print("does not compile:")
        for e in errs:
            print(e.get("rendered") or e["message"])
        sys.exit(1)
    print("compiles")
    sys.exit(subprocess.run([w + "/r"]).returncode)
finally:
    shutil.rmtree(w, ignore_errors=True)
P
