"""Helpers to write a planted bug under /verif/seeded (never used by the checks)."""
import json, os, subprocess
REPO, SEEDED = os.environ.get("VF_REPO", "/repo"), os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")

DEMO = """#!/bin/bash
# exit 0 when the property holds, nonzero when it does not; run in /repo after the build
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
lib=$repo/_build/lib
g++ -std=c++17 -O1 -pthread -I"$repo/src" -I"$repo/_build/src" @FLAGS@ "$here/demo.cc" -o "$work/demo" -L"$lib" @LIBS@ -Wl,-rpath,"$lib" || exit 3
cd "$work" || exit 3
export ECKIT_HOME=$repo/_build
timeout 120 ./demo "$work"
"""

def plant(id, prop, edits, needs, breaks, demo, libs="-leckit", flags=""):
    d = os.path.join(SEEDED, id)
    os.makedirs(d, exist_ok=True)
    assert not subprocess.check_output(["git", "-C", REPO, "status", "--porcelain"]).strip(), "repo not clean"
    try:
        for f, old, new in edits:
            p = os.path.join(REPO, "src/eckit", f)
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", REPO, "diff"], text=True)
    finally:
        subprocess.check_call(["git", "-C", REPO, "checkout", "-q", "--", "."])
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.cc", "w").write(demo)
    open(d + "/demo.sh", "w").write(DEMO.replace("@LIBS@", libs).replace("@FLAGS@", flags))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    print("planted", id)
