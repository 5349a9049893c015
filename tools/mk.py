"""make(id, property, [(file, old, new)...], needs, breaks): writes
seeded/<id>/patch.diff and meta.json from replacements in /repo (which is left
as it is)."""
import os, json, subprocess, shutil
DEMO = '''#!/bin/bash
# compiles demo.cpp against /repo and runs it
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
g++ -std=c++17 -O1 -I"$PWD" "$here/demo.cpp" -o "$out/demo" -lpthread || exit 2
"$out/demo"
'''


def make(id, prop, reps, needs, breaks, demo=None, sh=DEMO):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    new = {}
    for f, a, b in reps:
        s = new.get(f) or open("/repo/" + f).read()
        assert s.count(a) == 1, (id, f, s.count(a), a)
        new[f] = s.replace(a, b)
    diff = ""
    for f, s in new.items():
        os.makedirs("/tmp/mk/" + os.path.dirname(f), exist_ok=True)
        open("/tmp/mk/" + f, "w").write(s)
        diff += subprocess.run(["diff", "-u", "--label", "a/" + f, "--label", "b/" + f,
                                "/repo/" + f, "/tmp/mk/" + f], stdout=subprocess.PIPE,
                               text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks),
              open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.sh", "w").write(sh)
    os.chmod(d + "/demo.sh", 0o755)
    if demo:
        open(d + "/demo.cpp", "w").write(demo)
