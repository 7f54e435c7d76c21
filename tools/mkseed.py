#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from a seed description (see tools/seeds/*.py); never used by the checks.
usage: mkseed.py FILE.py [id...]
Each description file calls seed(id, property, file, [(old, new[, count])], demo_go_source, needs, what)."""
import json, os, subprocess, sys, shutil
W = "/tmp/seedwork/repo"
only = sys.argv[2:]

def sh(cmd, cwd=None, timeout=600):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout)

def seed(id, prop, edits, demo, needs, what, race=False):
    if only and id not in only:
        return
    subprocess.run(["rm", "-rf", "/tmp/seedwork/repo"]); subprocess.run(["cp", "-a", "/repo", W])
    for e in edits:
        f, a, b = e[0], e[1], e[2]
        n = e[3] if len(e) > 3 else 1
        p = os.path.join(W, f); s = open(p).read()
        if a not in s:
            print(id, "PATTERN MISSING in", f); return
        open(p, "w").write(s.replace(a, b, n) if n > 0 else s.replace(a, b))
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    diff = sh(["git", "diff"], cwd=W).stdout
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo_test.go", "w").write(demo)
    open(d + "/demo.sh", "w").write("""#!/bin/bash
# fails (non-zero exit) if %s
d=$(cd "$(dirname "$0")" && pwd)
t=/tmp/verifdemo-%s
mkdir -p "$t"
echo "{\\"Replace\\": {\\"$PWD/verifdemo/demo_test.go\\": \\"$d/demo_test.go\\"}}" > "$t/ov.json"
go test -overlay "$t/ov.json" -c -vet=off%s -o "$t/demo.test" ./verifdemo || exit 2
(cd "$t" && ./demo.test -test.v -test.timeout 200s)
rc=$?
rm -rf /tmp/verifdemo-%s
exit $rc
""" % (what.replace("\n", " "), id, " -race" if race else "", id))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + "/meta.json", "w"), indent=1)
    # confirm
    r0 = sh([d + "/demo.sh"], cwd="/repo")
    b = sh(["go", "build", "./..."], cwd=W)
    r1 = sh([d + "/demo.sh"], cwd=W)
    t = sh(["go", "test", "./..."], cwd=W)
    ok = r0.returncode == 0 and b.returncode == 0 and r1.returncode != 0 and t.returncode == 0
    print(id, prop, "OK" if ok else "BAD", "clean", r0.returncode, "build", b.returncode, "patched", r1.returncode, "tests", t.returncode, flush=True)
    if not ok:
        print((r0.stdout if r0.returncode else r1.stdout)[-800:], b.stderr[-500:], t.stdout[-800:] if t.returncode else "")

exec(open(sys.argv[1]).read())
subprocess.run(["rm", "-rf", "/tmp/seedwork/repo"])
