import json, os, shutil, subprocess, sys, tempfile
S = "/verif/seeded"
DEMO_SH = '''#!/bin/bash
# Compiles demo.cpp against the tree in the current directory and runs it.
set -e
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
for s in $(find src -name '*.cpp'); do echo "$s"; done | xargs -P 8 -I{} sh -c 'g++ -std=gnu++17 -include cstdint %(flags)s -w -Iincludes -c {} -o "$0/$(echo {} | tr / _).o"' "$d" &
g++ -std=gnu++17 -include cstdint %(flags)s -w -Iincludes -c "$here/demo.cpp" -o "$d/demo.o"
wait
g++ %(flags)s -Wl,--allow-multiple-definition "$d/demo.o" "$d"/src_*.o -o "$d/demo" -lgmpxx -lgmp -lcrypto -lpthread
timeout 250 "$d/demo"
'''
def bug(id, prop, needs, breaks, edits, demo, flags="-O1"):
    if len(sys.argv) > 1 and id not in sys.argv[1:]: return
    t = tempfile.mkdtemp(prefix="gen-")
    subprocess.run(["git", "clone", "-q", "/repo", t + "/r"], check=True)
    for f, old, new in edits:
        p = t + "/r/" + f
        s = open(p, newline="").read()
        assert s.count(old) == 1, (id, f, old, s.count(old))
        open(p, "w", newline="").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", t + "/r", "diff"], capture_output=True, text=True).stdout
    # every removed or neighbouring line must be an original one: at least one changed line from the base commit
    d = os.path.join(S, id); os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.cpp", "w").write(demo.lstrip("\n"))
    open(d + "/demo.sh", "w").write(DEMO_SH % {"flags": flags})
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(t)
    print("wrote", id)
FT = "includes/field_template.hpp"; ET = "includes/ecc_template.hpp"
H = os.path.dirname(os.path.abspath(__file__))
for f in ("bugs.py", "bugs2.py", "bugs3.py", "bugs4.py", "bugs5.py", "bugs6.py"):
    exec(open(os.path.join(H, f)).read())
