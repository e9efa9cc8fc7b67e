#!/usr/bin/env python3
"""uc.py OUT DEP SRC... -- COMMAND: compile several repository sources as one translation unit (each shared header is
parsed once); when they do not go together, compile them one by one and join the objects."""
import subprocess
import sys
i = sys.argv.index("--")
out, dep, srcs, cmd = sys.argv[1], sys.argv[2], sys.argv[3:i], sys.argv[i + 1:]
u = out + ".cpp"
with open(u, "w") as f:
    f.write("".join(f'#include "{s}"\n' for s in srcs))
r = subprocess.run(cmd + ["-MD", "-MF", dep, "-c", u, "-o", out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
if r.returncode == 0:
    sys.exit(0)
objs, deps = [], set()
for k, s in enumerate(srcs):
    o = f"{out}.{k}.o"
    r = subprocess.run(cmd + ["-MD", "-MF", o + ".d", "-c", s, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout)
        sys.exit(1)
    objs.append(o)
    deps.update(open(o + ".d").read().replace("\\\n", " ").split(":", 1)[1].split())
with open(dep, "w") as f:
    f.write(out + ": " + " ".join(sorted(deps)) + "\n")
print("note: compiled separately:", *srcs)
sys.exit(subprocess.run(["ld", "-r", "-o", out] + objs).returncode)
