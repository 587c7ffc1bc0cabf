"""Try a textual mutation: trymut.py ID FILE OLD NEW [count-th]  (scratch copy under /tmp)."""
import os
import shutil
import subprocess
import sys
import tempfile

pid, f, old, new = sys.argv[1:5]
d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
shutil.copytree("/repo/properimage", d + "/properimage")
p = f"{d}/properimage/{f}"
s = open(p).read()
old, new = old.encode().decode("unicode_escape"), new.encode().decode("unicode_escape")
if s.count(old) < 1:
    print("NOT FOUND"); sys.exit(3)
i = int(sys.argv[5]) if len(sys.argv) > 5 else 0
parts = s.split(old)
s = old.join(parts[:i + 1]) + new + old.join(parts[i + 1:])
open(p, "w").write(s)
r = subprocess.run(["/verif/bin/check", pid], env=dict(os.environ, PIMV_REPO=d), capture_output=True, text=True)
out = r.stdout.strip().splitlines()
print(f"rc={r.returncode} {old[:40]!r}->{new[:40]!r}:", " | ".join(x[:120] for x in out[:2] + out[-1:]))
shutil.rmtree(d)
