"""mkseed.py SPEC.py: build seeded/<id>/ from a spec file defining ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO.

The change is made in a scratch copy of /repo under /tmp, diffed, and removed again."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = {}
exec(open(sys.argv[1]).read(), spec)
tmp = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
try:
    work = os.path.join(tmp, "repo")
    subprocess.check_call(["git", "clone", "-q", "/repo", work])
    for path, old, new in spec["EDITS"]:
        p = os.path.join(work, path)
        s = open(p).read()
        assert s.count(old) == 1, (path, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", work, "diff"], text=True)
    out = os.path.join(ROOT, "seeded", spec["ID"])
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    open(os.path.join(out, "demo.py"), "w").write(spec["DEMO"].lstrip("\n"))
    open(os.path.join(out, "demo.sh"), "w").write(
        '#!/bin/bash\n. /opt/vp/env.sh\nexec python "$(dirname "$0")/demo.py"\n')
    json.dump(dict(property=spec["PROPERTY"], needs=spec["NEEDS"], what_it_breaks=spec["BREAKS"]),
              open(os.path.join(out, "meta.json"), "w"), indent=1)
finally:
    shutil.rmtree(tmp)
print(spec["ID"])
