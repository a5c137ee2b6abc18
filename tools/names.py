"""Writes sa/names.json: the names of /repo's classes and modules and how they are used (see sa/names.py)."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from sa import names
from sa.program import Program
p = Program(raw=True)
with open(names.FILE, "w") as fd: json.dump(names.snapshot({m.name: m.tree for m in p.modules.values()}), fd, sort_keys=True, separators=(",", ":")); fd.write("\n")
print(os.path.getsize(names.FILE))
