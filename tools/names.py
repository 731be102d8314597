"""writes sa/names.json: the methods of all classes (to follow a rename) and the functions of all modules"""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa.project import Project      # noqa: E402
p = Project('/repo')
out = {c.qual: {n: len(f.node.args.args) for n, f in sorted(c.methods.items(), key=lambda x: x[1].node.lineno)} for c in p.classes.values()}
for c in p.classes.values():
    out[c.qual].update({n: 0 for n in c.props if n not in out[c.qual]})
for m in p.mods.values():
    out[m.name] = {n: 0 for n, b in sorted(m.names.items()) if b[0] == 'func'}
json.dump(out, open(os.path.join(HERE, 'sa', 'names.json'), 'w'), indent=0)
