"""Write seeded/<id>/ from a definition file: mkseed.py FILE.py ... ; each defines ID, PROP, EDITS, NEEDS, BREAKS, DEMO.
EDITS: list of (path, old, new); DEMO: python source, run with cwd /repo (must raise / exit nonzero iff the bug is there)."""
import difflib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for fn in sys.argv[1:]:
    ns = {}
    exec(open(fn).read(), ns)
    d = os.path.join(ROOT, 'seeded', ns['ID'])
    os.makedirs(d, exist_ok=True)
    out = ''
    files = {}
    for path, old, new in ns['EDITS']:
        src = files.get(path) or open('/repo/' + path).read()
        orig = files.setdefault(path, src)
        assert src.count(old) == 1, (path, src.count(old), old)
        files[path] = src.replace(old, new)
    for path, new in files.items():
        a = open('/repo/' + path).read().splitlines(True)
        out += f'diff --git a/{path} b/{path}\n' + ''.join(difflib.unified_diff(a, new.splitlines(True), 'a/' + path, 'b/' + path))
    open(d + '/patch.diff', 'w').write(out)
    open(d + '/demo.py', 'w').write(
        'import os, sys\nsys.path.insert(0, os.getcwd())\nsys.dont_write_bytecode = True\nimport sampo.scheduler\n' + ns['DEMO'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport MPLBACKEND=Agg MPLCONFIGDIR=$(mktemp -d) PYTHONWARNINGS=ignore\n'
                                    '/opt/venv/bin/python "$(dirname "$0")/demo.py"\nrc=$?\nrm -rf "$MPLCONFIGDIR"\nexit $rc\n')
    json.dump(dict(property=ns['PROP'], needs=ns['NEEDS'], what_it_breaks=ns['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
    print(ns['ID'])
