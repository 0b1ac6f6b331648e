"""mkseed.py SPEC.py: create a seeded bug directory from a description file.

The file defines ID, PROP, FILE, EDITS [(old, new)...], NEEDS, WHAT, DEMO."""
import difflib, json, os, sys
for f in sys.argv[1:]:
    g = {}
    exec(open(f).read(), g)
    path = os.path.join('/repo', g['FILE'])
    a = open(path).read()
    b = a
    for old, new in g['EDITS']:
        assert b.count(old) == 1, (f, b.count(old), old)
        b = b.replace(old, new)
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'seeded', g['ID'])
    os.makedirs(d, exist_ok=True)
    diff = ''.join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), 'a/' + g['FILE'], 'b/' + g['FILE']))
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.py', 'w').write("import sys\nsys.dont_write_bytecode = True\nsys.path.insert(0, 'poc')\n" + g['DEMO'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write('#!/bin/sh\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': g['PROP'], 'needs': g['NEEDS'], 'what_it_breaks': g['WHAT']}, open(d + '/meta.json', 'w'), indent=1)
    print(d)
