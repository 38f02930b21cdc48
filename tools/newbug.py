#!/usr/bin/env python3
"""newbug.py: development helper. Called with a python file defining BUGS = {id: dict(property, file, old, new, needs, breaks, main[, kind])}.
Writes seeded/<id>/ (patch.diff against /repo's HEAD, demo.sh, main.rs, meta.json)."""
import sys, os, json, subprocess, shutil, tempfile, importlib.util
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sp = importlib.util.spec_from_file_location('bugs', sys.argv[1]); mod = importlib.util.module_from_spec(sp); sp.loader.exec_module(mod)
only = sys.argv[2:]
for id, b in mod.BUGS.items():
    if only and id not in only:
        continue
    d = os.path.join(ROOT, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    edits = b['edits'] if 'edits' in b else [(b['file'], b['old'], b['new'])]
    tmp = tempfile.mkdtemp()
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', tmp + '/w', 'HEAD'])
    try:
        for f, old, new in edits:
            p = os.path.join(tmp, 'w', f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', '-C', tmp + '/w', 'diff'])
        assert diff
        open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
    finally:
        subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', tmp + '/w'])
        shutil.rmtree(tmp, ignore_errors=True)
    shutil.copy(os.path.join(ROOT, 'tools', 'demo_%s.sh' % b.get('kind', 'proto')), os.path.join(d, 'demo.sh'))
    if b.get('kind') == 'client':
        shutil.copy(os.path.join(ROOT, 'oracle', 'src', 'rig.rs'), os.path.join(d, 'rig.rs'))
    open(os.path.join(d, 'main.rs'), 'w').write(b['main'].strip() + '\n')
    json.dump(dict(property=b['property'], needs=' '.join(b['needs'].split()), what_it_breaks=' '.join(b['breaks'].split())), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    print(id)
