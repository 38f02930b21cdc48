#!/usr/bin/env python3
"""refac/run.py [ids]: development helper. Applies each behaviour-preserving edit of refs.py to a scratch copy of /repo,
runs the stable tests and the checks of the modules it touches, and prints what each check said (no check may raise an alarm)."""
import sys, os, re, subprocess, tempfile, shutil, json
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(os.path.dirname(HERE))
sys.path.insert(0, HERE); sys.path.insert(0, ROOT)
import refs
from queue import Queue
J = int(os.environ.get("J", "2"))
builds = Queue()
for i in range(J): builds.put('/tmp/refac_build%d' % i)
P = 'socket-io-protocol/src/'; C = 'socket-io-client/src/'
# every check that verifies a function of the file
def checks():
    from vlib import props
    f = {'owned_subslice': 'owned_subslice/src/lib.rs', 'socket_io_protocol::engine': P+'engine.rs', 'socket_io_protocol::socket': P+'socket/mod.rs', 'socket_io_protocol::socket::de': P+'socket/de.rs',
         'socket_io_protocol::socket::ser': P+'socket/ser.rs', 'socket_io_protocol::socket::args': P+'socket/args/mod.rs', 'socket_io_client': C+'lib.rs'}
    out = {}
    for p, c in props.PROPS.items():
        for m in c['verify']:
            last = m.split('::')[-1]
            path = f.get(m) or (P+'socket/args/'+last+'.rs' if 'attachments' in last else C+last+'.rs')
            out.setdefault(path, []).append(p)
    return {k: ' '.join(sorted(set(os.environ['ONLY'].split()) & set(v)) if os.environ.get('ONLY') else v) for k, v in out.items()}
CHECKS = checks()
def one(id):
    edits = refs.REFS[id]
    b = builds.get(); out = []
    s = tempfile.mkdtemp(prefix='refac')
    try:
        subprocess.check_call(['cp', '-a', '/repo', s + '/repo'])
        ch = set()
        for f, old, new in edits:
            p = s + '/repo/' + f; t = open(p).read()
            if t.count(old) != 1: return '%s: %d matches of %r' % (id, t.count(old), old[:60])
            open(p, 'w').write(t.replace(old, new)); ch |= set(CHECKS[f].split())
        r = subprocess.run('CARGO_TARGET_DIR=%s/repo/target cargo test --workspace --offline --no-fail-fast 2>&1 | grep -E "^test result: F|^error|FAILED"' % s, shell=True, cwd=s + '/repo', capture_output=True, text=True)
        if r.stdout.strip(): return '%s: TESTS %s' % (id, r.stdout[:600])
        for c in sorted(ch):
            r = subprocess.run(['python3', ROOT + '/check.py', c], capture_output=True, text=True, env=dict(os.environ, VP_REPO=s + '/repo', VP_BUILD=b), cwd=ROOT)
            last = [l for l in (r.stdout + r.stderr).split('\n') if l.strip()]
            st = 'proved' if any('proved:' in l for l in last) else ''
            note = '' if st and r.returncode == 0 else ' | '.join(x[:420] for x in last[-3:])
            out.append('%s rc=%d %s %s' % (c, r.returncode, st, note))
        return id + '\n   ' + '\n   '.join(out)
    finally:
        shutil.rmtree(s, ignore_errors=True); builds.put(b)
ids = sys.argv[1:] or list(refs.REFS)
with ThreadPoolExecutor(J) as ex:
    for r in ex.map(one, ids): print(r, flush=True)
