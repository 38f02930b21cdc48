"""Runs vx and verus."""
import fcntl, fnmatch
import json, os, re, signal, subprocess, sys, time, hashlib
from . import vc

ROOT = vc.ROOT
BUILD = os.environ.get('VP_BUILD', os.path.join(ROOT, 'build'))
REPO = os.environ.get('VP_REPO', '/repo')

EXTERNS = ['tungstenite', 'serde_json', 'serde', 'regex', 'futures', 'async_tungstenite', 'thiserror',
           'log', 'url', 'futures_timer', 'paste', 'lazy_static']
PATH_MAP = {
    'std::io::Cursor': 'crate::ext::io::Cursor',
    'std::io::Write': 'crate::ext::io::Write',
    'std::fmt': 'crate::ext::fmt',
    'std::sync::Mutex': 'crate::ext::sync::Mutex',
    'std::sync::Arc': 'crate::ext::sync::Arc',
    'std::collections::HashMap': 'crate::ext::map::HashMap',
    'std::collections::hash_map': 'crate::ext::map::hash_map',
    'std::error::Error': 'crate::ext::net::StdError',
    'std::time::Duration': 'crate::ext::time::Duration',
    'std::cell::RefCell': 'crate::ext::cell::RefCell',
    'std::borrow::Cow': 'crate::ext::cow::Cow',
    'async_tungstenite::tungstenite': 'crate::ext::tungstenite',
}
BASE_EFFECTS = ['.unbounded_send/1', '.vp_lock/0', '.vp_store/0', 'vp_release/0', '.call/1', '.call/2', '.send/1',
                'vp_select2/2', 'vp_select3/3', 'vp_select4/4', '.vp_wait/0', 'client_async_tls/2', '.spawn_with_handle/1', '.close/1']


def sh(cmd, timeout=None, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=cwd)


def sh_group(cmd, timeout, cwd=None, stop=None):
    """like sh, but the whole process group is ended when the time is over, or when stop() says so"""
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, start_new_session=True)
    while True:
        try:
            out, err = p.communicate(timeout=1)
            return subprocess.CompletedProcess(cmd, p.returncode, out, err)
        except subprocess.TimeoutExpired:
            if time.time() - t0 > timeout or (stop and stop()):
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.communicate()
                raise subprocess.TimeoutExpired(cmd, timeout)


def build_vx():
    exe = os.path.join(BUILD, 'vx', 'debug', 'vx')
    src = os.path.join(ROOT, 'vx')
    newest = max(os.path.getmtime(os.path.join(d, f)) for d, _, fs in os.walk(src) for f in fs)
    if os.path.exists(exe) and os.path.getmtime(exe) >= newest:
        return exe
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'vx.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = sh(['cargo', 'build', '--offline'], cwd=src, env={'CARGO_TARGET_DIR': os.path.join(BUILD, 'vx')})
    if r.returncode != 0:
        raise RuntimeError('vx build failed: ' + r.stderr.decode()[-2000:])
    os.utime(exe)
    return exe


def extract(contracts, work):
    exe = build_vx()
    os.makedirs(work, exist_ok=True)
    effects = set(BASE_EFFECTS)
    ex = None
    inline = None
    for _ in range(8):
        conf = {'crates': {'owned_subslice': REPO + '/owned_subslice/src/lib.rs',
                           'socket_io_protocol': REPO + '/socket-io-protocol/src/lib.rs',
                           'socket_io_client': REPO + '/socket-io-client/src/lib.rs'},
                'externs': EXTERNS, 'effects': sorted(effects),
                'mod_effects': {m: c.effects for m, c in contracts.items() if c.effects}, 'path_map': PATH_MAP,
                'inline': inline or {}}
        cp, op = os.path.join(work, 'vx.json'), os.path.join(work, 'vx.out.json')
        json.dump(conf, open(cp, 'w'))
        r = sh([exe, cp, op])
        if r.returncode != 0:
            raise RuntimeError('vx failed: ' + r.stderr.decode()[-2000:])
        ex = json.load(open(op))
        for md in ex['modules'].values():
            for f in list(md['fns']):
                md['fns'] += f.get('lifted', [])
        if inline is None:
            # helpers that have no contract are inlined into their callers
            inline = {}
            for mn, md in ex['modules'].items():
                cm = contracts.get(mn)
                if cm is None:
                    # (its functions are reached from contracts only when they can be moved)
                    ks = [f['key'] for f in md['fns'] if not (f['impl'] and f['impl']['trait'])]
                    if ks:
                        inline[mn] = sorted(ks)
                    continue
                known = set(cm.fns) | set(c.base for c in cm.fns.values() if c.mono is not None)
                ks = [f['key'] for f in md['fns'] if not (f['impl'] and f['impl']['trait']) and f['key'] not in known
                      and not any(fnmatch.fnmatchcase(f['key'].replace('[', '('), g) for g, _ in cm.patterns)]
                if ks:
                    inline[mn] = sorted(ks)
            if inline:
                continue
        new = set(effects)
        for mn, md in ex['modules'].items():
            cm = contracts.get(mn)
            for f in md['fns']:
                c = cm.fns.get(f['key']) if cm else None
                if c and c.localworld:
                    continue
                if f['world'] or (c and c.world):
                    f['world'] = True
                    if f['impl'] and f['impl']['trait']:
                        continue
                    nargs = len([p for p in f['params'] if not p['self']])
                    hasself = any(p['self'] for p in f['params'])
                    owner = f['impl']['self_name'] + '::' if f['impl'] and not hasself else ''
                    new.add('%s%s%s/%d' % ('.' if hasself else '', owner, f['name'], nargs))
        if new == effects:
            break
        effects = new
    return ex


ALARM = ('postcondition not satisfied', 'precondition not satisfied', 'assertion failed',
         'possible arithmetic underflow/overflow', 'loop invariant not satisfied', 'invariant not satisfied',
         'possible division by zero', 'could not prove termination', 'decreases not satisfied',
         'unable to prove', 'failed', 'cannot prove', 'not satisfied', 'not met', 'possible bit shift')
UNDEC = ('not supported', 'does not yet support', 'rlimit', 'Resource limit', 'cyclic', 'resource limit')


def run_verus(woven, path, seed=None, rlimit=None, threads=4, timeout=600, multiple=6, extra=(), stop=None):
    with open(path, 'w') as fh:
        fh.write('\n'.join(woven.lines) + '\n')
    cmd = ['verus', path, '--output-json', '--error-format=json', '--multiple-errors', str(multiple),
           '--num-threads', str(threads), '--time']
    if rlimit:
        cmd += ['--rlimit', str(rlimit)]
    if seed is not None:
        cmd += ['--smt-option', 'smt.random_seed=%d' % seed, '--smt-option', 'sat.random_seed=%d' % seed]
    cmd += list(extra)
    t0 = time.time()
    try:
        r = sh_group(cmd, timeout, cwd=os.path.dirname(path), stop=stop)
    except subprocess.TimeoutExpired:
        return dict(status='undecided', reason='verus timed out', diags=[], verified=0, errors=0,
                    wall=time.time() - t0, cmd=' '.join(cmd), smt_ms=0)
    wall = time.time() - t0
    res = dict(cmd=' '.join(cmd), wall=wall, diags=[], verified=0, errors=0, smt_ms=0)
    try:
        j = json.loads(r.stdout.decode())
        vr = j.get('verification-results', {})
        res['verified'], res['errors'] = vr.get('verified', 0), vr.get('errors', 0)
        res['vr'] = vr
        tm = j.get('times-ms', {})
        smt = tm.get('smt', {})
        res['smt_ms'] = smt.get('total', 0) if isinstance(smt, dict) else 0
        res['verus_version'] = j.get('verus', {}).get('version')
    except ValueError:
        j = None
    raw = []
    for line in r.stderr.decode(errors='replace').split('\n'):
        if not line.startswith('{'):
            if line.strip():
                raw.append(line)
            continue
        try:
            d = json.loads(line)
        except ValueError:
            continue
        if d.get('level') != 'error' or d['message'].startswith('aborting due'):
            continue
        sp = []
        for s in d['spans']:
            if os.path.basename(s['file_name']) != os.path.basename(path):
                continue
            i = woven.info[s['line_start'] - 1] if s['line_start'] - 1 < len(woven.info) else None
            sp.append(dict(line=s['line_start'], end=s['line_end'], primary=s['is_primary'], label=s['label'],
                           text=(s['text'][0]['text'].strip() if s['text'] else ''), info=i))
        undec = d['code'] is not None or any(u in d['message'] for u in UNDEC)
        smtfail = (not undec) and any(a in d['message'] for a in ALARM)
        res['diags'].append(dict(message=d['message'], code=d['code'], spans=sp, rendered=d['rendered'],
                                 kind='fail' if smtfail else 'undecided'))
    res['raw'] = raw[:40]
    if j is None or 'vr' not in res:
        res['status'] = 'undecided'
        res['reason'] = 'verus produced no result'
        return res
    if vr.get('success') and not res['diags'] and res['errors'] == 0:
        res['status'] = 'ok'
    elif any(d['kind'] == 'fail' for d in res['diags']) and not any(d['kind'] == 'undecided' for d in res['diags']):
        res['status'] = 'fail'
    elif vr.get('encountered-vir-error') or any(d['kind'] == 'undecided' for d in res['diags']):
        # resource limits leave other obligations meaningful
        if any(d['kind'] == 'fail' for d in res['diags']) and not vr.get('encountered-vir-error') and \
                all('limit' in d['message'] for d in res['diags'] if d['kind'] == 'undecided'):
            res['status'] = 'fail'
        else:
            res['status'] = 'undecided'
            res['reason'] = next((d['message'] for d in res['diags'] if d['kind'] == 'undecided'), 'vir error')
    else:
        res['status'] = 'fail' if res['errors'] else 'undecided'
        res.setdefault('reason', 'unclassified verus outcome')
    return res
