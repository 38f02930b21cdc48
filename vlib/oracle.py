"""Builds and runs the oracle crate against the real crates of /repo."""
import json, os, re, shutil, subprocess, fcntl
from . import vc
from .run import sh, BUILD, REPO, ROOT


def build():
    src = os.path.join(ROOT, 'oracle')
    target = os.path.join(BUILD, 'target')
    if REPO != '/repo':
        dst = os.path.join(BUILD, 'oracle_src')
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(src, dst, ignore=shutil.ignore_patterns('target'))
        p = os.path.join(dst, 'Cargo.toml')
        t = open(p).read().replace('"/repo/', '"%s/' % REPO)
        open(p, 'w').write(t)
        src = dst
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'oracle.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        # --locked is not used: the lock file is the one of /repo plus this crate
        r = sh(['cargo', 'build', '--offline', '-q'], cwd=src, env={'CARGO_TARGET_DIR': target}, timeout=600)
        exe = os.path.join(target, 'debug', 'oracle')
        if r.returncode != 0 or not os.path.exists(exe):
            return None, r.stderr.decode(errors='replace')[-1500:]
        return exe, None


LIT = re.compile(r'''//[^\n]*|/\*.*?\*/|b?r(#*)"(.*?)"\1|b?"((?:[^"\\]|\\.)*)"|b?'(\\.|[^\\'\n])'|\b(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*)(?:[ui](?:8|16|32|64|128|size))?\b''', re.S)


def dictionary():
    """the numbers and texts that the source under test contains: what the oracle's generators mix into their inputs"""
    ints, words = set(), set()
    for d in ('owned_subslice', 'socket-io-protocol', 'socket-io-client'):
        for dp, dn, fn in os.walk(os.path.join(REPO, d)):
            dn[:] = [x for x in dn if x not in ('target', 'tests', 'examples', 'benches')]
            for f in fn:
                if not f.endswith('.rs'):
                    continue
                t = open(os.path.join(dp, f), errors='replace').read()
                t = re.split(r'#\[cfg\(test\)\]\s*mod ', t)[0]
                for m in LIT.finditer(t):
                    w = m.group(2) or m.group(3) or m.group(4)
                    if w is not None and not m.group(2):
                        w = re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda x: chr(int(x.group(1), 16)), w)
                        w = re.sub(r'\\x([0-9a-fA-F]{2})', lambda x: chr(int(x.group(1), 16)), w)
                        w = re.sub(r'\\(.)', lambda x: {'n': '\n', 't': '\t', 'r': '\r', '0': '\0'}.get(x.group(1), x.group(1)), w, flags=re.S)
                    if w and len(w) <= 60:
                        words.add(w)
                    if m.group(5):
                        n = int(m.group(5).replace('_', ''), 0) if not re.match(r'0\d', m.group(5)) else int(m.group(5).replace('_', ''))
                        if n < 1 << 64:
                            ints.add(n)
    return dict(ints=sorted(ints), words=sorted(words))


def run(prop, seed, tier, work, only=None, texts=None):
    exe, err = build()
    if exe is None:
        return dict(available=False, reason='the oracle does not build against this tree: ' + err)
    os.makedirs(work, exist_ok=True)
    out = os.path.join(work, 'oracle.json')
    if os.path.exists(out):
        os.remove(out)
    # run from a copy so that a parallel rebuild cannot replace it underneath
    cmd = [exe, prop, '--seed', str(seed), '--tier', tier, '--out', out]
    dp = os.path.join(work, 'dict.json')
    json.dump(dictionary(), open(dp, 'w'))
    cmd += ['--dict', dp]
    if only is not None:
        cmd += ['--only', str(only)]
    if texts:
        tp = os.path.join(work, 'texts.json')
        json.dump(texts, open(tp, 'w'))
        cmd += ['--texts', tp]
    try:
        r = sh(cmd, timeout=400 if tier == 'quick' else 1500, cwd=work)
    except subprocess.TimeoutExpired:
        return dict(available=False, reason='the oracle did not finish in time')
    if not os.path.exists(out):
        # the real code took the process down (stack overflow, abort, exit)
        if r.returncode < 0 or r.returncode > 4:
            return dict(available=True, evaluations=0, distinct_nontrivial=0, rule='', samples=[], known=[],
                        failure=dict(case=0, input='see stderr: ' + r.stderr.decode(errors='replace')[-500:],
                                     what='the process was ended by status %d' % r.returncode))
        return dict(available=False, reason='oracle status %d: %s' % (r.returncode, r.stderr.decode(errors='replace')[-800:]))
    j = json.load(open(out))
    j['available'] = True
    return j
