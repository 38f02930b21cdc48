"""Parser for contract files (/verif/contracts/*.vc)."""
import os, re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Clause:
    def __init__(self, tags, text):
        self.tags, self.text = tags, text

    def on(self, prop):
        return prop is None or '*' in self.tags or prop in self.tags


class FnC:
    def __init__(self, key):
        self.key = key
        self.base, self.mono = key, None
        if ' @ ' in key:
            # KEY @ S=String, S::Output=str : the function at concrete type arguments (longest names first)
            self.base, m = [x.strip() for x in key.split(' @ ')]
            self.mono = sorted((tuple(y.strip() for y in x.split('=')) for x in m.split(';')), key=lambda p: -len(p[0]))
        self.ret = 'r'
        self.retty = None
        self.mode = 'verify'      # verify | trusted | skip
        self.inherent = False
        self.requires, self.ensures = [], []
        self.loops = {}           # n -> list of (kind, Clause)
        self.proofs = {}          # anchor -> list of Clause
        self.rewrites = []
        self.attrs = []
        self.decreases = None
        self.world = False
        self.localworld = False
        self.rename = None
        self.smoke = True
        self.note = None
        self.params = {}
        self.pure = False
        self.task = []
        self.only = None
        self.whilefor = set()


class ModC:
    def __init__(self, path):
        self.path = path
        self.ext, self.needs = [], []
        self.raw = []             # Clause
        self.types = {}           # name -> override text or None for drop
        self.fns = {}
        self.froms = True
        self.uses = []
        self.dropuses = []
        self.clones = []
        self.droptypes = False
        self.effects, self.light, self.heavyext, self.heavyneeds, self.keeptypes = [], [], [], [], {}
        self.impls, self.patterns = {}, []
        self.regex = None         # dict spec, shape, is_shape, roles


def clauses(lines):
    out, cur = [], None
    for l in lines:
        if re.match(r'\s*- ', l):
            if cur is not None:
                out.append(cur)
            cur = l.strip()[2:]
        elif l.strip():
            if cur is None:
                cur = ''
            cur += '\n' + l.rstrip()
    if cur is not None:
        out.append(cur)
    res = []
    for c in out:
        m = re.match(r'\[([^\]]*)\]\s*', c)
        tags = ['*']
        if m and re.match(r'^[C0-9,* ]+$', m.group(1)):
            tags = [t.strip() for t in m.group(1).split(',')]
            c = c[m.end():]
        res.append(Clause(tags, c.strip().rstrip(',')))
    return res


def parse(path):
    mod = None
    mods = []
    sec = None
    buf = []

    def flush():
        nonlocal buf, sec
        if sec is None:
            buf = []
            return
        kind, arg = sec
        if kind == 'raw':
            tags = ['*']
            if arg:
                tags = [t.strip() for t in arg.strip('[] ').split(',')]
            mod.raw.append(Clause(tags, '\n'.join(buf)))
        elif kind == 'type':
            mod.types[arg] = '\n'.join(buf)
        elif kind == 'droptype':
            mod.types[arg] = None
        elif kind == 'regex':
            rx = dict(roles={})
            for l in buf:
                w = l.split(None, 1)
                if not w:
                    continue
                if w[0] == 'role':
                    n, name, eq = re.match(r'(\d+) (\w+) = (.*)$', w[1]).groups()
                    rx['roles'][name] = (int(n), eq)
                else:
                    rx[w[0]] = w[1]
            mod.regex = rx
        elif kind == 'impl':
            mod.impls[arg] = '\n'.join(buf)
        elif kind == 'fns':
            mod.patterns.append((arg, list(buf)))
        elif kind == 'fn':
            mod.fns[arg] = parse_fn(arg, buf)
        buf = []
        sec = None

    for line in open(path):
        line = line.rstrip('\n')
        if line.startswith('#!') or line.startswith('//!'):
            continue
        if line.startswith('module '):
            flush()
            mod = ModC(line.split()[1])
            mods.append(mod)
            continue
        m = re.match(r'-- (\w+)(.*)$', line)
        if m:
            flush()
            k, a = m.group(1), m.group(2).strip()
            if k == 'ext':
                mod.ext += a.split()
            elif k == 'needs':
                mod.needs += a.split()
            elif k == 'use':
                mod.uses.append(a)
            elif k == 'effects':
                mod.effects += a.split()
            elif k == 'light':
                mod.light += a.split()
            elif k == 'heavyneeds':
                mod.heavyneeds += a.split()
            elif k == 'keeptype':
                n, t = a.split(None, 1)
                mod.keeptypes[n] = [x.strip() for x in t.strip('[]').split(',')]
            elif k == 'heavyext':
                mod.heavyext += a.split()
            elif k == 'dropuse':
                mod.dropuses += a.split()
            elif k == 'droptypes':
                mod.droptypes = True
            elif k == 'clone':
                mod.clones += a.split()
            else:
                sec = (k, a)
            continue
        buf.append(line)
    flush()
    return mods


def parse_fn(key, lines):
    f = FnC(key)
    head, body = None, []

    def done():
        nonlocal head, body
        if head is None:
            body = []
            return
        h = head
        if h == 'requires':
            f.requires += clauses(body)
        elif h == 'ensures':
            f.ensures += clauses(body)
        elif h == 'task':
            f.task += clauses(body)
        elif h.startswith('loop '):
            n = int(h.split()[1])
            kind = h.split()[2] if len(h.split()) > 2 else 'invariant'
            f.loops.setdefault(n, []).append((kind, clauses(body)))
        elif h.startswith('proof '):
            a = h.split()[1]
            tags = ['*']
            m = re.search(r'\[([^\]]*)\]', h)
            if m:
                tags = [t.strip() for t in m.group(1).split(',')]
            f.proofs.setdefault(a, []).append(Clause(tags, '\n'.join(body)))
        head, body = None, []

    for l in lines:
        m = re.match(r'(ret|retty|only|mode|inherent|attr|decreases|world|rename|rewrite|smoke|note|param|pure|whilefor|localworld)\b:?\s*(.*)$', l)
        if m and not l.startswith(' '):
            done()
            k, a = m.group(1), m.group(2).strip()
            if k == 'ret':
                f.ret = a
            elif k == 'retty':
                f.retty = a
            elif k == 'mode':
                f.mode = a
            elif k == 'only':
                f.only = [x.strip() for x in a.split(',')]
            elif k == 'inherent':
                f.inherent = True
            elif k == 'attr':
                f.attrs.append(a)
            elif k == 'decreases':
                f.decreases = a
            elif k == 'world':
                f.world = True
            elif k == 'rename':
                f.rename = a
            elif k == 'smoke':
                f.smoke = {'off': False}.get(a, a)
            elif k == 'note':
                f.note = a
            elif k == 'whilefor':
                f.whilefor |= set(int(x) for x in a.split())
            elif k == 'localworld':
                f.localworld = True
            elif k == 'pure':
                f.pure = True
            elif k == 'param':
                n, t = a.split(':', 1)
                f.params[n.strip()] = t.strip()
            elif k == 'rewrite':
                x = re.match(r'(.*?)\s*==>\s*(.*)$', a)
                f.rewrites.append((x.group(1), x.group(2)))
            continue
        m = re.match(r'(requires|ensures|task|loop \d+( \w+)?|proof \w+(\s*\[[^\]]*\])?):?\s*$', l)
        if m and not l.startswith(' '):
            done()
            head = m.group(1)
            continue
        body.append(l)
    done()
    return f


def load_all(d=None):
    d = d or os.path.join(ROOT, 'contracts')
    out = {}
    for n in sorted(os.listdir(d)):
        if n.endswith('.vc'):
            for m in parse(os.path.join(d, n)):
                if m.path in out:
                    o = out[m.path]
                    o.fns.update(m.fns)
                    o.raw += m.raw
                    o.types.update(m.types)
                    o.ext += m.ext
                    o.needs += m.needs
                    o.uses += m.uses
                    o.clones += m.clones
                    o.effects += m.effects
                    o.light += m.light
                    o.heavyext += m.heavyext
                    o.heavyneeds += m.heavyneeds
                    o.keeptypes.update(m.keeptypes)
                    o.impls.update(m.impls)
                    o.patterns += m.patterns
                else:
                    out[m.path] = m
    return out
