"""Weaves extracted source (vx output) with contracts into one Verus file."""
import fnmatch, os, re, json
from . import vc, rx

ROOT = vc.ROOT
EXT = os.path.join(ROOT, 'contracts', 'ext')

STD_OK = {
    'std::ops::Range', 'std::collections::HashMap', 'std::ops::Deref', 'std::ops::DerefMut',
    'std::borrow::Cow', 'std::sync::Arc', 'std::ops::Index', 'std::ops::IndexMut',
    'std::time::Duration',
}


class Woven:
    def __init__(self):
        self.lines = []       # text
        self.info = []        # dict per line or None
        self.verified = []    # keys to be verified
        self.assumed = []     # contract-only repo functions
        self.uncontracted = []
        self.lost = []
        self.problems = []    # unsupported constructs found by the extractor
        self.notes = {}
        self.trusted_fns = []
        self.loop_mismatch = []
        self.regexes = []

    def put(self, text, **info):
        for l in text.split('\n'):
            self.lines.append(l)
            self.info.append(info or None)


def scan_names(text):
    """fully qualified public names of a stub module"""
    names = set()
    stack = []
    depth = 0
    for line in text.split('\n'):
        l = line.split('//')[0]
        m = re.match(r'\s*pub mod (\w+)\s*\{', l)
        if m:
            names.add('::'.join([s for s, _ in stack] + [m.group(1)]))
            stack.append((m.group(1), depth))
        else:
            for m in re.finditer(r'pub (?:tracked |ghost |broadcast )?(?:open |closed |uninterp )?(?:spec |proof |async |unsafe |const )?(?:enum|struct|trait|fn|type)\s+(\w+)', l):
                names.add('::'.join([s for s, _ in stack] + [m.group(1)]))
            m = re.match(r'\s*pub use (.*?)(\w+);', l)
            if m:
                names.add('::'.join([s for s, _ in stack] + [m.group(2)]))
        depth += l.count('{') - l.count('}')
        while stack and depth <= stack[-1][1]:
            stack.pop()
    return names


def closure(mods, contracts, heavy=lambda m: True):
    seen, todo = [], list(mods)
    while todo:
        m = todo.pop(0)
        if m in seen:
            continue
        seen.append(m)
        if m in contracts:
            todo += contracts[m].needs
            if heavy(m):
                todo += contracts[m].heavyneeds
    return seen


def ext_closure(mods, contracts, heavy=lambda m: True):
    out = []
    todo = []
    for m in mods:
        if m in contracts:
            todo += contracts[m].ext
            if heavy(m):
                todo += contracts[m].heavyext
    while todo:
        e = todo.pop(0)
        if e in out:
            continue
        out.append(e)
        t = open(os.path.join(EXT, e + '.rs')).read()
        m = re.search(r'^// needs: (.*)$', t, re.M)
        if m:
            todo += m.group(1).split()
    return sorted(out)


def tagfilter(text, prop):
    """stub files may mark lines with `//@[C01,C02]`; such a line is kept only for those properties"""
    out = []
    for l in text.split('\n'):
        m = re.search(r'//@\[([C0-9, ]+)\]\s*$', l)
        if m and prop is not None and prop not in [t.strip() for t in m.group(1).split(',')]:
            continue
        out.append(l)
    return '\n'.join(out)


class Weaver:
    def __init__(self, ex, contracts, prop, verify, mods, smoke=False, mono=None, options=None):
        """verify: dict module -> set of fn keys (or '*')"""
        self.ex, self.c, self.prop, self.verify = ex, contracts, prop, verify
        self.mods = closure(mods, contracts, lambda m: not self.light(m))
        self.smoke = smoke
        self.w = Woven()
        self.options = options or {}
        self.exts = ext_closure(self.mods, contracts, lambda m: not self.light(m))
        self.names = set()
        self.exttext = {}
        for e in self.exts:
            t = tagfilter(open(os.path.join(EXT, e + '.rs')).read(), prop)
            self.exttext[e] = t
            self.names.add('crate::ext::' + e)
            for n in scan_names(t):
                self.names.add('crate::ext::%s::%s' % (e, n))
        self.prelude = tagfilter(open(os.path.join(EXT, 'prelude.rs')).read() + open(os.path.join(EXT, 'std.rs')).read(), prop)
        for m in self.mods:
            md = ex['modules'].get(m)
            self.names.add('crate::' + m)
            cm = contracts.get(m)
            if md is None:
                self.w.lost.append('module ' + m)
                continue
            for t in [] if self.light(m) else md['types']:
                if not (cm and (cm.types.get(t['name'], '') is None or t['name'] in cm.keeptypes and prop not in cm.keeptypes[t['name']] or cm.droptypes and t['name'] not in cm.types)):
                    self.names.add('crate::%s::%s' % (m, t['name']))
            for k in md['consts']:
                self.names.add('crate::%s::%s' % (m, k['name']))
            if cm:
                for r in cm.raw:
                    if self.raw_on(m, r):
                        for n in scan_names(r.text):
                            self.names.add('crate::%s::%s' % (m, n))
                for n, t in {}.items() if self.light(m) else cm.types.items():
                    if t:
                        self.names.add('crate::%s::%s' % (m, n))
        # parents
        for m in list(self.mods):
            p = m.split('::')
            for i in range(1, len(p)):
                self.names.add('crate::' + '::'.join(p[:i]))
        self.resolve_reexports()

    def light(self, m):
        """no function of this module is verified here: only the contracts of its `light` functions are needed"""
        cm = self.c.get(m)
        return bool(cm and cm.light and not self.verify.get(m))

    def raw_on(self, m, r):
        if r.tags == ['heavy']:
            return not self.light(m)
        if r.tags == ['light']:
            return self.light(m)
        return r.on(self.prop)

    def norm(self, m, path):
        """normalise a use path seen in module m to crate::..."""
        p = list(path)
        cur = m.split('::')
        if p[0] == 'crate' or p[0] == 'std' or p[0] == 'core' or p[0] == 'alloc':
            return p
        if p[0] == 'self':
            return ['crate'] + cur + p[1:]
        if p[0] == 'super':
            while p and p[0] == 'super':
                cur = cur[:-1]
                p = p[1:]
            return ['crate'] + cur + p
        return ['crate'] + cur + p

    def resolve_reexports(self):
        # fixpoint of use declarations making names available
        self.modnames = {}
        for _ in range(4):
            for m in self.mods:
                md = self.ex['modules'].get(m)
                if not md:
                    continue
                for f in md['fns']:
                    if f['impl'] is None:
                        self.names.add('crate::%s::%s' % (m, f['name']))
                for u in md['uses']:
                    p = self.norm(m, u['path'])
                    if p[-1] == '*':
                        continue
                    full = '::'.join(p)
                    if full in self.names or full in STD_OK:
                        self.names.add('crate::%s::%s' % (m, u['alias'] or p[-1]))

    # -----------------------------------------------------------------------------------------
    def weave(self):
        w = self.w
        w.put('// generated on every run from /repo; do not edit')
        w.put('#![allow(unused_imports, unused_variables, dead_code, unused_mut, non_snake_case, unused_parens, unused_braces, unreachable_code, unreachable_patterns, unused_assignments, unused_must_use, non_camel_case_types)]')
        w.put('#![feature(allocator_api)]')
        w.put('#![verifier::allow(undeclared_external_trait)]')
        w.put('use vstd::prelude::*;')
        w.put('verus! {')
        w.put('broadcast use vstd::std_specs::hash::group_hash_axioms;') if False else None
        w.put('pub mod prelude {')
        w.put(self.prelude, kind='prelude')
        w.put('}')
        w.put('pub mod ext {')
        for e in self.exts:
            w.put('pub mod %s {' % e)
            w.put('use vstd::prelude::*; use crate::prelude::*;')
            w.put(self.exttext[e], kind='ext', ext=e)
            w.put('}')
        w.put('}')
        tree = {}
        for m in self.mods:
            t = tree
            for p in m.split('::'):
                t = t.setdefault(p, {})
        self.emit_tree(tree, [])
        w.put('} // verus!')
        w.put('fn main() {}')
        return w

    def emit_tree(self, tree, pre):
        for k in tree:
            path = pre + [k]
            self.w.put('pub mod %s {' % k)
            self.w.put('use vstd::prelude::*; use crate::prelude::*;')
            self.emit_mod('::'.join(path))
            self.emit_tree(tree[k], path)
            self.w.put('} // mod %s' % k)

    def emit_mod(self, m):
        if m not in self.mods:
            return
        md = self.ex['modules'].get(m)
        if md is None:
            return
        cm = self.c.get(m) or vc.ModC(m)
        w = self.w
        for u in md['uses']:
            p = self.norm(m, u['path'])
            full = '::'.join(p)
            if u['orig'][-1] in cm.dropuses:
                continue
            if p[-1] == '*':
                base = '::'.join(p[:-1])
                if base in self.names:
                    w.put('pub use %s;' % full)
                continue
            if full in self.names or full in STD_OK:
                if full == 'crate::%s::%s' % (m, p[-1]) and not u['alias']:
                    continue
                w.put('pub use %s%s;' % (full, ' as ' + u['alias'] if u['alias'] else ''))
        for u in cm.uses:
            w.put('use %s;' % u)
        seen = set()
        for t in [] if self.light(m) else md['types']:
            n = t['name']
            seen.add(n)
            if n in cm.keeptypes and self.prop not in cm.keeptypes[n]:
                continue
            if cm.droptypes and n not in cm.types:
                continue
            if n in cm.types:
                if cm.types[n] is not None:
                    w.put(cm.types[n], kind='typeoverride', type=n)
                continue
            self.emit_type(m, t)
        for n, t in {}.items() if self.light(m) else cm.types.items():
            if n not in seen:
                if t is not None and n.startswith('+'):
                    w.put(t)
                elif t is not None:
                    w.lost.append('type %s::%s' % (m, n))
        for k in md['consts']:
            w.put('pub ' + re.sub(r'^pub\s*', '', k['text']) + '')
        for r in cm.raw:
            if self.raw_on(m, r):
                w.put(r.text, kind='spec', module=m)
        if cm.regex:
            for z in md['lazies']:
                if z['ty'].split('::')[-1].strip() == 'Regex':
                    self.emit_regex(m, z, cm.regex)
        self.emit_fns(m, md, cm)

    def emit_regex(self, m, z, rc):
        """the contract of a compiled pattern, as certified by vlib/rx.py against the reference grammar"""
        w = self.w
        ok, groups, wit, pat = None, {}, [], None
        if len(z['literals']) == 1:
            pat = z['literals'][0]
            ok, groups, wit = rx.certify(pat, rc['spec'], {k: v[0] for k, v in rc['roles'].items()})
        w.regexes.append(dict(name=z['name'], pattern=pat, equivalent=ok, groups=groups, witnesses=wit))
        n = z['name']
        ens = ['r matches Some(c) ==> c.hay() == utf8(s@)']
        if ok:
            ens.append('r is None ==> forall|sh: %s| !(#[trigger] %s(utf8(s@), sh))' % (rc['shape'], rc['is_shape']))
            eqs = ['c.group(%d) == (%s)' % (g, rc['roles'][name][1]) for g, name in sorted(groups.items())]
            ens.append('r is Some ==> exists|sh: %s| #[trigger] %s(utf8(s@), sh)' % (rc['shape'], rc['is_shape']))
            # shapes are unique (a lemma of the module), so this says where the groups are
            ens.append('r matches Some(c) ==> forall|sh: %s| #[trigger] %s(utf8(s@), sh) ==> %s' % (rc['shape'], rc['is_shape'], ' && '.join(eqs) or 'true'))
        w.put('pub struct VpRe_%s {}' % n)
        w.put('pub const %s: VpRe_%s = VpRe_%s {};' % (n, n, n))
        w.put('impl VpRe_%s {\n#[verifier::external_body]\npub fn captures<\'t>(&self, s: &\'t str) -> (r: Option<crate::ext::regex::Captures<\'t>>)\n ensures\n  %s,\n{ unimplemented!() }\n'
              '#[verifier::external_body]\npub fn is_match(&self, s: &str) -> (r: bool)\n%s{ unimplemented!() }\n}'
              % (n, ',\n  '.join(ens), ' ensures r <==> exists|sh: %s| #[trigger] %s(utf8(s@), sh),\n' % (rc['shape'], rc['is_shape']) if ok else ''),
              kind='regex', module=m)

    def emit_type(self, m, t):
        w = self.w
        ds = t['derives']
        keep, post = [], None
        if t['kind'] == 'enum' and t.get('unit') and 'PartialEq' in ds:
            n = t['name']
            post = ('impl vstd::std_specs::cmp::PartialEqSpecImpl for %s { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other } }\n'
                    'impl PartialEq for %s { #[verifier::external_body] fn eq(&self, other: &Self) -> bool { unimplemented!() } }' % (n, n))
        copy = 'Copy' in ds
        if copy:
            keep += ['Clone', 'Copy']
        if keep:
            w.put('#[derive(%s)]' % ', '.join(keep))
        w.put(t['text'], kind='type', module=m, type=t['name'])
        if post:
            w.put(post, kind='derive', type=t['name'])
        if 'Clone' in ds and not copy:
            g = t.get('generics') or ''
            gg = '<%s>' % g if g else ''
            names = ', '.join(re.findall(r"'\s*\w+|\b[A-Z]\w*(?=\s*(?:,|$|:))", g))
            tt = t['name'] + ('<%s>' % names if g else '')
            wh = t.get('where') or ''
            if "'" not in g and g:
                gg = '<%s>' % re.sub(r'\b([A-Z]\w*)\b', r'\1: Clone', g)
            w.put('impl%s Clone for %s %s { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }'
                  % (gg, tt, wh), kind='clone', type=t['name'])
        if 'Debug' in ds:
            g = t.get('generics') or ''
            names = ', '.join(re.findall(r"'\s*\w+|\b[A-Z]\w*(?=\s*(?:,|$|:))", g))
            w.put('#[verifier::external] impl%s core::fmt::Debug for %s%s %s { fn fmt(&self, f: &mut core::fmt::Formatter<\'_>) -> core::fmt::Result { unimplemented!() } }'
                  % ('<%s>' % g if g else '', t['name'], '<%s>' % names if names else '', t.get('where') or ''))
        if 'Serialize' in ds and m in self.c and 'serializer' in self.c[m].heavyext:
            self.derive_serialize(m, t)
        if 'Deserialize' in ds and m in self.c and 'deserializer' in self.c[m].heavyext:
            self.derive_deserialize(m, t)
        for fr in t.get('froms', []):
            w.put('impl From<%s> for %s { #[verifier::external_body] fn from(e: %s) -> (r: Self) ensures r == %s::%s(e) { %s::%s(e) } }'
                  % (fr['ty'], t['name'], fr['ty'], t['name'], fr['variant'], t['name'], fr['variant']),
                  kind='from', type=t['name'])

    def derive_deserialize(self, m, t):
        """what #[derive(Deserialize)] reads: a struct of one unnamed field reads what the field reads"""
        fs = t.get('fields') or []
        if t['kind'] != 'struct' or t['serde'] or len(fs) != 1 or fs[0]['name'] != '0' or any(a != '#[serde(borrow)]' for a in fs[0]['serde']):
            self.w.problems.append('derive(Deserialize) on ' + t['name'])
            return
        g = t['generics'] or ''
        if not re.match(r"^('\w+)?$", g):
            self.w.problems.append('derive(Deserialize) on generic ' + t['name'])
            return
        lt = g or "'vp_de"
        self.w.put('impl<%s> Deserialize<%s> for %s%s {\nuninterp spec fn de_ok(t: Seq<char>) -> bool;\nuninterp spec fn de_is(s: &str, r: Self) -> bool;\n'
                   'open spec fn reads(i: In, r: Self) -> bool { <%s as Deserialize<%s>>::reads(i, r.0) }\n'
                   'open spec fn certain(i: In) -> bool { <%s as Deserialize<%s>>::certain(i) }\n}'
                   % (lt, lt, t['name'], '<%s>' % g if g else '', fs[0]['ty'], lt, fs[0]['ty'], lt), kind='derive', type=t['name'])

    def derive_serialize(self, m, t):
        """what #[derive(Serialize)] presents"""
        if t['kind'] != 'struct' or t['generics'] or t['serde']:
            self.w.problems.append('derive(Serialize) on ' + t['name'])
            return
        xs = []
        for f in t['fields']:
            name = f['name']
            for a in f['serde']:
                r = re.match(r'#\[serde\(rename\s*=\s*"([^"\\]*)"\)\]$', a)
                if not r:
                    self.w.problems.append('%s on field %s::%s' % (a, t['name'], f['name']))
                    return
                name = r.group(1)
            xs.append('Node::Wrap(Tag::Field("%s"@), Box::new(self.%s.tree()))' % (name, f['name']))
        self.w.put('impl Serialize for %s {\nopen spec fn pure(&self) -> bool { true }\nopen spec fn fits(&self, cell: int) -> bool { false }\n'
                   'open spec fn tree(&self) -> Node { Node::List(Tag::Struct, seq![%s]) }\n}' % (t['name'], ', '.join(xs)), kind='derive', type=t['name'])

    # -----------------------------------------------------------------------------------------
    def emit_fns(self, m, md, cm):
        w = self.w
        ver = self.verify.get(m, set())
        keys = {}
        for f in md['fns']:
            keys.setdefault(f['key'], f)
        fns = dict(cm.fns)
        if self.light(m):
            fns = {k: c for k, c in fns.items() if k in cm.light}
        else:
            for pat, lines in cm.patterns:
                for k in keys:
                    if k not in fns and fnmatch.fnmatchcase(k.replace('[', '('), pat):
                        fns[k] = vc.parse_fn(k, lines)
        fns = {k: c for k, c in fns.items() if c.only is None or self.prop in c.only}
        for k, c in fns.items():
            if c.mono is not None and c.base in keys:
                keys[k] = monomorphise(keys[c.base], k, c.mono)
        for k, c in fns.items():
            if k not in keys and c.mode != 'skip':
                if ver == '*' or k in ver:
                    w.lost.append('fn %s::%s' % (m, k))
        # which uncontracted functions are called by verified ones
        want = {}
        for k, c in fns.items():
            if k in keys and c.mode != 'skip':
                want[k] = c
        names = {}
        monos = set(c.base for c in fns.values() if c.mono is not None)
        for k, f in keys.items():
            if k in monos:
                continue
            if f['impl'] is None or f['impl']['trait'] is None:
                names.setdefault(f['name'], []).append(k)
        extra = set()
        for k in list(want):
            if self.is_verified(m, k, want[k]):
                for call in keys[k]['calls']:
                    n = call.split('::')[-1].lstrip('.')
                    for kk in names.get(n, []):
                        if kk not in fns:
                            # a bare method name may belong to a foreign type
                            f = keys[kk]
                            if call.startswith('.') and f['impl'] is None:
                                continue
                            if not call.startswith('.') and '::' in call and f['impl'] is not None:
                                ty = call.split('::')[-2]
                                if ty not in (f['impl']['self_name'], 'Self'):
                                    continue
                            extra.add(kk)
        for kk in sorted(extra):
            w.uncontracted.append('%s::%s' % (m, kk))
            c = vc.FnC(kk)
            c.mode = 'trusted'
            want[kk] = c
        # group trait impls
        impls = {}
        for k in keys:
            if k not in want:
                continue
            f, c = keys[k], want[k]
            if f['impl'] and f['impl']['trait'] and not c.inherent:
                impls.setdefault((f['impl']['generics'], f['impl']['trait'], f['impl']['self_ty'], f['impl']['where'] or ''), []).append(k)
            elif f['impl']:
                i = f['impl']
                g = '<%s>' % i['generics'] if i['generics'] else ''
                w.put('impl%s %s %s {' % (g, i['self_ty'], i['where'] or ''))
                self.emit_fn(m, f, c)
                w.put('}')
            else:
                self.emit_fn(m, f, c)
        for (g, t, s, wh), ks in impls.items():
            w.put('impl%s %s for %s %s {' % ('<%s>' % g if g else '', t, s, wh))
            for a, b in keys[ks[0]]['impl']['assoc']:
                w.put('type %s = %s;' % (a, b))
            # the ghost part of the impl
            for ik, text in cm.impls.items():
                if ik == ks[0].rsplit('::', 1)[0]:
                    out = []
                    for l in text.split('\n'):
                        # a provided method of the trait, unless the impl has its own
                        mm = re.match(r'//\?(\w+) (.*)$', l)
                        if mm:
                            l = '' if any(keys[k]['name'] == mm.group(1) for k in ks) else mm.group(2)
                        out.append(l)
                    w.put('\n'.join(out), kind='spec', module=m)
            for k in ks:
                self.emit_fn(m, keys[k], want[k])
            w.put('}')

    def is_verified(self, m, k, c):
        ver = self.verify.get(m, set())
        return c.mode == 'verify' and (ver == '*' or k in ver)

    def emit_fn(self, m, f, c):
        w = self.w
        full = '%s::%s' % (m, f['key'])
        verified = self.is_verified(m, f['key'], c)
        prop = self.prop
        params = []
        for p in f['params']:
            if p['self']:
                params.append(p['text'])
            else:
                ty = c.params.get(p['name'], p['ty'])
                params.append('%s: %s' % (p['pat'], ty))
        world = (c.world or f['world']) and not c.localworld
        if world:
            params.append('Tracked(vp_w): Tracked<&mut World>')
        ret = c.retty or f['ret']
        trait_impl = f['impl'] and f['impl']['trait'] and not c.inherent
        sig = ''
        if not trait_impl:
            sig += 'pub '
        if f['async']:
            sig += 'async '
        name = c.rename or f['name']
        gen = '<%s>' % f['generics'] if f['generics'] else ''
        sig += 'fn %s%s(%s)' % (name, gen, ', '.join(params))
        if ret:
            sig += ' -> (%s: %s)' % (c.ret, ret)
        if f['where']:
            sig += ' ' + f['where']
        info = dict(kind='fn', fn=full, file=f['file'])
        if not verified:
            w.put('#[verifier::external_body]', **info)
            if c.mode == 'trusted':
                w.trusted_fns.append(full)
            else:
                w.assumed.append(full)
        else:
            w.verified.append(full)
            if f['unsupported']:
                w.problems.append('%s: %s' % (full, '; '.join(f['unsupported'])))
            w.notes[full] = f['notes']
        for a in c.attrs:
            w.put(a, **info)
        w.put(sig, src=f['line'], **info)
        req = [x for x in c.requires if x.on(prop)]
        ens = [x for x in c.ensures if x.on(prop)]
        # a function that is not specified to have effects has none
        silent = world and not trait_impl and not any('vp_w' in x.text for x in c.requires + c.ensures)
        if req:
            w.put('  requires', **info)
            for x in req:
                w.put('    ' + x.text + ',', clause='requires', ctext=x.text, **info)
        if ens or silent:
            w.put('  ensures', **info)
            if silent:
                t = '*final(vp_w) == *old(vp_w)'
                w.put('    ' + t + ',', clause='ensures', ctext=t, tags=['*'], **info)
            for x in ens:
                w.put('    ' + x.text + ',', clause='ensures', ctext=x.text, tags=x.tags, **info)
        if c.decreases:
            w.put('  decreases ' + c.decreases, **info)
        if not verified:
            w.put('{ unimplemented!() }', **info)
            self.emit_task(f, c, gen, params, ret)
            return
        if f['loops'] != len(c.loops) and f['loops'] > 0:
            w.loop_mismatch.append('%s: %d loops in the source, %d in the contract' % (full, f['loops'], len(c.loops)))
        body = f['body']
        lines = []
        for t, s in body:
            for a, b in c.rewrites:
                t = rewrite(t, a, b)
            if ret and 'impl ' not in ret:
                t = re.sub(r'\blet vp_rv =', 'let %s : %s =' % (c.ret, ret), t)
            t = re.sub(r'\bVec(?: :: < (?:[^<>]|<[^<>]*>)* >)? :: with_capacity\b', lambda m: 'crate :: prelude :: vp_vec_cap', t)
            t = re.sub(r'\bString :: with_capacity\b', 'crate :: prelude :: vp_string_cap', t)
            lines.append((re.sub(r'\bvp_rv\b', c.ret, t), s))
        lits = self.literals(lines)
        alias = {n: self.aliases(lines, n) for n in c.loops}
        # tail naming
        has_tail = any(t.strip() == '//@MARK tail' for t, _ in lines)
        need_tail = has_tail and ('tail' in c.proofs or (self.smoke and c.smoke is True))
        out = []
        for i, (t, s) in enumerate(lines):
            st = t.strip()
            mm = re.match(r'//@MARK (\w+)$', st)
            if mm:
                a = mm.group(1)
                if a == 'tail':
                    for pc in c.proofs.get('pretail', []):
                        if pc.on(prop):
                            out.append((pc.text, 0, dict(proof=True)))
                    if need_tail:
                        out.append(('let %s = ' % c.ret, s, {}))
                    continue
                if a == 'ret':
                    for h in ('pretail', 'tail', 'end'):
                        for pc in c.proofs.get(h, []):
                            if pc.on(prop) and (h != 'pretail' or ret):
                                out.append((pc.text, 0, dict(proof=True)))
                    continue
                lm = re.match(r'loop(\d+)$', a)
                if lm:
                    n = int(lm.group(1))
                    # move the opening brace after the invariants
                    pt, ps, pi = out.pop()
                    assert pt.rstrip().endswith('{'), pt
                    pt = pt.rstrip()[:-1]
                    fm = re.match(r'(\s*)for (.*?) in vp_it%d : (.*)$' % n, pt)
                    if n in c.whilefor and fm:
                        # Rust's own meaning of `for`, for iterators of the crate itself
                        out.append(('let mut vp_it%d = %s ;' % (n, fm.group(3)), ps, pi))
                        pt = fm.group(1) + 'loop'
                    out.append((pt, ps, pi))
                    bykind = {}
                    for kind, cl in c.loops.get(n, []):
                        bykind.setdefault(kind, []).extend((x, alias[n](x.text)) for x in cl if x.on(prop))
                    for kind in ('invariant_except_break', 'invariant', 'ensures', 'decreases'):
                        if bykind.get(kind):
                            out.append(('  ' + kind, 0, {}))
                            for x, xt in bykind[kind]:
                                out.append(('    ' + xt + ',', 0, dict(clause='loop ' + kind, ctext=x.text)))
                    out.append(('{', 0, {}))
                    if n in c.whilefor and fm:
                        out.append(('let %s = match vp_it%d . next ( ) { Some ( vp_next ) => vp_next , None => break } ;' % (fm.group(2), n), 0, {}))
                for pc in c.proofs.get(a, []):
                    if pc.on(prop):
                        out.append((pc.text, 0, dict(proof=True)))
                if a == 'start' and lits:
                    out.append((lits, 0, dict(proof=True)))
                if self.smoke and (a == c.smoke or (c.smoke is True and a == 'end')):
                    out.append(('proof { assert(false); }', 0, dict(smoke=a)))
                continue
            out.append((t, s, {}))
        if need_tail:
            # before the final brace
            lt, ls, li = out.pop()
            out.append((';', 0, {}))
            for pc in c.proofs.get('tail', []):
                if pc.on(prop):
                    out.append((pc.text, 0, dict(proof=True)))
            if self.smoke and c.smoke is True:
                out.append(('proof { assert(false); }', 0, dict(smoke='tail')))
            out.append((c.ret, 0, {}))
            out.append((lt, ls, li))
        for t, s, i in out:
            d = dict(info)
            d.update(i)
            if s:
                d['src'] = s
            w.put(t, **d)
        self.emit_task(f, c, gen, params, ret)

    def aliases(self, lines, n):
        """what the contract of loop n calls vp_oN (the vector it fills) and vp_eN (the error that ended it) in this body"""
        text = '\n'.join(t for t, _ in lines)
        m = re.search(r'//@MARK loop%d\s*\n(.*?)(//@MARK loopend%d\s|\Z)' % (n, n), text, re.S)
        o = e = None
        if m:
            before, body = text[:m.start()], m.group(1)
            decl = lambda x: re.search(r'\blet mut %s\b' % re.escape(x), before)
            os = sorted(set(x for x in re.findall(r'\b(\w+) \. push \(', body) if decl(x)), key=lambda x: -before.rfind('let mut ' + x))
            es = sorted(set(x for x in re.findall(r'\b(vp_e\d+) = Some', body) if decl(x)), key=lambda x: -before.rfind('let mut ' + x))
            own = [x for x in os if x.startswith('vp_o')]
            o = own[0] if own else os[0] if len(os) == 1 else None
            e = es[0] if es else None

        def f(x):
            if e:
                x = re.sub(r'\bvp_e%d\b' % n, e, x)
            else:
                x = re.sub(r'\bvp_e%d is None\b' % n, 'true', x)
                x = re.sub(r'\bvp_e%d is Some\b' % n, 'false', x)
            if o:
                x = re.sub(r'\bvp_o%d\b' % n, o, x)
            return x
        return f

    def literals(self, lines):
        """what the texts compared with in the body are, character by character"""
        ls = set()
        for t, _ in lines:
            for m in re.finditer(r'(==|!=)?\s*"([ -!#-\[\]-~]{1,16})"\s*(=>|\||==|!=)?', t):
                if m.group(1) or m.group(3):
                    ls.add(m.group(2))
        out = ['broadcast use crate::prelude::group_fits;'] if any('_cap (' in t for t, _ in lines) else []
        if not ls:
            return 'proof { ' + ' '.join(out) + ' }' if out else ''
        out.append('broadcast use crate::prelude::axiom_str_ext;')
        for l in sorted(ls):
            cs = ', '.join("'%s'" % ("\\'" if c == "'" else c) for c in l)
            bs = ', '.join('%du8' % ord(c) for c in l)
            out.append('reveal_strlit("%s"); assert("%s"@ =~= seq![%s]); lemma_lit("%s"@, seq![%s]);' % (l, l, cs, l, bs))
        return 'proof { ' + ' '.join(out) + ' }'

    def emit_task(self, f, c, gen, params, ret):
        """making the task of an async block: needs what the block needs (its effects are another task's)"""
        if not c.task:
            return
        w = self.w
        ps = [re.sub(r'^mut ', '', p) for p in params if 'vp_w' not in p]
        w.put('#[verifier::external_body]')
        w.put('pub fn %s_task%s(%s) -> (r: crate::ext::futures::task::Task<%s>) %s' % (f['name'], gen, ', '.join(ps), ret, f['where'] or ''))
        req = [x for x in c.requires if x.on(self.prop) and 'vp_w' not in x.text]
        if req:
            w.put('  requires ' + ', '.join(x.text for x in req) + ',')
        w.put('  ensures ' + ', '.join(x.text for x in c.task if x.on(self.prop)))
        w.put('{ unimplemented!() }')


def monomorphise(f, key, mono):
    """the same function at concrete type arguments: token substitution, type parameters and bounds dropped"""
    import copy
    g = copy.deepcopy(f)
    g['key'] = key

    def sub(t):
        if not isinstance(t, str):
            return t
        for a, b in mono:
            pat = r'\s*'.join(re.escape(x) for x in re.findall(r'\w+|::', a))
            t = re.sub(r'\b' + pat + r'\b', lambda m: b, t)
        return t
    for p in g['params']:
        for k in ('ty', 'text'):
            if k in p:
                p[k] = sub(p[k])
    g['ret'] = sub(g['ret'])
    g['body'] = [[sub(t), s] for t, s in g['body']]
    i = g['impl']
    i['trait'], i['self_ty'] = sub(i['trait']), sub(i['self_ty'])
    i['assoc'] = [[a, sub(b)] for a, b in i['assoc']]
    gone = set(a for a, _ in mono)
    i['generics'] = ', '.join(x.strip() for x in (i['generics'] or '').split(',') if x.strip() and x.split(':')[0].strip() not in gone)
    extra = [v for v in re.findall(r'\b[A-Z]\b', ' '.join(b for _, b in mono)) if v not in i['generics']]
    i['generics'] = ', '.join([x for x in [i['generics']] if x] + sorted(set(extra)))
    i['where'] = None
    return g


def rewrite(text, a, b):
    if a.startswith('/') and a.endswith('/'):
        return re.sub(a[1:-1], b, text)
    toks = re.findall(r'"[^"]*"|\'[^\']*\'|\$\w+|\w+|[^\w\s]', a)
    pat = r'\s*'.join((r'(?P<%s>.+?)' % t[1:]) if t.startswith('$') else re.escape(t) for t in toks)
    if re.match(r'\w', toks[0]):
        pat = r'\b' + pat
    def sub(m):
        r = b
        for k, v in m.groupdict().items():
            r = r.replace('$' + k, v)
        return r
    return re.sub(pat, sub, text)


TRUST = re.compile(r'#\[verifier::external_body\]|assume_specification|axiom fn|\badmit\(|\bassume\(|uninterp spec fn')


def trusted_base(w):
    """mechanical scan of the woven file for everything that is assumed rather than proved"""
    out, seen = [], set()
    n = len(w.lines)
    for i, l in enumerate(w.lines):
        if not TRUST.search(l):
            continue
        where = (w.info[i] or {})
        j = i
        t = l
        if 'external_body' in l and not re.search(r'\b(fn|struct)\b', l):
            while j + 1 < n and not re.search(r'\b(fn|struct)\s+\w+', t):
                j += 1
                t = w.lines[j]
        m = re.search(r'assume_specification(?:<[^\[]*>)?\s*\[(.*?)\]\s*\(', t) or re.search(r'\b(?:fn|struct)\s+(\w+)', t)
        name = m.group(1) if m else t.strip()
        if where.get('fn'):
            name = where['fn']
        elif where.get('ext'):
            name = 'ext::%s::%s' % (where['ext'], name)
        elif where.get('type'):
            name = 'derived impl of %s::%s' % (where['type'], name)
        kind = 'uninterpreted' if 'uninterp' in l else ('assumed contract' if 'fn' in t or 'assume_spec' in t else 'opaque type')
        s = '%s: %s' % (kind, name)
        if s not in seen:
            seen.add(s)
            out.append(s)
    return out


def assumption_list(w):
    a = ['Verus, its Z3 back end and vstd are trusted',
         'vx (syn-based extraction and desugaring, /verif/vx) preserves the meaning of the functions it prints',
         'contracts of std and of the dependencies in /verif/contracts/ext are assumed']
    for k, n in sorted(w.notes.items()):
        for x in n:
            if x.startswith('dropped'):
                a.append('%s: %s' % (k, x))
    return a
