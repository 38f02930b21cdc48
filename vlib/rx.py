"""Decides whether a regular expression (Rust `regex` syntax, the subset parsed below) and a reference
expression accept the same texts and put a capture group in the same place.

Both are turned into automata over an alphabet of character classes plus two marker symbols (where the
group starts and ends); the reference is unambiguous (proved on the Verus side: shapes are unique), so if
the two marked languages are equal, the group found by the regex engine is the one of the reference
whatever the engine's preference rules are."""
import unicodedata

MAXC = 0x10FFFF


class Unsupported(Exception):
    pass


def norm(iv):
    iv = sorted(iv)
    out = []
    for a, b in iv:
        if a > b:
            continue
        if out and a <= out[-1][1] + 1:
            out[-1][1] = max(out[-1][1], b)
        else:
            out.append([a, b])
    return [tuple(x) for x in out]


def negate(iv):
    out, p = [], 0
    for a, b in norm(iv):
        if p < a:
            out.append((p, a - 1))
        p = b + 1
    if p <= MAXC:
        out.append((p, MAXC))
    return out


def category(pred):
    return norm([(c, c) for c in range(MAXC + 1) if pred(chr(c))])


_CACHE = {}


def perl(c):
    if c not in _CACHE:
        if c == 'd':
            _CACHE[c] = category(lambda x: unicodedata.category(x) == 'Nd')
        elif c == 's':
            _CACHE[c] = norm([(9, 13), (32, 32), (0x85, 0x85), (0xa0, 0xa0), (0x1680, 0x1680), (0x2000, 0x200a),
                              (0x2028, 0x2029), (0x202f, 0x202f), (0x205f, 0x205f), (0x3000, 0x3000)])
        elif c == 'w':
            _CACHE[c] = category(lambda x: x.isalnum() or x == '_' or unicodedata.category(x)[0] == 'M')
    return _CACHE[c]


class P:
    def __init__(self, s):
        self.s, self.i, self.n = s, 0, 0

    def peek(self):
        return self.s[self.i] if self.i < len(self.s) else None

    def alt(self):
        xs = [self.cat()]
        while self.peek() == '|':
            self.i += 1
            xs.append(self.cat())
        return xs[0] if len(xs) == 1 else ('alt', xs)

    def cat(self):
        xs = []
        while self.peek() not in (None, '|', ')'):
            xs.append(self.rep())
        return ('cat', xs)

    def rep(self):
        x = self.atom()
        while self.peek() in ('*', '+', '?', '{'):
            c = self.peek()
            self.i += 1
            lo, hi = {'*': (0, None), '+': (1, None), '?': (0, 1)}.get(c, (0, 0))
            if c == '{':
                j = self.s.index('}', self.i)
                p = self.s[self.i:j].split(',')
                self.i = j + 1
                lo = int(p[0])
                hi = lo if len(p) == 1 else (int(p[1]) if p[1] else None)
            if self.peek() == '?':
                self.i += 1
            elif self.peek() == '+':
                raise Unsupported('possessive')
            x = ('rep', x, lo, hi)
        return x

    def escape(self):
        c = self.s[self.i]
        self.i += 1
        if c in 'dsw':
            return perl(c)
        if c in 'DSW':
            return negate(perl(c.lower()))
        if c in 'nrtfv':
            return [(ord({'n': '\n', 'r': '\r', 't': '\t', 'f': '\f', 'v': '\v'}[c]),) * 2]
        if c == 'x' and self.s[self.i] != '{':
            h = int(self.s[self.i:self.i + 2], 16)
            self.i += 2
            return [(h, h)]
        if c.isalnum():
            raise Unsupported('\\' + c)
        return [(ord(c), ord(c))]

    def cls(self):
        neg = False
        if self.peek() == '^':
            neg = True
            self.i += 1
        iv, first = [], True
        while True:
            c = self.peek()
            if c is None:
                raise Unsupported('class')
            if c == ']' and not first:
                self.i += 1
                break
            first = False
            if c == '[' or self.s[self.i:self.i + 2] in ('&&', '--', '~~'):
                raise Unsupported('nested class')
            self.i += 1
            a = self.escape() if c == '\\' else [(ord(c), ord(c))]
            if self.peek() == '-' and self.s[self.i + 1:self.i + 2] not in (']', ''):
                self.i += 1
                d = self.peek()
                self.i += 1
                b = self.escape() if d == '\\' else [(ord(d), ord(d))]
                iv.append((a[0][0], b[0][1]))
            else:
                iv += a
        iv = norm(iv)
        return ('set', negate(iv) if neg else iv)

    def atom(self):
        c = self.peek()
        self.i += 1
        if c == '(':
            cap = True
            if self.peek() == '?':
                r = self.s[self.i:]
                if r.startswith('?:'):
                    self.i += 2
                    cap = False
                elif r.startswith('?P<') or r.startswith('?<'):
                    self.i = self.s.index('>', self.i) + 1
                else:
                    raise Unsupported('flags')
            if cap:
                self.n += 1
                k = self.n
            x = self.alt()
            if self.peek() != ')':
                raise Unsupported('paren')
            self.i += 1
            return ('grp', k, x) if cap else x
        if c == '[':
            return self.cls()
        if c == '.':
            return ('set', negate([(10, 10)]))
        if c == '^':
            return ('bol',)
        if c == '$':
            return ('eol',)
        if c == '\\':
            d = self.peek()
            if d == 'A':
                self.i += 1
                return ('bol',)
            if d == 'z':
                self.i += 1
                return ('eol',)
            return ('set', norm(self.escape()))
        return ('set', [(ord(c), ord(c))])


def parse(s):
    p = P(s)
    x = p.alt()
    if p.i != len(s):
        raise Unsupported('trailing')
    return x, p.n


class NFA:
    """search automaton: any prefix, the pattern, any suffix"""

    def __init__(self, ast, group):
        self.eps, self.chr, self.mark, self.bol, self.eol = {}, {}, {}, {}, {}
        self.n = 0
        a, z = self.new(), self.new()
        self.start, self.final = a, z
        any_ = [(0, MAXC)]
        self.chr.setdefault(a, []).append((any_, a))
        self.chr.setdefault(z, []).append((any_, z))
        self.group = group
        s, e = self.build(ast)
        self.e(a, s)
        self.e(e, z)

    def new(self):
        self.n += 1
        return self.n

    def e(self, a, b):
        self.eps.setdefault(a, []).append(b)

    def build(self, x):
        s, t = self.new(), self.new()
        k = x[0]
        if k == 'set':
            self.chr.setdefault(s, []).append((x[1], t))
        elif k == 'cat':
            c = s
            for y in x[1]:
                a, b = self.build(y)
                self.e(c, a)
                c = b
            self.e(c, t)
        elif k == 'alt':
            for y in x[1]:
                a, b = self.build(y)
                self.e(s, a)
                self.e(b, t)
        elif k == 'rep':
            _, y, lo, hi = x
            c = s
            for _ in range(lo):
                a, b = self.build(y)
                self.e(c, a)
                c = b
            if hi is None:
                a, b = self.build(y)
                self.e(c, a)
                self.e(b, a)
                self.e(b, t)
                self.e(c, t)
            else:
                self.e(c, t)
                for _ in range(hi - lo):
                    a, b = self.build(y)
                    self.e(c, a)
                    self.e(b, t)
                    c = b
        elif k == 'grp':
            a, b = self.build(x[2])
            if x[1] == self.group:
                self.mark.setdefault(s, []).append(('O', a))
                self.mark.setdefault(b, []).append(('C', t))
            else:
                self.e(s, a)
                self.e(b, t)
        elif k == 'bol':
            self.bol.setdefault(s, []).append(t)
        elif k == 'eol':
            self.eol.setdefault(s, []).append(t)
        return s, t

    def close(self, st):
        st, todo = set(st), list(st)
        while todo:
            q, s, e = todo.pop()
            nx = [(r, s, e) for r in self.eps.get(q, [])]
            if s:
                nx += [(r, s, e) for r in self.bol.get(q, [])]
            nx += [(r, s, True) for r in self.eol.get(q, [])]
            for y in nx:
                if y not in st:
                    st.add(y)
                    todo.append(y)
        return frozenset(st)

    def step(self, st, sym):
        out = set()
        for q, s, e in st:
            if isinstance(sym, str):
                out |= {(r, s, e) for m, r in self.mark.get(q, []) if m == sym}
            elif not e:
                out |= {(r, False, e) for iv, r in self.chr.get(q, []) if any(a <= sym <= b for a, b in iv)}
        return self.close(out)

    def accepts(self, st):
        return any(q == self.final for q, _, _ in st)


def sets(x):
    if x[0] == 'set':
        yield x[1]
    for y in x[1:]:
        if isinstance(y, tuple):
            yield from sets(y)
        elif isinstance(y, list) and x[0] in ('cat', 'alt'):
            for z in y:
                yield from sets(z)


def alphabet(asts):
    cuts = {0}
    for a in asts:
        for iv in sets(a):
            for lo, hi in iv:
                cuts.add(lo)
                cuts.add(hi + 1)
    # one representative per class of characters that no set distinguishes; prefer a printable one
    allsets = [iv for a in asts for iv in sets(a)]
    seen, reps = {}, []
    cuts = sorted(c for c in cuts if c <= MAXC)
    for i, c in enumerate(cuts):
        hi = (cuts[i + 1] if i + 1 < len(cuts) else MAXC + 1) - 1
        rep = next((v for v in range(c, min(hi, c + 200) + 1) if chr(v).isprintable()), c)
        if 0xD800 <= rep <= 0xDFFF:
            if hi <= 0xDFFF:
                continue
            rep = 0xE000
        sig = tuple(any(a <= c <= b for a, b in iv) for iv in allsets)
        if sig not in seen:
            seen[sig] = rep
            reps.append(rep)
    return reps


def compare(pa, ga, pb, gb):
    """None if equal, else (text, marked) where they differ.  ga/gb: group numbers, or None for the plain language."""
    a, na = parse(pa)
    b, nb = parse(pb)
    A, B = NFA(a, ga), NFA(b, gb)
    syms = alphabet([a, b]) + (['O', 'C'] if ga or gb else [])
    s0 = (A.close({(A.start, True, False)}), B.close({(B.start, True, False)}))
    seen, todo = {s0: None}, [s0]
    i = 0
    while i < len(todo):
        s = todo[i]
        i += 1
        if len(todo) > 200000:
            raise Unsupported('too large')
        if A.accepts(s[0]) != B.accepts(s[1]):
            w = []
            x = s
            while seen[x] is not None:
                x, c = seen[x]
                w.append(c)
            w.reverse()
            return (''.join(chr(c) for c in w if not isinstance(c, str)),
                    ''.join(c if isinstance(c, str) else chr(c) for c in w))
        for c in syms:
            t = (A.step(s[0], c), B.step(s[1], c))
            if not t[0] and not t[1]:
                continue
            if t not in seen:
                seen[t] = (s, c)
                todo.append(t)
    return None


def certify(pattern, spec, roles):
    """roles: {name: group number in spec}.  Returns (ok, {group number in pattern: role}, witnesses)."""
    try:
        w = compare(pattern, None, spec, None)
        if w is not None:
            return False, {}, [w[0]]
        _, n = parse(pattern)
        out, wit = {}, []
        for g in range(1, n + 1):
            for name, k in roles.items():
                d = compare(pattern, g, spec, k)
                if d is None:
                    out[g] = name
                elif k == g:
                    wit.append(d[0])
        return True, out, wit
    except Unsupported as e:
        return None, {}, []
