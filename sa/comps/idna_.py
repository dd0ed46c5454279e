"""IDNA encoding (charstr_puny.c) with the character tables as uninterpreted functions, against the Punycode codec of Python and RFC 3492."""
from harness import *
import build
from comps.strings_ import region
from comps.norm_ import CP
import itertools

NFC_DIS, NFC_MAYBE, NFD_DIS = 1, 2, 4
DIGITS = [ord(c) for c in 'abcdefghijklmnopqrstuvwxyz0123456789']


def enc(cp):
    return [K(b) for b in chr(cp).encode('utf-8')]


class It:
    def __init__(self, v, b=None, status='valid', mapping=None, mc=False, flags=0, ccc=0, dec=None):
        self.v = K(v) if isinstance(v, int) else v
        self.b = b if b is not None else enc(v)
        self.status, self.mapping, self.mc, self.flags, self.ccc, self.dec = status, mapping, mc, flags, ccc, dec
        self.ascii = len(self.b) == 1
    def flat(self): return [self] if self.dec is None else [x for d in self.dec for x in d.flat()]
    def all(self): return [self] + [x for d in (self.dec or []) + (self.mapping or []) for x in d.all()]


def make(c):
    if c == 'a': return It(0x61)
    if c == 'z': v = sym('z', 0x61, 0x7a); return It(v, [v])
    if c == 'A': v = sym('A', 0x41, 0x5a); return It(v, [v], 'mapped', [It(v + 32, [v + 32])])
    if c == '0': v = sym('d', 0x30, 0x39); return It(v, [v])
    if c in '-.': return It(ord(c))
    if c == '_': return It(0x5f, None, 'disallowed_STD3_valid')
    if c == '\x7f': return It(0x7f)
    if c == 'v': return It(0xfc)
    if c == 'u': return It(0xe4)
    if c == 'y': return It(0x4e2d)
    if c == 'Y': return It(0x1f600)
    if c == 'd': return It(0xdf, None, 'deviation')
    if c == '2': x, y = sym('x', 3, 10), sym('y', 0, 63); return It(x.scale(64) + y, [x + 0xc0, y + 0x80])
    if c == '3': z, x, y = K(4), K(0x38), sym('y', 0, 63); return It(z.scale(4096) + x.scale(64) + y, [z + 0xe0, x + 0x80, y + 0x80])
    if c == '4': z, x, y = K(0x1f), K(0x18), sym('y', 0, 63); return It(z.scale(4096) + x.scale(64) + y, [K(0xf0), z + 0x80, x + 0x80, y + 0x80])
    if c == 'i': return It(0xad, None, 'ignored')
    if c == 'm': return It(0x2460, None, 'mapped', [It(0x31)])
    if c == 'M': return It(0xdc, None, 'mapped', [It(0xfc)])
    if c == 'N': return It(0x33c2, None, 'mapped', [It(0x61), It(0x2d), It(0x6d)])
    if c == 'H': return It(0xfe63, None, 'mapped', [It(0x2d)])
    if c == 'P': return It(0x3002, None, 'mapped', [It(0x2e)])
    if c == 'B': return It(0xfdfa, None, 'mapped', [It(0x635)] * 18)
    if c == 'x': return It(0x80, None, 'disallowed')
    if c == 'X': return It(0x2260, None, 'disallowed_STD3_mapped', [It(0x3d)])
    if c == 'c': return It(0x903, None, 'valid', None, True)
    if c == 'k': return It(0x301, None, 'valid', None, False, NFC_MAYBE, 230)
    if c == 'g': return It(0x316, None, 'valid', None, False, NFC_MAYBE, 220)
    if c == 'D': return It(0x1e69, None, 'valid', None, False, NFD_DIS, 0, [It(0x73), It(0x323, None, 'valid', None, False, NFC_MAYBE, 220), It(0x307, None, 'valid', None, False, NFC_MAYBE, 230)])
    if c == 'E': return It(0x390, None, 'valid', None, False, NFD_DIS, 0, [It(0x3b9), It(0x308, None, 'valid', None, False, NFC_MAYBE, 230), It(0x301, None, 'valid', None, False, NFC_MAYBE, 230)])
    raise KeyError(c)


class Idna:
    def __init__(self):
        self.h = h = H(['charstr', 'list', 'fsalloc', 'charstr_puny', 'charstr_unicode', 'charstr_decompose', 'charstr_recompose'], extra=[LIBC], unroll=2000)
        self.E = E = h.E
        h.fn('charstr_idna_encode')
        self.MC, self.LL = build.probe(['charstr.h'], ['UNICODE_CATEGORY_Mc', 'UNICODE_CATEGORY_Ll'])
        self.cps, self.maps, self.decs = [], {}, {}
        for st in 'valid deviation ignored mapped disallowed disallowed_STD3_valid disallowed_STD3_mapped'.split():
            E.libc['charstr_idna_status_is_' + st] = lambda E, s, a, i, st=st: K(int(self.which(s, a[0]).status == st))
        E.libc['charstr_idna_mapping'] = self.m_map
        E.libc['charstr_unicode_category'] = lambda E, s, a, i: K(self.MC if self.which(s, a[0]).mc else self.LL)
        E.libc['charstr_unicode_canonical_combining_class'] = lambda E, s, a, i: K(self.which(s, a[0]).ccc)
        E.libc['charstr_allowed_unicode_normal_forms'] = lambda E, s, a, i: K(self.which(s, a[0]).flags)
        E.libc['_charstr_unicode_decomposition'] = self.m_dec
        E.libc['_charstr_unicode_primary_composite'] = lambda E, s, a, i: K(-1)

    def reset(self):
        h, E = self.h, self.E
        h.obl = {}; E.violations = []; E.undecided = []; E._seen = set()
        E.stats = {k: (0 if isinstance(v, int) else v) for k, v in E.stats.items()}

    def which(self, st, v):
        v = st.num.norm(self.E.canon(st, v, 32, True))
        c = self.byv.get(v)
        if c is not None: return c
        for c in self.cps:
            if st.num.entails_eq(v - c.v): return c
        raise Undecided('a code point outside the scenario')
    def m_map(self, E, st, a, i):
        c = self.which(st, a[0])
        return E.ptr(st.regions[self.maps[id(c)]]) if id(c) in self.maps else ZERO
    def m_dec(self, E, st, a, i):
        c = self.which(st, a[0])
        return E.ptr(st.regions[self.decs[id(c)]]) if id(c) in self.decs else ZERO

    def live(self, s, old): return [r for r in s.regions.values() if r.kind == 'heap' and r.alive and r.id not in old]

    # ---------------------------------------------------------------- scenario
    def setup(self, st, items):
        h, E = self.h, self.E
        self.cps, self.maps, self.decs, self.byv = [], {}, {}, {}
        for x in items:
            for y in x.all():
                if y.v in self.byv: continue
                self.byv[y.v] = y; self.cps.append(y)
                if y.mapping is not None and y.status == 'mapped':
                    self.maps[id(y)] = region(h, st, [b for z in y.mapping for b in z.b] + [0], 'mapping').id
                if y.dec is not None:
                    r = E.new_region(st, 'decomposition', 4 * (len(y.dec) + 1), 'heap', Uninit(), ro=True)
                    r.log = tuple(('w', K(4 * i), K(4), d.v) for i, d in enumerate(y.dec)) + (('w', K(4 * len(y.dec)), K(4), ZERO),)
                    self.decs[id(y)] = r.id
        return region(h, st, [b for x in items for b in x.b] + [0], 'hostname')

    def punycode(self, s, cs):
        """RFC 3492 characters of one label; symbolic only if it has a single non-ASCII code point"""
        h, E = self.h, self.E
        non = [c for c in cs if not c.ascii]
        basic = [c.v for c in cs if c.ascii]
        if all(c.v.const for c in non):
            if all(c.v.const for c in cs):
                return [K(b) for b in ''.join(chr(c.v.c) for c in cs).encode('punycode')]
            # only which characters are ASCII, and how many come before, matters for the digits
            t = ''.join('a' if c.ascii else chr(c.v.c) for c in cs).encode('punycode')
            tail = t[len(basic) + (1 if basic else 0):]
            return basic + ([K(45)] if basic else []) + [K(b) for b in tail]
        if len(non) != 1: raise Undecided('several symbolic code points in a label')
        k = [i for i, c in enumerate(cs) if not c.ascii][0]
        q = (non[0].v - 128).scale(len(basic) + 1) + k
        out = []
        step = 36
        while True:
            t = 1 if step <= 72 else 26 if step >= 98 else step - 72
            if h.ge(s, t - 1, q): break
            r = E.canon(s, E.binop(s, 'urem', q - t, K(36 - t), 32), 32)
            out.append(r + t); q = E.canon(s, E.binop(s, 'udiv', q - t, K(36 - t), 32), 32); step += 36
        out.append(q)
        return basic + ([K(45)] if basic else []) + [d + 97 if h.ge(s, 25, d) else d + 22 for d in out]

    def expected(self, s, items):
        """list of character values, None if the name must be refused, 'any' where either is allowed"""
        h = self.h
        if all(x.ascii for x in items): return 'copy'
        flags = [x.flags for x in items]
        if any(f & (NFC_DIS | NFC_MAYBE) for f in flags) or self.misordered(items):
            out = []
            for c in [y for x in items for y in x.flat()]:
                j = len(out)
                if c.ccc:
                    while j and out[j - 1].ccc > c.ccc: j -= 1
                out.insert(j, c)
            items = out
        m = []
        for x in items:
            if x.status in ('valid', 'deviation'): m.append(x)
            elif x.status == 'ignored': pass
            elif x.status == 'mapped': m += x.mapping
            else: return None
        if sum(len(x.b) for x in m) > 254: return 'any-null'
        labels = [[]]
        for x in m:
            if x.v.const and x.v.c == 46: labels.append([])
            else: labels[-1].append(x)
        dot = len(labels) > 1 and not labels[-1]
        if dot: labels.pop()
        out = []; total = 0
        for l in labels:
            if not l or l[0].v == K(45) or l[-1].v == K(45): return None
            if not l[0].ascii and l[0].mc: return None
            for c in l:
                if c.ascii and c.v.const and not (chr(c.v.c).isalnum() or c.v.c == 45): return None
            e = [c.v for c in l] if all(c.ascii for c in l) else [K(ord(ch)) for ch in 'xn--'] + self.punycode(s, l)
            if len(e) > 63: return None
            out += ([K(46)] if out else []) + e
            total = len(out)
        if total > 253: return None
        if total == 253: return 'any'
        return out + ([K(46)] if dot else [])

    def misordered(self, items):
        last = 0
        for x in items:
            if x.ccc and last > x.ccc: return True
            last = x.ccc
        return False

    def check(self, names):
        h, E = self.h, self.E
        for name in names:
            if engine.late(): E.undecide('time budget'); return
            cache = {}
            items = []
            for c in name:
                # a repeated character is the same code point, except for the symbolic ASCII ones
                if c in 'zA0' or c not in cache: cache[c] = make(c)
                items.append(cache[c])
            st = h.state()
            r = self.setup(st, items); old = set(st.regions)
            for s, p in h.call(st, 'charstr_idna_encode', E.ptr(r)):
                def ok(s):
                    want = self.expected(s, items)
                    show = name if len(name) < 40 else '%s.. (%d)' % (name[:36], len(name))
                    R, off = E.resolve(s, p)
                    live = [x.id for x in self.live(s, old)]
                    if R is None:
                        if not h.eq(s, p, 0): return '(%s): neither NULL nor a string' % show
                        if live: return '(%s): a block is left allocated' % show
                        return want in (None, 'any', 'any-null') or '(%s) is refused' % show
                    if want is None: return '(%s) is accepted' % show
                    if want == 'any-null': return self.legal(s, R)
                    if want == 'any': return True
                    if want == 'copy': want = [x.mapping[0].v if x.mapping and x.status == 'mapped' else x.v for x in items]
                    if R.kind != 'heap' or not R.alive or not h.eq(s, off, 0) or live != [R.id]: return '(%s): the result is not the only fresh block' % show
                    if not h.ge(s, R.size - len(want) - 1): return '(%s): the result is too short' % show
                    for i, w in enumerate(want + [ZERO]):
                        v = E.canon(s, E.read(s, R, K(i), 1), 8)
                        if not h.eq(s, v, w): return '(%s): character %d is %r instead of %r' % (show, i, s.num.norm(v), s.num.norm(w))
                    return True
                h.oblige(s, 'the result is the legal ASCII form of the name, or NULL if there is none', ok)

    def legal(self, s, R):
        h, E = self.h, self.E
        label = 0; n = 0
        for i in range(260):
            v = E.canon(s, E.read(s, R, K(i), 1), 8)
            if h.eq(s, v, 0): return (n <= 254) or 'the name is too long'
            n += 1
            if h.eq(s, v, 46): label = 0; continue
            label += 1
            if label > 63: return 'a label is too long'
        return 'the name is too long'

    def bad(self):
        h, E = self.h, self.E
        for pre in ('', 'a', 'v', 'vk'):
            for tail in ([sym('b', 0x80, 0xc1)], [sym('b', 0xf5, 0xff)], [sym('b', 0xc2, 0xdf)], [sym('b', 0xe1, 0xec), sym('c', 0x80, 0xbf)], [K(0xed), sym('b', 0xa0, 0xbf), sym('c', 0x80, 0xbf)]):
                for post in ('', 'a', '.'):
                    st = h.state()
                    items = [make(c) for c in pre]; end = [make(c) for c in post]
                    self.setup(st, items + end)
                    r = region(h, st, [b for x in items for b in x.b] + tail + [b for x in end for b in x.b] + [0], 'hostname'); old = set(st.regions)
                    for s, p in h.call(st, 'charstr_idna_encode', E.ptr(r)):
                        h.oblige(s, 'malformed UTF-8 is refused', lambda s: (h.eq(s, p, 0) and not self.live(s, old)) or 'malformed UTF-8 is accepted, or a block is left allocated')

    def ascii(self, n):
        h, E = self.h, self.E
        st = h.state(); bs = [sym('b', 1, 127) for _ in range(n)]
        self.cps, self.byv = [], {}
        r = region(h, st, bs + [0], 'hostname'); old = set(st.regions)
        for s, p in h.call(st, 'charstr_idna_encode', E.ptr(r)):
            def ok(s):
                R, off = E.resolve(s, p)
                if R is None or R.kind != 'heap' or not h.eq(s, off, 0) or [x.id for x in self.live(s, old)] != [R.id]: return 'no fresh copy'
                for i, b in enumerate(bs):
                    w = b + 32 if h.ge(s, b, 65) and h.ge(s, 90, b) else b
                    if not h.eq(s, E.canon(s, E.read(s, R, K(i), 1), 8), w): return 'character %d differs' % i
                return h.eq(s, E.canon(s, E.read(s, R, K(n), 1), 8), 0) or 'no terminator'
            h.oblige(s, 'an all-ASCII name is copied in lower case', ok)


def names(deep):
    out = [''.join(p) for n in (1, 2) for p in itertools.product('zA0-._v2dimMNHPxXckgD34Y', repeat=n) if sum(c in '234' for c in p) < 2]
    out += [''.join(p) for p in itertools.product('z-.vydiMNHPcXk' if not deep else 'zA0-._vuydimMNHPxXckgD', repeat=3)]
    out += [a + b + c for a in ('', 'z', 'zA0', '-', 'z-z') for b in ('2', '3', '4') for c in ('', 'z', 'Az', '-', '.z', '.', '.v', 'zzzzzz')]
    out += ['vuv', 'uvyY', 'yvuv.vv', 'aYvyua', 'vvvv', 'z.z.v.z.', 'v..z', 'zPvPz', 'zP', 'vP', 'ziv', 'iv.i', 'v.i', 'i.v', 'avkg', 'avgk', 'Dk', 'Dg', 'aDg.D', 'DB', 'cv', 'vc', 'icv', 'vH', 'Hv', 'vNv', 'v_', 'dd', 'kv', 'aukgkg']
    long = []
    for k in (50, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 70): long += ['a' * k + 'v', 'v' + 'a' * k, 'a' * k + '.v', 'v.' + 'a' * k + '.', 'a' * k + 'Y']
    for k in (55, 56, 57, 58, 59, 60): long += ['v' * k, 'y' * k, 'vu' * (k // 2)]
    lab = 'a' * 61 + '.'
    for k in list(range(52, 63)):     # total near 253: three full labels and a last one
        for t in ('', '.', '.a', '.aa', '.aaa', '.aaaa', '.aaaaa'):
            long.append('v.' + lab * 3 + 'a' * k + t)
    for k in range(236, 258, 2 if not deep else 1): long += [('a.' * 130)[:k] + 'v', 'v' + ('.a' * 130)[:k], 'M' + ('.a' * 130)[:k]]
    for k in (12, 13, 14, 15): long += ['B' * (k // 2), 'v.' + 'B' * (k // 2) + '.a', ('B.' * k)[:-1]]
    long += ['v' * 126, 'v' * 127, 'v' * 128, 'v.' * 84, 'v.' * 85, 'i' * 127 + 'v', 'y' * 84, 'y' * 85, 'yk' * 60, 'D' * 80, 'D.' * 60, 'D' * 40 + 'g']
    long += ['v' + 'k' * 99, 'v' + 'k' * 101, 'D' + 'k' * 101, 'a.v' + 'k' * 105 + '.a', 'Ek', 'EEk', 'Ekg', 'Ek.EEEE', 'kE', 'D' * 8 + 'kE']
    long += ['a' * k + t for k in (20, 25, 30, 40) for t in ('vu', 'uvv', 'yv', 'vYyu', 'vaaauaaav')]
    for k in range(29, 34): long += ['v.' * k, ('v.' * k)[:-1], 'a.' + 'v.' * k, 'aa.' + 'v.' * k, ('aa.' + 'v.' * k)[:-1], 'aaaa.' + 'v.' * k, ('aaaaa.' + 'v.' * k), 'aaaaaa.' + ('v.' * k)[:-1], 'a' * 7 + '.' + 'v.' * k]
    return out, long


def run(res, tier):
    x = Idna()
    deep = tier == 'thorough'
    jobs = []
    def job(f, *a):
        def g(r):
            x.reset(); f(*a); r.add(x.h, 'idna')
        jobs.append(g)
    short, long = names(deep)
    job(x.bad)
    for n in range(5): job(x.ascii, n)
    for i in range(48): job(x.check, long[i::48])
    for i in range(32): job(x.check, short[i::32])
    res.par(jobs)
