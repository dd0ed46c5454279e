"""Normalization (charstr_decompose.c, charstr_recompose.c, charstr_unicode.c) with uninterpreted character data.

The tables (decomposition, combining class, primary composite, quick-check flags) are uninterpreted functions: the algorithms are analysed
for every table the Unicode rules allow; the tables themselves are the subject of C18."""
from harness import *
from comps.strings_ import region
import itertools

PUBLIC = ['charstr_unicode_decompose', 'charstr_unicode_recompose', 'charstr_detect_unicode_normal_form']
EILSEQ, EOVERFLOW = 84, 75
SB, LB, VB, TB = 0xAC00, 0x1100, 0x1161, 0x11A7


class CP:
    """a symbolic code point with a fixed encoding length; class 0 or symbolic; decomposition a list of CPs or None"""
    def __init__(self, n, mark=False, dec=None, second=False, ccc=None):
        self.n, self.mark, self.dec, self.second = n, mark, dec, second
        if n == 1: v = sym('c', 0x41, 0x7a); self.v = v; self.b = [v]
        elif n == 2:
            x = sym('x', 12, 12) if mark else sym('x', 3, 5); x = K(12) if mark else x; y = sym('y', 0, 63)
            self.v = x.scale(64) + y; self.b = [x + 0xc0, y + 0x80]
        elif n == 3:
            z = sym('z', 1, 9); x = sym('x', 0x20, 0x3f); y = sym('y', 0, 63)      # 0x1800..0x9fff, no jamo
            self.v = z.scale(4096) + x.scale(64) + y; self.b = [z + 0xe0, x + 0x80, y + 0x80]
        elif n == 4:
            z = sym('z', 0x10, 0x2f); x = sym('x', 0, 63); y = sym('y', 0, 63)
            self.v = z.scale(4096) + x.scale(64) + y; self.b = [K(0xf0), z + 0x80, x + 0x80, y + 0x80]
        self.ccc = ccc if ccc is not None else sym('ccc', 1, 254) if mark else ZERO

    def flat(self):
        if self.dec is None: return [self]
        return [x for d in self.dec for x in d.flat()]
    def all(self): return [self] + [x for d in self.dec or [] for x in d.all()]


class Jamo(CP):
    def __init__(self, v, parts=None):
        self.n, self.mark, self.dec, self.second, self.ccc = 3, False, None, False, ZERO
        self.v = v; self.b = None; self.parts = parts
    def flat(self): return self.parts or [self]


def syllable(t, l=4, v=7, part=0):
    """a Hangul syllable with or without a (symbolic) trailing consonant, decomposing arithmetically"""
    base = SB + 588 * l + 28 * v
    parts = [Jamo(K(l + LB)), Jamo(K(v + VB))]
    if not t: lo = hi = 0
    else:
        edge = (base // 64 + 1) * 64 - base            # first t in the next block of 64; 25 is where the consonants cross one
        cuts = [1] + sorted({x for x in (edge, 25) if 1 < x <= 27}) + [28]
        lo, hi = cuts[min(part, len(cuts) - 2)], cuts[min(part, len(cuts) - 2) + 1] - 1
    tt = sym('t', lo, hi) if lo < hi else K(lo)
    if t: parts.append(Jamo(tt + TB))
    first = base + lo
    c = Jamo(tt + base, parts)
    c.b = [K(0xe0 + first // 4096), K(0x80 + first // 64 % 64), tt + (base - first // 64 * 64 + 0x80)]
    return c


def utf8(h, s, c):
    """encoding of c (split on its quotients)"""
    if c.b is not None: return c.b
    E = h.E
    z = E.canon(s, E.binop(s, 'udiv', c.v, K(4096), 32), 32); q = E.canon(s, E.binop(s, 'udiv', c.v, K(64), 32), 32)
    return [z + 0xe0, q - z.scale(64) + 0x80, c.v - q.scale(64) + 0x80]


def near(v):
    """a code point next to a Hangul range"""
    c = CP(3); c.v = K(v); c.b = [K(0xe0 + (v >> 12)), K(0x80 + (v >> 6 & 63)), K(0x80 + (v & 63))]
    return c


TEMPL = {
    '1': lambda: near(0x10ff), '2': lambda: near(0x1113), '3': lambda: near(0x1160), '4': lambda: near(0x1176), '5': lambda: near(0x11c3), '6': lambda: near(0xabff), '7': lambda: near(0xd7a4),
    'a': lambda: CP(1), 's': lambda: CP(2), 'k': lambda: CP(3, second=True), 'w': lambda: CP(4),
    'm': lambda: CP(2, True, second=True), 'n': lambda: CP(3, True, second=True), 'o': lambda: CP(4, True),
    'D': lambda: CP(2, dec=[CP(1), CP(2, True)]), 'E': lambda: CP(3, dec=[CP(2, dec=[CP(1), CP(2, True)]), CP(2, True)]), 'G': lambda: CP(3, dec=[CP(2)]),
    'M': lambda: CP(2, True, dec=[CP(2, True), CP(2, True)]), 'W': lambda: CP(4, dec=[CP(4), CP(4)]), 'X': lambda: CP(3, dec=[CP(4), CP(2, True)]),
}


class Norm:
    def __init__(self):
        self.h = h = H(['charstr', 'list', 'fsalloc', 'charstr_decompose', 'charstr_recompose', 'charstr_unicode'], extra=[LIBC], unroll=400)
        self.E = E = h.E
        for f in PUBLIC: h.fn(f)
        self.cps = []; self.ptrs = {}
        E.libc['_charstr_unicode_decomposition'] = self.m_dec
        E.libc['charstr_unicode_canonical_combining_class'] = self.m_ccc
        E.libc['_charstr_unicode_primary_composite'] = self.m_comp
        E.libc['charstr_allowed_unicode_normal_forms'] = self.m_allowed

    def reset(self):
        h, E = self.h, self.E
        h.obl = {}; E.violations = []; E.undecided = []; E._seen = set()
        E.stats = {k: (0 if isinstance(v, int) else v) for k, v in E.stats.items()}

    # ---------------------------------------------------------------- uninterpreted character data
    def which(self, st, v):
        v = self.E.canon(st, v, 32, True)
        for c in self.cps + list(st.ghost.get('fresh', ())):
            if st.num.entails_eq(v - c.v): return c
        raise Undecided('a code point outside the scenario')
    def m_dec(self, E, st, a, i):
        c = self.which(st, a[0])
        return E.ptr(st.regions[self.ptrs[id(c)]]) if id(c) in self.ptrs else ZERO
    def m_ccc(self, E, st, a, i): return self.which(st, a[0]).ccc
    def comp(self, s, a, b):
        """the primary composite of a and b, or None: chosen once per pair"""
        if not b.second or a.mark: return None
        memo = s.ghost.get('comp', {})
        k = (a.v, b.v)
        if k in memo: return memo[k]
        def none(t): t.ghost['comp'] = dict(t.ghost.get('comp', {})); t.ghost['comp'][k] = None
        def some(t):
            p = CP(3); t.ghost['fresh'] = tuple(t.ghost.get('fresh', ())) + (p,)
            t.ghost['comp'] = dict(t.ghost.get('comp', {})); t.ghost['comp'][k] = p
        raise Split([none, some], 'composite')
    def m_comp(self, E, st, a, i):
        x, y = self.which(st, a[0]), self.which(st, a[1])
        p = self.comp(st, x, y)
        return p.v if p is not None else K(-1)
    def m_allowed(self, E, st, a, i): return self.which(st, a[0]).flags

    # ---------------------------------------------------------------- scenario
    def input(self, st, seq, nul):
        h, E = self.h, self.E
        self.cps = []; self.ptrs = {}
        items = []
        for c in seq:
            x = syllable(*c) if isinstance(c, tuple) else syllable(c == 'T') if c in 'HT' else TEMPL[c]()
            items.append(x)
            for y in x.all(): self.cps.append(y)
            if isinstance(x, Jamo): self.cps += x.parts
        for c in self.cps:
            if c.dec is not None:
                r = E.new_region(st, 'decomposition', 4 * (len(c.dec) + 1), 'heap', Uninit(), ro=True)
                r.log = tuple(('w', K(4 * i), K(4), d.v) for i, d in enumerate(c.dec)) + (('w', K(4 * len(c.dec)), K(4), ZERO),)
                self.ptrs[id(c)] = r.id
        bs = [b for x in items for b in x.b]
        r = region(h, st, bs + ([0] if nul else []), 'input')
        return items, r, (ZERO if nul else E.ptr(r, len(bs))), len(bs)

    def errno_is(self, s, v):
        rid = s.ghost.get('errno')
        return rid is not None and self.h.eq(s, self.E.read(s, s.regions[rid], ZERO, 4), v)

    def verdict(self, s, r, rd, cap, cps, what):
        """cps: expected output code points; r: returned pointer"""
        h, E = self.h, self.E
        bs = [b for c in cps for b in utf8(h, s, c)]
        if len(bs) + 1 > cap:
            if not h.eq(s, r, 0): return 'room', '%s: %d bytes and a terminator are said to fit in %d' % (what, len(bs), cap)
            if not self.errno_is(s, EOVERFLOW): return 'room', '%s: errno is not EOVERFLOW' % what
            return True
        R, off = E.resolve(s, r)
        if R is None: return 'room', '%s: %d bytes and a terminator are said not to fit in %d' % (what, len(bs), cap)
        if R.id != rd.id or not h.eq(s, off, len(bs)): return 'post', '%s: the end of the output is %r instead of %d' % (what, off, len(bs))
        for i, b in enumerate(bs + [ZERO]):
            v = E.canon(s, E.read(s, R, K(i), 1), 8)
            if not h.eq(s, v, b): return 'post', '%s: byte %d of the output is %r instead of %r' % (what, i, s.num.norm(v), s.num.norm(b))
        return True

    def both(self, s, name, f, fn):
        """one obligation of kind post and one of kind room from a verdict"""
        memo = {}
        def part(kind):
            def g(s):
                v = f(s)
                return True if v is True or v[0] != kind else v[1]
            return g
        self.h.oblige(s, name, part('post'), fn=fn)
        self.h.oblige(s, name + ' (room)', part('room'), kind='room', fn=fn)

    def caps(self, total, full):
        return sorted({c for c in (range(total + 3) if full else (0, 1, total // 2, total - 1, total, total + 1, total + 2)) if c >= 0})

    # ---------------------------------------------------------------- decomposition
    def decompose(self, seqs, full):
        h, E = self.h, self.E
        for seq in seqs:
            if engine.late(): E.undecide('time budget'); return
            n = sum(x.n for c in seq for x in (syllable(*c) if isinstance(c, tuple) else syllable(c == 'T') if c in 'HT' else TEMPL[c]()).flat())
            for cap in [n + 1] if full is None else self.caps(n, full):
                for nul in ((True, False) if cap == n + 1 else (False,)):
                    st = h.state()
                    items, r, end, _ = self.input(st, seq, nul)
                    rd = E.new_region(st, 'output', cap, 'heap', Unknown('old'))
                    for s, p in h.call(st, 'charstr_unicode_decompose', E.ptr(r), end, E.ptr(rd), E.ptr(rd, cap)):
                        def f(s):
                            out = []
                            for c in [y for x in items for y in x.flat()]:
                                j = len(out)
                                if c.mark:
                                    while j and out[j - 1].mark and not h.ge(s, c.ccc, out[j - 1].ccc): j -= 1
                                out.insert(j, c)
                            return self.verdict(s, p, rd, cap, out, 'decomposing (%s)' % (seq,))
                        self.both(s, 'decomposition gives NFD', f, 'charstr_unicode_decompose')

    # ---------------------------------------------------------------- recomposition
    def spec_recompose(self, s, cs):
        h = self.h
        out, starter, marks = [], None, []
        for c in cs:
            if starter is None:
                if c.mark: out.append(c)
                else: starter = c
                continue
            if not any(h.ge(s, m.ccc, c.ccc) for m in marks):
                p = self.comp(s, starter, c)
                if p is not None: starter = p; continue
            if c.mark: marks.append(c)
            else: out += [starter] + marks; starter, marks = c, []
        if starter is not None: out += [starter] + marks
        res = []
        for c in out:
            q = res[-1] if res else None
            if isinstance(c, Jamo) and isinstance(q, Jamo) and q.kind + c.kind in ('LV', 'ST'):
                if c.kind == 'V': p = Jamo((q.v - LB).scale(588) + (c.v - VB).scale(28) + SB); p.kind = 'S'
                else: p = Jamo(q.v + c.v - TB); p.kind = 'R'
                res[-1] = p
            else: res.append(c)
        return res

    def recompose(self, seqs, full, ordered=True):
        h, E = self.h, self.E
        for seq in seqs:
            if engine.late(): E.undecide('time budget'); return
            caps = [0, 1, 2, 3, 4, 5, 6, 8] if full else [1, 4, 24]
            for cap in sorted(set(caps + [24])):
                st = h.state()
                self.cps = []; items = []
                for c in seq:
                    if c in 'LVTUZ':
                        lo, n = {'L': (LB, 19), 'V': (VB, 21), 'T': (TB + 1, 24), 'U': (0x11c0, 3), 'Z': (TB, 1)}[c]
                        v = sym('j', lo, lo + n - 1) if n > 1 else K(lo); x = Jamo(v); x.kind = 'T' if c == 'U' else c
                        x.b = [K(0xe1), K(0x80 + lo // 64 % 64), v - lo // 64 * 64 + 0x80]
                    elif c in 'SR':
                        x = syllable(c == 'R'); x.kind = c; x.parts = None
                    else: x = TEMPL[c]()
                    items.append(x); self.cps.append(x)
                for x, y in zip(items, items[1:]):
                    if x.mark and y.mark: st.num.assume_ge(y.ccc - x.ccc)       # canonical order is required of the input
                bs = [b for x in items for b in x.b]
                r = region(h, st, bs, 'input')
                rd = E.new_region(st, 'output', cap, 'heap', Unknown('old'))
                for s, p in h.call(st, 'charstr_unicode_recompose', E.ptr(r), E.ptr(r, len(bs)), E.ptr(rd), E.ptr(rd, cap)):
                    def f(s):
                        return self.verdict(s, p, rd, cap, self.spec_recompose(s, items), 'recomposing (%s)' % seq)
                    self.both(s, 'recomposition gives NFC', f, 'charstr_unicode_recompose')

    def long(self, n, cap):
        """many marks after one starter: only memory safety and the capacity are at stake"""
        h, E = self.h, self.E
        st = h.state()
        a, m = CP(1), CP(2, True, ccc=K(230))
        self.cps = [a, m]; self.ptrs = {}
        r = region(h, st, a.b + m.b * n, 'input')
        rd = E.new_region(st, 'output', cap, 'heap', Unknown('old'))
        for fn in ('charstr_unicode_recompose', 'charstr_unicode_decompose'):
            for s, p in h.call(st.copy(), fn, E.ptr(r), E.ptr(r, 1 + 2 * n), E.ptr(rd), E.ptr(rd, cap)):
                h.oblige(s, 'output past the capacity is refused', lambda s: cap > 2 * n + 1 or h.eq(s, p, 0) or '%d bytes are said to fit in %d' % (2 * n + 1, cap), kind='room', fn=fn)

    # ---------------------------------------------------------------- malformed input
    def bad(self):
        h, E = self.h, self.E
        for fn in ('charstr_unicode_decompose', 'charstr_unicode_recompose'):
            for pre in ('', 'a', 's', 'am'):
                for tail in ([sym('b', 0x80, 0xc1)], [sym('b', 0xf5, 0xff)], [sym('b', 0xc2, 0xdf)], [sym('b', 0xe1, 0xec), sym('c', 0x80, 0xbf)], [K(0xed), sym('b', 0xa0, 0xbf), sym('c', 0x80, 0xbf)]):
                    st = h.state()
                    items, _, _, _ = self.input(st, pre, False)
                    bs = [b for x in items for b in x.b] + tail
                    r = region(h, st, bs, 'input'); rd = E.new_region(st, 'output', 20, 'heap', Unknown('old'))
                    for s, p in h.call(st, fn, E.ptr(r), E.ptr(r, len(bs)), E.ptr(rd), E.ptr(rd, 20)):
                        h.oblige(s, 'malformed input is refused with EILSEQ', lambda s: h.eq(s, p, 0) and self.errno_is(s, EILSEQ) or '%s accepts malformed input' % fn)

    # ---------------------------------------------------------------- quick check
    def detect(self, seqs):
        h, E = self.h, self.E
        for seq in seqs:
            for fl in itertools.product((0, 1, 2), repeat=len(seq)):
                for dis, may in ((1, 2), (4, 8)):
                    st = h.state()
                    items, r, end, n = self.input(st, seq, True)
                    for c, k in zip(items, fl): c.flags = K((dis if k == 1 else may if k == 2 else 0) | (0xf0 if k != 1 else 0xc0))
                    for s, v in h.call(st, 'charstr_detect_unicode_normal_form', E.ptr(r), end, K(dis), K(may)):
                        def ok(s):
                            last, res = ZERO, 0
                            for c, k in zip(items, fl):
                                if c.mark and not h.ge(s, c.ccc, last): res = dis; break
                                if k == 1: res = dis; break
                                if k == 2: res = may
                                last = c.ccc
                            return h.eq(s, h.i32(s, v), res) or 'quick check of (%s) gives %r instead of %d' % (seq, s.num.norm(v), res)
                        h.oblige(s, 'the quick check follows the combining classes and flags', ok)


def run(res, tier):
    x = Norm()
    jobs = []
    deep = tier == 'thorough'
    def job(f, *a):
        def g(r):
            x.reset(); f(*a); r.add(x.h, 'norm')
        jobs.append(g)
    job(x.bad)
    for i, (n, cap) in enumerate(((99, 240), (100, 240), (101, 240), (102, 240), (103, 240), (90, 100))): job(x.long, n, cap)
    D1 = [''.join(p) for n in range(3) for p in itertools.product('aswmnDEGMXWHT', repeat=n)]
    for i in range(24): job(x.decompose, D1[i::24], True)
    D2 = [''.join(p) for n in (3,) for p in itertools.product('amnDEMH' if not deep else 'aswmnDEGMXWHT', repeat=n)] + ['mnmn', 'Dmnm', 'mmmm', 'ammmma', 'DMmo', 'amDman', '6', '7', '67', 'o', 'oo', 'on']
    for i in range(24): job(x.decompose, D2[i::24], False)
    hangul = [[(True, l, v, k)] for l in range(19) for v in range(21) for k in (0, 1, 2)] + [[(False, l, v)] for l in range(19) for v in range(21)]
    for i in range(8): job(x.decompose, hangul[i::8], None)
    R1 = [''.join(p) for n in range(3) for p in itertools.product('askwmnoLVTUZSR', repeat=n)]
    for i in range(16): job(x.recompose, R1[i::16], True)
    R2 = [''.join(p) for n in (3,) for p in itertools.product('akmnLVTSR' if not deep else 'askwmnLVTUZSR', repeat=n)] + ['amnm', 'ammm', 'mmam', 'akm', 'amkm', 'LVTV', 'LVTL', 'LmVT', 'LVmT', 'STT', 'LLVT', 'LVLV', 'ammka', 'mamma', 'LVTLVT', 'LVU', 'LVZ', 'SU', 'SZ', 'RT', 'RU', '1V', '2V', 'L3', 'L4', 'S5', 'S3', '6T', '7T', 'LV5', 'L4T', '2VT'] + (['ammmm', 'ammmkmm'] if deep else [])
    for i in range(24): job(x.recompose, R2[i::24], False)
    Q = [''.join(p) for n in range(4) for p in itertools.product('amn', repeat=n)]
    for i in range(8): job(x.detect, Q[i::8])
    res.par(jobs)
