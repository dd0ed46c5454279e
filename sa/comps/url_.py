"""URL encoding and decoding (charstr.c) with symbolic bytes."""
from harness import *
from comps.strings_ import region
import itertools

PUBLIC = ['charstr_create_url_encoder', 'charstr_destroy_url_encoder', 'charstr_url_custom_encode_byte', 'charstr_url_encode_byte',
          'charstr_url_custom_encode', 'charstr_url_encode', 'charstr_url_decode']
EILSEQ = 84
SELF = {c for c in range(33, 127) if chr(c) not in "!#$%&'()*+,:;=?@[]"}


def nibble(s, h, n): return n + 48 if h.ge(s, 9, n) else n + 55


class Url:
    def __init__(self):
        self.h = h = H(['charstr', 'list', 'fsalloc'], extra=[LIBC], unroll=60)
        self.E = h.E; self.E.pieces = 200
        for f in PUBLIC: h.fn(f)

    def reset(self):
        h, E = self.h, self.E
        h.obl = {}; E.violations = []; E.undecided = []; E._seen = set()
        E.stats = {k: (0 if isinstance(v, int) else v) for k, v in E.stats.items()}

    def live(self, s, old): return [r for r in s.regions.values() if r.kind == 'heap' and r.alive and r.id not in old]

    # ---------------------------------------------------------------- single bytes
    def enc(self, s, hi, lo, res=None, unres=None):
        """expected encoding of the byte 16*hi+lo under a custom encoder; list of character values"""
        h, E = self.h, self.E
        b = hi.scale(16) + lo
        esc = [K(37), nibble(s, h, hi), nibble(s, h, lo)]
        for u in unres or ():
            if h.eq(s, b, u): return [b]
        for u in res or ():
            if h.eq(s, b, u): return [K(37), nibble(s, h, hi), nibble(s, h, lo)]
        if h.eq(s, b, 32): return [K(43)]
        for l, g in RUNS:
            if not h.ge(s, g, b): continue
            return [b] if h.ge(s, b, l) else esc
        return esc

    def is_text(self, s, p, want, what):
        h, E = self.h, self.E
        R, off = E.resolve(s, p)
        if R is None or not R.alive: return '%s: no string' % what
        for i, w in enumerate(want + [ZERO]):
            if not h.ge(s, R.size - off - i - 1): return '%s: the string runs out of its block' % what
            v = E.canon(s, E.read(s, R, off + i, 1), 8)
            if not h.eq(s, v, w): return '%s: character %d is %r instead of %r' % (what, i, s.num.norm(v), s.num.norm(w))
        return True

    def byte(self, hi_):
        h, E = self.h, self.E
        hi = K(hi_); lo = sym('l', 0, 15)
        st = h.state()
        for s, p in h.call(st, 'charstr_url_encode_byte', hi.scale(16) + lo):
            h.oblige(s, 'each byte has its standard encoding', lambda s: self.is_text(s, p, self.enc(s, hi, lo), 'byte'))

    def custom(self, bytes_, nres, nun):
        """an encoder made from symbolic reserve and unreserve strings, asked about each byte"""
        h, E = self.h, self.E
        st = h.state()
        rs = [sym('r%d' % i, 1, 255) for i in range(nres)]; us = [sym('u%d' % i, 1, 255) for i in range(nun)]
        for a, b in itertools.product(rs, us): st.num.assume_ne(a - b)
        R = region(h, st, rs + [0], 'reserve'); U = region(h, st, us + [0], 'unreserve'); old = set(st.regions)
        def done(s, e):
            for s, _ in h.call(s.copy(), 'charstr_destroy_url_encoder', e):
                h.oblige(s, 'destroying an encoder releases it', lambda s: not self.live(s, old) or 'a block is left allocated', kind='leak')
        for s, e in h.call(st, 'charstr_create_url_encoder', E.ptr(R), E.ptr(U)):
            done(s, e)
            for b in bytes_:
                for t, p in h.call(s.copy(), 'charstr_url_custom_encode_byte', e, b):
                    h.oblige(t, 'a custom encoder changes exactly the bytes named', lambda t: self.is_text(t, p, self.enc(t, K(b >> 4), K(b & 15), rs, us), 'byte %d' % b))

    # ---------------------------------------------------------------- strings
    def strings(self, kinds, custom=False):
        h, E = self.h, self.E
        st = h.state()
        bs = []
        for k in kinds:
            if k == 'a': hi, lo = K(6), sym('a', 1, 15)
            elif k == 'z': hi, lo = K(7), sym('z', 0, 10)
            elif k == '8': hi, lo = sym('h', 8, 15), sym('l', 0, 15)
            elif k == '2': hi, lo = K(2), sym('l', 0, 15)
            elif k == '*': hi, lo = sym('h', 0, 15), sym('l', 0, 15)
            elif k == '1': hi, lo = sym('h', 0, 1), sym('l', 0, 15)
            else: hi, lo = K(ord(k) >> 4), K(ord(k) & 15)
            bs.append((hi, lo))
            st.num.assume_ne(hi.scale(16) + lo) if not (hi.const and lo.const) else None
        r = region(h, st, [hi.scale(16) + lo for hi, lo in bs] + [0], 'string')
        res, unres = [], []
        if custom:
            res = [sym('reserve', 1, 255)]; unres = [sym('unreserve', 1, 255)]; st.num.assume_ne(res[0] - unres[0])
            X = region(h, st, res + [0], 'reserve'); Y = region(h, st, unres + [0], 'unreserve')
        starts = [(st, None)] if not custom else h.call(st, 'charstr_create_url_encoder', E.ptr(X), E.ptr(Y))
        for s, e in starts:
            old = set(s.regions)
            for s, p in (h.call(s, 'charstr_url_encode', E.ptr(r)) if not custom else h.call(s, 'charstr_url_custom_encode', e, E.ptr(r))):
                def ok(s):
                    want = []
                    for hi, lo in bs: want += self.enc(s, hi, lo, res, unres)
                    R, off = E.resolve(s, p)
                    if R is None or R.kind != 'heap' or not R.alive or not h.eq(s, off, 0): return 'no fresh block is returned'
                    if [x.id for x in self.live(s, old)] != [R.id]: return 'other blocks are left allocated'
                    return self.is_text(s, p, want, 'string')
                h.oblige(s, 'a string encodes to the concatenation of its bytes\' encodings', ok)

    # ---------------------------------------------------------------- decoding
    def decode(self, seqs):
        """D digit, U A-F, L a-f, G any other byte, '%', '+'"""
        h, E = self.h, self.E
        for seq in seqs:
            if engine.late(): E.undecide('time budget'); return
            for plus, withsize in ((False, True), (True, False)):
                st = h.state(); cs = []
                for c in seq:
                    if c == 'D': v = sym('d', 0, 9); cs.append((v + 48, v))
                    elif c == 'U': v = sym('u', 10, 15); cs.append((v + 55, v))
                    elif c == 'L': v = sym('l', 10, 15); cs.append((v + 87, v))
                    elif c == 'G':
                        v = sym('g', -128, 127)
                        setdom(st, v.t[0][0], vs_from([x for x in range(-128, 128) if x and x not in (37, 43) and chr(x & 255) not in '0123456789abcdefABCDEF']))
                        cs.append((v, None))
                    else: cs.append((K(ord(c)), None))
                r = region(h, st, [v for v, _ in cs] + [0], 'encoding')
                n = E.new_region(st, 'size', 8, 'heap', Unknown('old')) if withsize else None
                out, i = [], 0
                while i < len(seq):
                    if seq[i] == '%':
                        if i + 2 < len(seq) and seq[i + 1] in 'DUL' and seq[i + 2] in 'DUL':
                            out.append(cs[i + 1][1].scale(16) + cs[i + 2][1]); i += 3; continue
                        out = None; break
                    out.append(K(32) if seq[i] == '+' and plus else cs[i][0]); i += 1
                old = set(st.regions)
                for s, p in h.call(st, 'charstr_url_decode', E.ptr(r), K(int(plus)), E.ptr(n) if n else ZERO):
                    def ok(s):
                        R, off = E.resolve(s, p)
                        if out is None:
                            if R is not None or not h.eq(s, p, 0): return 'malformed text (%s) is accepted' % seq
                            if self.live(s, old): return 'a block is left allocated'
                            rid = s.ghost.get('errno')
                            return rid is not None and h.eq(s, E.read(s, s.regions[rid], ZERO, 4), EILSEQ) or 'errno is not EILSEQ for (%s)' % seq
                        if R is None or R.kind != 'heap' or not R.alive or not h.eq(s, off, 0): return 'text (%s) is rejected' % seq
                        if [x.id for x in self.live(s, old)] != [R.id]: return 'other blocks are left allocated'
                        if n and not h.eq(s, h.u64(s, E.read(s, s.regions[n.id], ZERO, 8)), len(out)): return 'wrong size for (%s)' % seq
                        return self.is_text(s, p, [E.canon(s, x, 8) for x in out], 'text (%s)' % seq)
                    h.oblige(s, 'decoding reverses the encoding and rejects exactly malformed texts', ok)


RUNS = []
_b = 0
for _c in sorted(SELF):
    if RUNS and RUNS[-1][1] == _c - 1: RUNS[-1] = (RUNS[-1][0], _c)
    else: RUNS.append((_c, _c))


def run(res, tier):
    x = Url()
    jobs = []
    deep = tier == 'thorough'
    def job(f, *a):
        def g(r):
            x.reset(); f(*a); r.add(x.h, 'url')
        jobs.append(g)
    for i in range(16): job(x.byte, i)
    for i in range(16):
        bs = list(range(16 * i, 16 * i + 16))
        job(x.custom, bs, 0, 0); job(x.custom, bs, 1, 0); job(x.custom, bs, 0, 1); job(x.custom, bs, 1, 1)
        if deep or i in (2, 5): job(x.custom, bs, 2, 1); job(x.custom, bs, 1, 2)
    K3 = 'az821 %'
    for n in range(3 if not deep else 4):
        for p in itertools.product(K3, repeat=n): job(x.strings, p)
    for p in ('*', '*a', 'a*', '8*', '*8', '2*', ' *', 'aaa*', 'a8a8', '88 8a', '1a2z8 '): job(x.strings, p)
    for p in ('', 'a', '%', ' ', '\xff', '"', 'a%', 'A\x80', ' A', 'AA', '+a'): job(x.strings, p, True)
    seqs = [''.join(p) for n in range(6 if not deep else 7) for p in itertools.product('DUG%+' if n > 3 else 'DULG%+', repeat=n)]
    seqs += [a + b + c for a in ('%DU', '%LD', 'G+') for b in ('', '+', 'G', '%UL') for c in ('%', '%D', '%DD', '%DG', '%%', '%D%', 'D', '%G')]
    for i in range(32): job(x.decode, seqs[i::32])
    res.par(jobs)
