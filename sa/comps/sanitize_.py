"""UTF-8 validation and sanitization (charstr.c) of strings of symbolic bytes."""
from harness import *
from comps.strings_ import region
from comps.utf8_ import spec_decode
import itertools

PUBLIC = ['charstr_valid_utf8', 'charstr_valid_utf8_bounded', 'charstr_sanitize_utf8']
FFFD = (0xef, 0xbf, 0xbd)
# byte ranges of each unit
UNITS = {'1': [(1, 127)], '2': [(0xc2, 0xdf), (0x80, 0xbf)], '3': [(0xe1, 0xec), (0x80, 0xbf), (0x80, 0xbf)], 'e': [(0xe0, 0xe0), (0xa0, 0xbf), (0x80, 0xbf)],
         'd': [(0xed, 0xed), (0x80, 0x9f), (0x80, 0xbf)], '4': [(0xf1, 0xf3), (0x80, 0xbf), (0x80, 0xbf), (0x80, 0xbf)], 'f': [(0xf0, 0xf0), (0x90, 0xbf), (0x80, 0xbf), (0x80, 0xbf)],
         'g': [(0xf4, 0xf4), (0x80, 0x8f), (0x80, 0xbf), (0x80, 0xbf)],
         # malformed
         'c': [(0x80, 0xbf)], 'o': [(0xc0, 0xc1)], 'x': [(0xf5, 0xff)], 'T': [(0xc2, 0xdf)], 'R': [(0xe1, 0xec), (0x80, 0xbf)], 'Q': [(0xf1, 0xf3), (0x80, 0xbf), (0x80, 0xbf)], 'P': [(0xf1, 0xf3), (0x80, 0xbf)],
         'E': [(0xe0, 0xe0), (0x80, 0x9f), (0x80, 0xbf)], 'D': [(0xed, 0xed), (0xa0, 0xbf), (0x80, 0xbf)], 'F': [(0xf0, 0xf0), (0x80, 0x8f), (0x80, 0xbf), (0x80, 0xbf)], 'G': [(0xf4, 0xf4), (0x90, 0xbf), (0x80, 0xbf), (0x80, 0xbf)]}


class San:
    def __init__(self, flag):
        self.h = h = H(['charstr', 'list', 'fsalloc'], extra=[LIBC], defs=(flag,), unroll=80)
        self.E = h.E
        for f in PUBLIC: h.fn(f)

    def reset(self):
        h, E = self.h, self.E
        h.obl = {}; E.violations = []; E.undecided = []; E._seen = set()
        E.stats = {k: (0 if isinstance(v, int) else v) for k, v in E.stats.items()}

    def live(self, s, old): return [r for r in s.regions.values() if r.kind == 'heap' and r.alive and r.id not in old]

    def scan(self, s, bs, nul):
        """[(start, length or 0 for a byte outside any encoding)]"""
        out, i = [], 0
        while i < len(bs):
            w = spec_decode(self.h, s, bs[i:] + ([ZERO] if nul else []))
            out.append((i, w[0] if w else 0)); i += w[0] if w else 1
        return out

    def check(self, ranges):
        h, E = self.h, self.E
        def bytes_(nul):
            return [K(lo) if lo == hi else sym('b%d' % i, max(lo, 1) if nul else lo, hi) for i, (lo, hi) in enumerate(ranges)]
        # validation
        for nul in (True, False):
            st = h.state(); bs = bytes_(nul)
            r = region(h, st, bs + ([0] if nul else []), 'string')
            for s, v in (h.call(st, 'charstr_valid_utf8', E.ptr(r)) if nul else h.call(st, 'charstr_valid_utf8_bounded', E.ptr(r), E.ptr(r, len(bs)))):
                def ok(s):
                    want = all(n for _, n in self.scan(s, bs, nul))
                    return h.boolv(s, v, 8) == want or 'a %s string of %d bytes is reported %s' % ('valid' if want else 'malformed', len(bs), 'malformed' if want else 'valid')
                h.oblige(s, 'validation accepts exactly the well-formed strings', ok)
        st = h.state(); bs = bytes_(True)
        r = region(h, st, bs + [0], 'string'); old = set(st.regions)
        for s, p in h.call(st, 'charstr_sanitize_utf8', E.ptr(r)):
            def ok(s):
                want = []
                for i, n in self.scan(s, bs, True): want += bs[i:i + n] if n else [K(x) for x in FFFD]
                R, off = E.resolve(s, p)
                if R is None or R.kind != 'heap' or not R.alive or not h.eq(s, off, 0): return 'no fresh block is returned'
                if [x.id for x in self.live(s, old)] != [R.id]: return 'other blocks are left allocated'
                if not h.ge(s, R.size - len(want) - 1): return 'the block is too small'
                for i, w in enumerate(want + [ZERO]):
                    v = E.canon(s, E.read(s, R, K(i), 1), 8)
                    if not h.eq(s, v, w): return 'byte %d of the sanitized string is %r instead of %r' % (i, s.num.norm(v), s.num.norm(w))
                return True
            h.oblige(s, 'sanitizing keeps every encoding and replaces every other byte', ok)

    def combos(self, cs):
        for c in cs:
            if engine.late(): self.E.undecide('time budget'); return
            self.check([r for u in c for r in UNITS[u]])


def run(res, tier):
    deep = tier == 'thorough'
    jobs = []
    for flag in ('-fsigned-char', '-funsigned-char'):
        x = San(flag)
        def job(f, *a, x=x):
            def g(r):
                x.reset(); f(*a); r.add(x.h, 'sanitize')
            jobs.append(g)
        for n in range(3): job(x.check, [(0, 255)] * n)
        first = [(0, 0x7f), (0x80, 0xc1), (0xc2, 0xdf), (0xe0, 0xe0), (0xe1, 0xec), (0xed, 0xed), (0xee, 0xef), (0xf0, 0xf0), (0xf1, 0xf3), (0xf4, 0xf4), (0xf5, 0xff)]
        for f in first:
            job(x.check, [f] + [(0, 255)] * 2)
            if f[0] >= 0xe0 or deep: job(x.check, [f] + [(0, 255)] * 3)
            if f[0] >= 0xf0: job(x.check, [f] + [(0x80, 0xbf)] * 3 + [(0, 255)])
        cs = [p for n in (1, 2) for p in itertools.product(UNITS, repeat=n)]
        cs += list(itertools.product('124cTRQ', repeat=3)) + ([p for p in itertools.product('123gcxTRPQEDFG', repeat=3)] if deep else [])
        cs += ['1234', '4444', 'cccc', '1c2c3c4c', 'TTTT', 'QQQQ', 'GEDF', '11111111', '3x3x3x', 'RPRP']
        for i in range(16): job(x.combos, cs[i::16])
    res.par(jobs)
