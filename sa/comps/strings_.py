"""Case conversion, comparison, prefix and suffix tests (charstr.c) on strings of symbolic bytes."""
from harness import *
import itertools
from comps.utf8_ import bytes_region

MODS = ['charstr', 'list', 'fsalloc']
WS = (9, 10, 12, 13, 32)
PUBLIC = ['charstr_case_cmp', 'charstr_ncase_cmp', 'charstr_skip_prefix', 'charstr_case_starts_with', 'charstr_case_skip_prefix', 'charstr_ncase_starts_with',
          'charstr_ends_with', 'charstr_lcase_str', 'charstr_lcase_substr', 'charstr_ucase_str', 'charstr_ucase_substr']


def region(h, st, bs, name, ro=True, extra=0):
    """exactly sized block holding the given bytes"""
    bs = [K(b) if isinstance(b, int) else b for b in bs]
    r = h.E.new_region(st, name, len(bs) + extra, 'heap', Uninit(), ro=ro)
    r.log = tuple(('w', K(i), K(1), b) for i, b in enumerate(bs))
    return r


def cstr(h, st, n, name, ro=True):
    bs = [sym('%s%d' % (name[0], i), 1, 255) for i in range(n)]
    return region(h, st, bs + [0], name, ro), bs


class Str:
    def __init__(self, flag, names=PUBLIC):
        self.h = H(MODS, extra=[LIBC], defs=(flag,), unroll=40); self.E = self.h.E; self.E.pieces = 8
        for f in names: self.h.fn(f)

    def reset(self):
        h, E = self.h, self.E
        h.obl = {}; E.violations = []; E.undecided = []; E._seen = set()
        E.stats = {k: (0 if isinstance(v, int) else v) for k, v in E.stats.items()}

    def lower(self, s, b):
        if self.h.ge(s, b, 65) and self.h.ge(s, 90, b): return b + 32
        return b

    def upper(self, s, b):
        if self.h.ge(s, b, 97) and self.h.ge(s, 122, b): return b - 32
        return b

    def byte(self, s, r, i):
        return self.E.canon(s, self.E.read(s, s.regions[r.id], K(i), 1), 8)


def cmp_cases(k):
    """pairs of byte sequences whose first difference (or common end) is at index k"""
    def alike(i):
        x = sym('x%d' % i, 1, 255)
        yield x, x, ()
        u = sym('u%d' % i, 65, 90)
        yield u, u + 32, ()
        yield u + 32, u, ()
    def last():
        a = sym('a', 0, 255); b = sym('b', 0, 255)
        yield K(0), K(0), (), 0
        R = ((0, 64, 0), (65, 90, 32), (91, 255, 0))
        for (l, m, d), (p, q, e) in itertools.product(R, R):
            c = [a - l, K(m) - a, b - p, K(q) - b]
            yield a, b, c + [b + e - a - d - 1], -1
            yield a, b, c + [a + d - b - e - 1], 1
    for pre in itertools.product(*[list(alike(i)) for i in range(k)]):
        for a, b, c, r in last():
            yield [x[0] for x in pre] + [a], [x[1] for x in pre] + [b], c, r


def sign_is(h, s, r, w):
    v = h.i32(s, r)
    if w == 0: return h.eq(s, v, 0)
    return h.ge(s, -v - 1) if w < 0 else h.ge(s, v - 1)


def compare(x, k):
    h, E = x.h, x.E
    for A, B, cond, w in cmp_cases(k):
        st = h.state()
        try:
            for c in cond: st.num.assume_ge(c)
        except Infeasible: continue
        if st.num.infeasible(): continue
        ra = region(h, st, A, 'first string'); rb = region(h, st, B, 'second string')
        for s, r in h.call(st.copy(), 'charstr_case_cmp', E.ptr(ra), E.ptr(rb)):
            h.oblige(s, 'charstr_case_cmp compares as lower case', lambda s: sign_is(h, s, r, w) or 'gives %r instead of %s for strings deciding at byte %d' % (s.num.norm(r), ('0', 'a positive value', 'a negative value')[w], k))
        n = sym('n', k + 1, SIZE_MAX)
        for s, r in h.call(st.copy(), 'charstr_ncase_cmp', E.ptr(ra), E.ptr(rb), n):
            h.oblige(s, 'charstr_ncase_cmp compares as lower case', lambda s: sign_is(h, s, r, w) or 'gives %r instead of %s for strings deciding at byte %d' % (s.num.norm(r), ('0', 'a positive value', 'a negative value')[w], k))
    # n bytes alike, nothing after them may be read
    for pre in itertools.product(*[[0, 1, 2]] * k):
        st = h.state()
        A, B = [], []
        for i, c in enumerate(pre):
            v = sym('x%d' % i, 1, 255) if c == 0 else sym('u%d' % i, 65, 90)
            A.append(v + 32 if c == 2 else v); B.append(v + 32 if c == 1 else v)
        ra = region(h, st, A, 'first string'); rb = region(h, st, B, 'second string')
        for s, r in h.call(st, 'charstr_ncase_cmp', E.ptr(ra), E.ptr(rb), K(k)):
            h.oblige(s, 'charstr_ncase_cmp of n equal bytes is zero', lambda s: sign_is(h, s, r, 0) or 'gives %r' % s.num.norm(r))


def prefix(x, n, m):
    h, E = x.h, x.E
    for fns, fold in ((('charstr_skip_prefix', 'charstr_case_starts_with'), False), (('charstr_case_skip_prefix', 'charstr_ncase_starts_with'), True)):
        for fn in fns:
            st = h.state()
            rs, S = cstr(h, st, n, 'string'); rp, P = cstr(h, st, m, 'prefix')
            for s, r in h.call(st, fn, E.ptr(rs), E.ptr(rp)):
                def ok(s):
                    hit = m <= n
                    for i in range(m):
                        if not hit: break
                        a, b = (x.lower(s, S[i]), x.lower(s, P[i])) if fold else (S[i], P[i])
                        hit = h.eq(s, a, b)
                    if not hit: return h.eq(s, r, 0) if not s.num.entails_eq(r) and E.resolve(s, r)[0] is None else (s.num.entails_eq(r) or '%s accepts a string that does not start with the prefix' % fn)
                    return h.eq(s, r, E.ptr(rs, m)) if E.resolve(s, r)[0] is not None else '%s rejects a string that starts with the prefix' % fn
                h.oblige(s, '%s returns the position after the prefix or NULL' % fn, ok)
    if True:
        st = h.state()
        rs, S = cstr(h, st, n, 'string'); rp, P = cstr(h, st, m, 'suffix')
        for s, r in h.call(st, 'charstr_ends_with', E.ptr(rs), E.ptr(rp)):
            def ok(s):
                hit = m <= n
                for i in range(m):
                    if not hit: break
                    hit = h.eq(s, S[n - m + i], P[i])
                return h.boolv(s, r, 1) == hit or 'charstr_ends_with is wrong for lengths %d and %d' % (n, m)
            h.oblige(s, 'charstr_ends_with is true exactly for suffixes', ok)


def convert(x, n):
    h, E = x.h, x.E
    for fn, conv in (('charstr_lcase_str', x.lower), ('charstr_ucase_str', x.upper), ('charstr_lcase_substr', x.lower), ('charstr_ucase_substr', x.upper)):
        sub = fn.endswith('substr')
        st = h.state()
        if sub:
            bs = [sym('s%d' % i, 0, 255) for i in range(n)]
            pre, post = sym('before', 0, 255), sym('after', 0, 255)
            rs = region(h, st, [pre] + bs + [post], 'string', False); o = 1
        else:
            rs, bs = cstr(h, st, n, 'string', False); o = 0
            pre = post = None
        args = [E.ptr(rs, o)] + ([E.ptr(rs, o + n)] if sub else [])
        for s, r in h.call(st, fn, *args):
            h.oblige(s, fn + ' returns its argument', lambda s: s.num.entails_eq(r - args[0]) or 'returns %r' % s.num.norm(r))
            for i in range(n):
                h.oblige(s, fn + ' converts exactly the bytes given', lambda s: h.eq(s, x.byte(s, rs, o + i), conv(s, bs[i])) or 'byte %d of %d is wrong' % (i, n))
            if sub: h.oblige(s, fn + ' changes nothing outside the range', lambda s: (h.eq(s, x.byte(s, rs, 0), pre) and h.eq(s, x.byte(s, rs, n + 1), post)) or 'a byte outside the range changes')
            else: h.oblige(s, fn + ' keeps the terminator', lambda s: h.eq(s, x.byte(s, rs, n), 0) or 'the terminator changes')


def run(res, tier):
    jobs = []
    deep = tier == 'thorough'
    for flag in ('-fsigned-char', '-funsigned-char'):
        x = Str(flag)
        def job(f, *a, x=x, flag=flag):
            def g(r):
                x.reset(); f(x, *a); r.add(x.h, 'strings' + flag)
            jobs.append(g)
        for k in range(5 if deep else 4): job(compare, k)
        for n in range(6 if deep else 5):
            for m in range(5 if deep else 4): job(prefix, n, m)
        for n in range(7 if deep else 5): job(convert, n)
    res.par(jobs)
