"""Duplicate, split and strip (charstr.c) on strings of symbolic bytes, with symbolic delimiters and split counts."""
from harness import *
from comps.strings_ import Str, region, cstr, WS

PUBLIC = ['charstr_dupstr', 'charstr_dupsubstr', 'charstr_split', 'charstr_split_into_array', 'charstr_split_atoms', 'charstr_split_str', 'charstr_strip',
          'list_size', 'list_get_first', 'list_next', 'list_elem_get_value', 'destroy_list', 'fsfree']


class Sp(Str):
    def __init__(self):
        Str.__init__(self, '-fsigned-char', PUBLIC)
        self.E.pieces = 0; self.h.onlymine = False

    def live(self, s, old): return [r for r in s.regions.values() if r.kind == 'heap' and r.alive and r.id not in old]

    def is_ws(self, s, b):
        h = self.h
        b = s.num.norm(b)
        return h.eq(s, b, 32) or (h.ge(s, b, 9) and h.ge(s, 13, b) and not h.eq(s, b, 11))

    def string_is(self, s, p, bs, name, ctx, old, fn):
        """p must be a fresh NUL-terminated string of exactly the bytes bs"""
        h, E = self.h, self.E
        def ok(q):
            r, off = E.resolve(q, p)
            if r is None: return '%s: %r instead of a string' % (ctx, q.num.norm(p))
            if not r.alive: return '%s: the string has been released' % ctx
            if r.id in old: return '%s: not a fresh string' % ctx
            if not q.num.entails_eq(off): return '%s: not the beginning of a block' % ctx
            for i, b in enumerate(list(bs) + [ZERO]):
                if not h.ge(q, r.size - i - 1): return '%s: the block is too small' % ctx
                v = E.canon(q, E.read(q, r, K(i), 1), 8)
                if not h.eq(q, v, b): return '%s: byte %d is %r instead of %r' % (ctx, i, q.num.norm(v), q.num.norm(b))
            return True
        return h.oblige(s, name, ok, fn=fn)

    def distinct(self, s, ps, ctx, fn):
        h, E = self.h, self.E
        def ok(q):
            ids = [E.resolve(q, p)[0] for p in ps]
            return len({r.id for r in ids if r is not None}) == len(ps) or '%s: pieces share a block' % ctx
        return h.oblige(s, 'every piece is a string of its own', ok, fn=fn)

    def free_all(self, s, ps, lst, old, ctx, fn):
        h, E = self.h, self.E
        cur = [s]
        for p in ps: cur = [b for a in cur for b, _ in h.call(a, 'fsfree', p)]
        if lst is not None: cur = [b for a in cur for b, _ in h.call(a, 'destroy_list', lst)]
        for a in cur:
            h.oblige(a, 'nothing else is allocated', lambda q: not self.live(q, old) or '%s: %s not released' % (ctx, ', '.join(r.name for r in self.live(q, old))), kind='leak', fn=fn)

    def list_is(self, s, lst, pieces, name, ctx, old, fn):
        """the list holds exactly these strings"""
        h, E = self.h, self.E
        for a, n in h.call(s, 'list_size', lst):
            if not h.oblige(a, name, lambda q: h.eq(q, E.canon(q, n, 64), len(pieces)) or '%s: %r pieces instead of %d' % (ctx, q.num.norm(n), len(pieces)), fn=fn): return
        cur = [(a, e, []) for a, e in h.call(s, 'list_get_first', lst)]
        for i in range(len(pieces)):
            nxt = []
            for a, e, ps in cur:
                for b, v in h.call(a, 'list_elem_get_value', e):
                    if not self.string_is(b, v, pieces[i], name, '%s, piece %d of %d' % (ctx, i, len(pieces)), old, fn): continue
                    nxt += [(c, f, ps + [v]) for c, f in h.call(b, 'list_next', e)]
            cur = nxt
        for a, e, ps in cur:
            if not self.distinct(a, ps, ctx, fn): continue
            self.free_all(a, ps, lst, old, ctx, fn)

    # ------------------------------------------------------------------
    def dup(self, n):
        h, E = self.h, self.E
        st = h.state(); rs, S = cstr(h, st, n, 'string')
        old = set(st.regions)
        for fn, args in (('charstr_dupstr', (E.ptr(rs),)), ('charstr_dupsubstr', (E.ptr(rs), ZERO))):
            for s, r in h.call(st.copy(), fn, *args):
                if self.string_is(s, r, S, fn + ' copies the string', 'length %d' % n, old, fn): self.free_all(s, [r], None, old, fn, fn)
        # a range: any bytes, no terminator
        st = h.state()
        S = [sym('s%d' % i, 0, 255) for i in range(n)]
        rs = region(h, st, S, 'range'); old = set(st.regions)
        for s, r in h.call(st, 'charstr_dupsubstr', E.ptr(rs), E.ptr(rs, n)):
            if self.string_is(s, r, S, 'charstr_dupsubstr copies the range', 'range of %d' % n, old, 'charstr_dupsubstr'): self.free_all(s, [r], None, old, 'range', 'charstr_dupsubstr')

    def nulls(self):
        h, E = self.h, self.E
        st = h.state(); rs, S = cstr(h, st, 1, 'string'); old = set(st.regions)
        for fn, args in (('charstr_dupstr', (ZERO,)), ('charstr_dupsubstr', (ZERO, ZERO)), ('charstr_dupsubstr', (ZERO, E.ptr(rs))), ('charstr_strip', (ZERO,))):
            for s, r in h.call(st.copy(), fn, *args):
                h.oblige(s, fn + ' of NULL is NULL', lambda q: h.eq(q, r, 0) and not self.live(q, old), fn=fn)

    def strip(self, n):
        h, E = self.h, self.E
        st = h.state(); rs, S = cstr(h, st, n, 'string'); old = set(st.regions)
        fn = 'charstr_strip'
        def spec(q):
            i, j = 0, n
            while i < j and self.is_ws(q, S[i]): i += 1
            while j > i and self.is_ws(q, S[j - 1]): j -= 1
            return i, j
        for s, r in h.call(st, fn, E.ptr(rs)):
            for q, (i, j) in h.each(s, spec):
                if self.string_is(q, r, S[i:j], 'strip removes exactly the whitespace around', 'length %d, kept %d..%d' % (n, i, j), old, fn): self.free_all(q, [r], None, old, fn, fn)

    def atoms(self, n):
        h, E = self.h, self.E
        st = h.state(); rs, S = cstr(h, st, n, 'string'); old = set(st.regions)
        fn = 'charstr_split_atoms'
        def spec(q):
            out, cur = [], []
            for i in range(n):
                if self.is_ws(q, S[i]):
                    if cur: out.append(cur)
                    cur = []
                else: cur = cur + [S[i]]
            if cur: out.append(cur)
            return out
        for s, r in h.call(st, fn, E.ptr(rs)):
            for q, w in h.each(s, spec): self.list_is(q, r, w, 'split_atoms gives the maximal non-whitespace runs', 'length %d' % n, old, fn)

    def cut(self, q, S, D, limit):
        """pieces of S cut at the first `limit` (symbolic) occurrences of D"""
        h = self.h
        out, cur, i, k = [], [], 0, 0
        while i < len(S):
            hit = i + len(D) <= len(S) and h.ge(q, limit, k + 1)
            for j, d in enumerate(D):
                if not hit: break
                hit = h.eq(q, S[i + j], d)
            if hit: out.append(cur); cur = []; i += len(D); k += 1
            else: cur = cur + [S[i]]; i += 1
        return out + [cur]

    def split(self, n):
        h, E = self.h, self.E
        fn = 'charstr_split'
        st = h.state(); rs, S = cstr(h, st, n, 'string'); old = set(st.regions)
        d = sym('delim', -128, 127); st.num.assume_ne(d)
        m = sym('max_split', 0, (1 << 32) - 1)
        for s, r in h.call(st, fn, E.ptr(rs), d, m):
            for q, w in h.each(s, lambda q: self.cut(q, S, [E.canon(q, d, 8)], m)): self.list_is(q, r, w, 'split cuts at the first max_split delimiters', 'length %d' % n, old, fn)

    def split_str(self, n, k):
        h, E = self.h, self.E
        fn = 'charstr_split_str'
        st = h.state(); rs, S = cstr(h, st, n, 'string'); rd, D = cstr(h, st, k, 'delimiter'); old = set(st.regions)
        m = sym('max_split', 0, (1 << 32) - 1)
        for s, r in h.call(st, fn, E.ptr(rs), E.ptr(rd), m):
            for q, w in h.each(s, lambda q: self.cut(q, S, D, m)): self.list_is(q, r, w, 'split_str cuts at the first max_split delimiters', 'length %d, delimiter of %d' % (n, k), old, fn)

    def array(self, n, m):
        h, E = self.h, self.E
        fn = 'charstr_split_into_array'
        st = h.state(); rs, S = cstr(h, st, n, 'string')
        A = E.new_region(st, 'array', 8 * (m + 1), 'heap', Uninit())
        old = set(st.regions)
        d = sym('delim', -128, 127); st.num.assume_ne(d)
        for s, r in h.call(st, fn, E.ptr(rs), d, E.ptr(A), m):
            for q, w in h.each(s, lambda q: self.cut(q, S, [E.canon(q, d, 8)], K(m))):
                ctx = 'length %d, max_split %d' % (n, m)
                if not h.oblige(q, 'split_into_array returns the number of cuts', lambda x: h.eq(x, E.canon(x, r, 32), len(w) - 1) or '%s: %r instead of %d' % (ctx, x.num.norm(r), len(w) - 1), fn=fn): continue
                ps = []
                good = True
                for i, p in enumerate(w):
                    v = E.read(q, q.regions[A.id], K(8 * i), 8); ps.append(v)
                    good = good and self.string_is(q, v, p, 'split_into_array cuts at the first max_split delimiters', '%s, piece %d' % (ctx, i), old, fn)
                if good and self.distinct(q, ps, ctx, fn): self.free_all(q, ps, None, old, ctx, fn)


def run(res, tier):
    x = Sp()
    jobs = []
    deep = tier == 'thorough'
    def job(f, *a):
        def g(r):
            x.reset(); f(*a); r.add(x.h, 'split')
        jobs.append(g)
    N = 6 if deep else 5
    job(x.nulls)
    for n in range(N + 1):
        job(x.dup, n)
        job(x.strip, n); job(x.atoms, n); job(x.split, n)
        for k in (1, 2, 3): job(x.split_str, n, k)
    for n in range(5):
        for m in range(4): job(x.array, n, m)
    res.par(jobs)
