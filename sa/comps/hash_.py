"""Hash tables (hashtable.c): a map, whatever the hash function, equality and capacity; histories of operations."""
from harness import *
from opaque import Opaque

PUBLIC = ['make_hash_table', 'destroy_hash_table', 'destroy_hash_element', 'hash_table_size', 'hash_elem_get_key', 'hash_elem_get_value',
          'hash_table_get', 'hash_table_put', 'hash_table_detach', 'hash_table_remove', 'hash_table_pop', 'hash_table_pop_any',
          'hash_table_get_any', 'hash_table_get_other', 'hash_table_empty']


class HT:
    def __init__(self, tier):
        self.h = h = H(['hashtable', 'list', 'fsalloc'], unroll=3)
        h.onlymine = False
        self.E = h.E
        for f in PUBLIC: h.fn(f)
        self.o = Opaque(h)
        self.tier = tier
        self.op = ''

    def live(self, s): return [r for r in s.regions.values() if r.kind == 'heap' and r.alive]

    def make(self, lo=0, hi=SIZE_MAX):
        h = self.h
        u = self.E.unroll; self.E.unroll = 64        # the search for a capacity is taken step by step
        try: return [(s, t) for s, t in h.call(h.state(), 'make_hash_table', sym('capacity', lo, hi), self.o.HASH, self.o.CMP)]
        finally: self.E.unroll = u

    def elem_is(self, s, t, e, name, ctx, M):
        """e must be an element with the key and value of M; [(state)]"""
        h, E = self.h, self.E
        out = []
        k, v = M
        for a, kk in h.call(s, 'hash_elem_get_key', e):
            for b, vv in h.call(a, 'hash_elem_get_value', e):
                h.oblige(b, name, lambda q: (h.eq(q, kk, k) or '%s: key is %r instead of %r' % (ctx, q.num.norm(kk), k)) is True and (h.eq(q, vv, v) or '%s: value is %r instead of %r' % (ctx, q.num.norm(vv), v)), fn=self.op)
                out.append(b)
        return out

    def lookup(self, s, M, k):
        """index in M of the entry with a key equal to k, or None (may split)"""
        for i, (kk, vv) in enumerate(M):
            if self.o.eq(s, k, kk): return i
        return None

    def put(self, s, t, M, name):
        h, E = self.h, self.E
        k = self.o.key(name); v = self.o.value(name)
        out = []
        self.op = 'hash_table_put'
        for a, r in h.call(s, 'hash_table_put', t, k, v):
            def case(q):
                i = self.lookup(q, M, k)
                if i is None: return None, None
                return i, h.eq(q, v, M[i][1])
            for q, (i, same) in h.each(a, case):
                if i is None or same:
                    h.oblige(q, 'put returns NULL for a new key or the same value', lambda s: h.eq(s, r, 0) or 'put returns %r' % s.num.norm(r), fn='hash_table_put')
                    out.append((q, M if same else M + [(k, v)]))
                else:
                    def old(s):
                        R, off = E.resolve(s, r)
                        if R is None: return 'put returns %r instead of the replaced element' % s.num.norm(r)
                        return R.alive or 'the replaced element has been released'
                    if not h.oblige(q, 'put returns the replaced element', old, fn='hash_table_put'): continue
                    for b in self.elem_is(q, t, r, 'the replaced element keeps its key and value', 'replaced element', M[i]):
                        for c, _ in h.call(b, 'destroy_hash_element', r):
                            out.append((c, M[:i] + [(k, v)] + M[i + 1:]))
        return out

    def get(self, s, t, M, k, ctx):
        """lookup through the public function, checked against M; [(state, index, elem)]"""
        h, E = self.h, self.E
        out = []
        for a, r in h.call(s, 'hash_table_get', t, k):
            for q, i in h.each(a, lambda q: self.lookup(q, M, k)):
                if i is None:
                    h.oblige(q, 'lookup of an absent key gives NULL', lambda s: h.eq(s, r, 0) or '%s: an absent key is found' % ctx, fn=self.op)
                    out.append((q, None, ZERO))
                else:
                    def there(s):
                        R, off = E.resolve(s, r)
                        if R is None: return '%s: stored key is not found' % ctx
                        return R.alive or '%s: a released element is found' % ctx
                    if not h.oblige(q, 'lookup of a stored key finds its element', there, fn=self.op): continue
                    for b in self.elem_is(q, t, r, 'the element found has the key and value last stored', ctx, M[i]): out.append((b, i, r))
        return out

    def check(self, s, t, M, ctx):
        """all observers agree with M"""
        h, E = self.h, self.E
        for a, r in h.call(s, 'hash_table_size', t):
            h.oblige(a, 'size counts the stored elements', lambda s: h.eq(s, E.canon(s, r, 64), len(M)) or '%s: size is %r, not %d' % (ctx, s.num.norm(r), len(M)), fn=self.op)
        for a, r in h.call(s, 'hash_table_empty', t):
            h.oblige(a, 'empty is right', lambda s: h.boolv(s, r) == (not M) or '%s: empty() is wrong' % ctx, fn=self.op)
        q = self.o.key('query')
        self.get(s, t, M, q, ctx)
        # every stored key is still found
        for i, (k, v) in enumerate(M): self.get(s, t, M, k, ctx)
        self.o.order.pop()
        if len(M) > 2 and self.tier == 'quick': return
        # iteration
        work = [(a, r, []) for a, r in h.call(s, 'hash_table_get_any', t)]
        while work:
            a, r, seen = work.pop()
            def isnull(q): return E.resolve(q, r)[0] is None and h.eq(q, r, 0)
            for b, z in h.each(a, isnull):
                if z:
                    h.oblige(b, 'iteration visits every stored element', lambda s: len(seen) == len(M) or '%s: iteration visits %d of %d elements' % (ctx, len(seen), len(M)), fn=self.op)
                    continue
                if not h.oblige(b, 'iteration yields elements', lambda s: (E.resolve(s, r)[0] is not None and E.resolve(s, r)[0].alive) or '%s: iteration yields %r' % (ctx, s.num.norm(r)), fn=self.op): continue
                for c, kk in h.call(b, 'hash_elem_get_key', r):
                    for d, i in h.each(c, lambda q: self.lookup(q, M, kk) if self.o.rank_of(q, kk) is not None else None):
                        if not h.oblige(d, 'iteration yields stored elements only, each once', lambda s: (i is not None and i not in seen) or '%s: iteration yields %s' % (ctx, 'an element twice' if i is not None else 'something that is not stored'), fn=self.op): continue
                        for e in self.elem_is(d, t, r, 'iteration yields the stored elements', ctx, M[i]):
                            for g, n in h.call(e, 'hash_table_get_other', r): work.append((g, n, seen + [i]))

    def release(self, s, t, ctx):
        h = self.h
        for a, _ in h.call(s, 'destroy_hash_table', t):
            h.oblige(a, 'everything the table owns is released', lambda s: not self.live(s) or '%s: %s not released' % (ctx, ', '.join(r.name for r in self.live(s))), kind='leak', fn=self.op)

    def ops(self, s, t, M, only=None):
        """apply each operation; [(state, M, name)]"""
        h, E = self.h, self.E
        out = []
        if only in (None, 'put'): out += [(a, N, 'put') for a, N in self.put(s, t, M, 'op')]
        for fn in ('hash_table_pop', 'hash_table_detach', 'hash_table_remove', 'hash_table_pop_any'):
            if only not in (None, fn): continue
            if fn in ('hash_table_detach', 'hash_table_remove'):
                for i in range(len(M)):
                    self.op = 'hash_table_get'
                    for a, _, e in self.get(s, t, M, M[i][0], 'before'):
                        self.op = fn
                        N = M[:i] + M[i + 1:]
                        for b, _ in h.call(a, fn, t, e):
                            if fn.endswith('remove'): out.append((b, N, fn)); continue
                            out += [(c, N, fn) for c in self.taken(b, t, e, M[i])]
                continue
            self.op = fn
            if fn == 'hash_table_pop':
                k = self.o.key('popped')
                for a, e in h.call(s, fn, t, k):
                    for b, i in h.each(a, lambda q: self.lookup(q, M, k)):
                        if i is None:
                            h.oblige(b, 'pop of an absent key gives NULL', lambda s: h.eq(s, e, 0), fn=fn); out.append((b, M, fn))
                        else:
                            out += [(c, M[:i] + M[i + 1:], fn) for c in self.taken(b, t, e, M[i])]
            else:
                for a, e in h.call(s, fn, t):
                    if not M:
                        h.oblige(a, 'pop_any of an empty table gives NULL', lambda s: h.eq(s, e, 0), fn=fn); out.append((a, M, fn)); continue
                    if not h.oblige(a, 'pop_any gives an element of a nonempty table', lambda s: (E.resolve(s, e)[0] is not None and E.resolve(s, e)[0].alive) or 'pop_any gives %r' % s.num.norm(e), fn=fn): continue
                    for b, kk in h.call(a, 'hash_elem_get_key', e):
                        for c, i in h.each(b, lambda q: self.lookup(q, M, kk) if self.o.rank_of(q, kk) is not None else None):
                            if not h.oblige(c, 'pop_any gives a stored element', lambda s: i is not None, fn=fn): continue
                            out += [(d, M[:i] + M[i + 1:], fn) for d in self.taken(c, t, e, M[i])]
        return out

    def taken(self, s, t, e, M):
        """an element taken out: readable, then destroyed by the caller"""
        h, E = self.h, self.E
        if not h.oblige(s, 'the element taken out is handed over', lambda s: (E.resolve(s, e)[0] is not None and E.resolve(s, e)[0].alive) or 'the element is %r' % s.num.norm(e), fn=self.op): return []
        out = []
        for b in self.elem_is(s, t, e, 'the element taken out keeps its key and value', 'taken out', M):
            out += [c for c, _ in h.call(b, 'destroy_hash_element', e)]
        return out

    def tables(self, n, lo, hi):
        """tables after n puts; [(state, table, M)]"""
        cur = [(s, t, []) for s, t in self.make(lo, hi)]
        for i in range(n):
            cur = [(a, t, N) for s, t, M in cur for a, N in self.put(s, t, M, 'k%d' % i)]
        return cur

    def reset(self):
        h, E = self.h, self.E
        h.obl = {}; E.violations = []; E.undecided = []; E._seen = set()
        E.stats = {k: (0 if isinstance(v, int) else v) for k, v in E.stats.items()}

    def history(self, res, n, ops, part=None, lo=0, hi=53, only=None, hashes=None):
        """n puts, then `ops` operations; part: (index of the state after the puts, first operation);
        hashes: partition by hash value (the table is then followed slot by slot)"""
        self.reset()
        self.o.hashvals = hashes
        self.E.unroll = 3 if hashes is None else 64
        try: self.history_(n, ops, part, lo, hi, only)
        finally: self.E.unroll = 3
        res.add(self.h, 'hashtable')

    def history_(self, n, ops, part, lo, hi, only):
        cur = self.tables(n, lo, hi)
        for k, (s, t, M) in enumerate(cur):
            if part is not None and k % part[1] != part[0]: continue
            if not ops:
                self.op = 'hash_table_put' if n else 'make_hash_table'
                self.check(s, t, M, 'after %d puts' % n)
                self.release(s, t, 'after %d puts' % n)
            front = [(s, M, 'put')]
            for j in range(ops):
                nxt = []
                for a, N, d in front: nxt += self.ops(a, t, N, only if j == 0 else None)
                front = nxt
                if j < ops - 1: continue
                for a, N, d in front:
                    self.op = 'hash_table_put' if d == 'put' else d
                    self.check(a, t, N, 'after ' + d); self.release(a, t, 'after ' + d)


OPS = ['put', 'hash_table_pop', 'hash_table_detach', 'hash_table_remove', 'hash_table_pop_any']


def run(res, tier):
    x = HT(tier)
    # followed slot by slot
    jobs = [lambda r, op=op: x.history(r, 2, 2, only=op, hashes=(1, 52)) for op in OPS]
    jobs += [lambda r, op=op: x.history(r, 2, 1, only=op, hashes=(0, 1, 52, 53)) for op in OPS]
    jobs += [lambda r, op=op: x.history(r, 3, 1, only=op, hashes=(0, 52)) for op in OPS]
    # for every hash value
    for i in range(6):
        for op in OPS: jobs.append(lambda r, i=i, op=op: x.history(r, 2, 1, (i, 6), only=op))
    jobs += [lambda r, n=n: x.history(r, n, 0, lo=0, hi=SIZE_MAX) for n in (0,)]
    jobs += [lambda r, n=n: x.history(r, n, 0) for n in (0, 1, 2)]
    jobs += [lambda r, op=op, n=n: x.history(r, n, 1, only=op) for op in OPS for n in (0, 1)]
    # other capacities, the largest one included
    jobs += [lambda r, c=c: x.history(r, 1, 1, lo=c[0], hi=c[1]) for c in ((54, 97), (805306458, SIZE_MAX))]
    if tier == 'thorough':
        jobs += [lambda r, op=op: x.history(r, 1, 2, only=op) for op in OPS]
        for i in range(32):
            for op in OPS: jobs.append(lambda r, i=i, op=op: x.history(r, 3, 1, (i, 32), only=op))
    res.par(jobs)
