"""AVL trees (avltree.c): every operation on every balanced shape of bounded size, with symbolic keys, values and order."""
from harness import *
from opaque import Opaque

PUBLIC = ['avl_elem_get_key', 'avl_elem_get_value', 'make_avl_tree_2', 'make_avl_tree', 'destroy_avl_tree', 'destroy_avl_element', 'avl_tree_size',
          'avl_tree_get', 'avl_tree_previous', 'avl_tree_get_before', 'avl_tree_get_on_or_before', 'avl_tree_next', 'avl_tree_get_after',
          'avl_tree_get_on_or_after', 'avl_tree_put', 'avl_tree_detach', 'avl_tree_remove', 'avl_tree_pop', 'avl_tree_empty',
          'avl_tree_get_first', 'avl_tree_get_last', 'avl_tree_pop_first', 'avl_tree_pop_last', 'avl_tree_copy']


def sparse(h):
    """the AVL shapes of height h with the fewest nodes (12 for 5, 20 for 6)"""
    if h == 0: return [None]
    if h == 1: return [(None, None)]
    a, b = sparse(h - 1), sparse(h - 2)
    return [(l, r) for l in a for r in b] + [(r, l) for l in a for r in b]


def by_size(n):
    """all AVL shapes of n nodes"""
    out = []
    if n == 0: return [None]
    def rec(n, memo={0: [(None, 0)]}):
        if n in memo: return memo[n]
        o = []
        for i in range(n):
            for l, hl in rec(i):
                for r, hr in rec(n - 1 - i):
                    if abs(hl - hr) <= 1: o.append(((l, r), 1 + max(hl, hr)))
        memo[n] = o
        return o
    return [s for s, h in rec(n)]


def insertion_order(shape):
    """in-order positions in level order: inserting them in that order gives the shape without any rotation"""
    pos = {}
    def number(t, k):
        if t is None: return k
        k = number(t[0], k); pos[id(t)] = k; return number(t[1], k + 1)
    # nodes may be shared between shapes: give every occurrence its own identity
    def fresh(t): return None if t is None else [fresh(t[0]), fresh(t[1])]
    t = fresh(shape); number(t, 0)
    out = []; level = [t] if t else []
    while level:
        out += [pos[id(x)] for x in level]
        level = [c for x in level for c in x if c is not None]
    return out


class Avl:
    def __init__(self, tier):
        self.h = h = H(['avltree', 'fsalloc'], unroll=40)
        h.onlymine = False
        self.E = h.E
        for f in PUBLIC: h.fn(f)
        self.o = Opaque(h)
        self.o.ctx = sym('context', 4096, SIZE_MAX, tag='user')
        self.E.maxsteps = 10 ** 9
        self.tier = tier
        self.op = ''
        self.lay()

    def lay(self):
        try:
            self.T = build.layout(['avltree.h', 'avltree_imp.h'], 'avl_tree', ['root', 'size'])
            self.N = build.layout(['avltree.h', 'avltree_imp.h'], 'avl_elem', ['key', 'value', 'left', 'right', 'parent', 'balance'])
        except build.BuildError: self.T = self.N = None       # other representation: only the public view is checked

    def reset(self):
        h, E = self.h, self.E
        h.obl = {}; E.violations = []; E.undecided = []; E._seen = set()
        E.stats = {k: (0 if isinstance(v, int) else v) for k, v in E.stats.items()}
        self.o.rank = {}; self.o.order = []

    def live(self, s): return [r for r in s.regions.values() if r.kind == 'heap' and r.alive]

    def key(self, name, rank):
        k = self.o.key(name); self.o.rank[k.t[0][0]] = rank if isinstance(rank, Lin) else K(rank)
        return k

    def build(self, shape):
        """[(state, tree, M)] for the shape; M: ordered [(key, value)], the key at position i having rank 2i+1"""
        h = self.h
        order = insertion_order(shape)
        items = {i: (self.key('k%d' % i, 2 * i + 1), self.o.value('v%d' % i)) for i in order}
        out = []
        for s, t in h.call(h.state(), 'make_avl_tree_2', self.o.CMP, self.o.ctx):
            cur = [s]
            for j, i in enumerate(order):
                nxt = []
                for a in cur:
                    a.ghost['probe'] = items[i][0]
                    for b, r in h.call(a, 'avl_tree_put', t, *items[i]):
                        b.ghost.pop('probe', None)
                        h.oblige(b, 'put returns NULL for a new key', lambda s: h.eq(s, r, 0) or 'put of a new key returns %r' % s.num.norm(r), fn='avl_tree_put')
                        nxt.append(b)
                cur = nxt
            for a in cur: out.append((a, t, [items[i] for i in sorted(items)]))
        return out

    # ---------------------------------------------------------------- the invariant
    def structure(self, s, t, M, ctx, other=None):
        """the tree at t must be a balanced search tree denoting exactly M; True or a message"""
        h, E = self.h, self.E
        if self.N is None: return True
        T, N = self.T, self.N
        R, off = E.resolve(s, t)
        if R is None or not R.alive: return '%s: the tree is gone' % ctx
        seen = set()
        out = []
        def node(p, parent, depth):
            if h.eq(s, p, 0) if E.resolve(s, p)[0] is None else False: return 0
            r, o = E.resolve(s, p)
            if r is None or not r.alive: raise Bad('a link leads to %r' % s.num.norm(p))
            if r.id in seen or depth > 64: raise Bad('an element is linked twice')
            seen.add(r.id)
            g = lambda f: E.read(s, r, o + N[f], N[f + '.size'])
            l, rt, up, bal = g('left'), g('right'), g('parent'), g('balance')
            if not s.num.entails_eq(up - parent): raise Bad('the parent link of an element is %r instead of %r' % (s.num.norm(up), s.num.norm(parent)))
            hl = node(l, p, depth + 1)
            out.append((g('key'), g('value'), p))
            hr = node(rt, p, depth + 1)
            if abs(hl - hr) > 1: raise Bad('subtrees of heights %d and %d' % (hl, hr))
            b = E.canon(s, bal, N['balance.size'] * 8, True)
            if not s.num.entails_eq(b - (hr - hl)): raise Bad('recorded balance %r, subtree heights %d and %d' % (s.num.norm(b), hl, hr))
            return 1 + max(hl, hr)
        class Bad(Exception): pass
        try: node(E.read(s, R, off + T['root'], 8), ZERO, 0)
        except Bad as b: return '%s: %s' % (ctx, b)
        if len(out) != len(M): return '%s: the tree links %d elements instead of %d' % (ctx, len(out), len(M))
        for i, ((k, v, p), (kk, vv)) in enumerate(zip(out, M)):
            if not s.num.entails_eq(k - kk): return '%s: element %d in order has key %r instead of %r' % (ctx, i, s.num.norm(k), kk)
            if not s.num.entails_eq(v - vv): return '%s: element %d in order has value %r instead of %r' % (ctx, i, s.num.norm(v), vv)
        sz = E.canon(s, E.read(s, R, off + T['size'], T['size.size']), T['size.size'] * 8)
        if not s.num.entails_eq(sz - len(M)): return '%s: recorded size %r of %d elements' % (ctx, s.num.norm(sz), len(M))
        if other is not None and seen & other: return '%s: an element is shared' % ctx
        self.last = seen
        return True

    def expect_elem(self, s, r, kv, name, ctx):
        """r must be the live element holding kv (None: NULL); [states]"""
        h, E = self.h, self.E
        if kv is None:
            h.oblige(s, name, lambda q: h.eq(q, r, 0) if E.resolve(q, r)[0] is None else '%s: an element instead of NULL' % ctx, fn=self.op)
            return [s]
        def there(q):
            R, _ = E.resolve(q, r)
            if R is None: return '%s: %r instead of an element' % (ctx, q.num.norm(r))
            return R.alive or '%s: a released element' % ctx
        if not h.oblige(s, name, there, fn=self.op): return []
        out = []
        for a, k in h.call(s, 'avl_elem_get_key', r):
            for b, v in h.call(a, 'avl_elem_get_value', r):
                h.oblige(b, name, lambda q: q.num.entails_eq(k - kv[0]) or '%s: key is %r instead of %r' % (ctx, q.num.norm(k), kv[0]), fn=self.op)
                h.oblige(b, name, lambda q: q.num.entails_eq(v - kv[1]) or '%s: value is %r instead of %r' % (ctx, q.num.norm(v), kv[1]), fn=self.op)
                out.append(b)
        return out

    def walk(self, s, t, M, ctx, back=True):
        """first/next and last/previous give M in order; size and empty agree. [(state, [element pointers])]"""
        h, E = self.h, self.E
        for a, r in h.call(s, 'avl_tree_size', t):
            h.oblige(a, 'size counts the stored elements', lambda q: h.eq(q, E.canon(q, r, 64), len(M)) or '%s: size is %r, not %d' % (ctx, q.num.norm(r), len(M)), fn=self.op)
        for a, r in h.call(s, 'avl_tree_empty', t):
            h.oblige(a, 'empty is right', lambda q: h.boolv(q, r) == (not M) or '%s: empty() is wrong' % ctx, fn=self.op)
        res = []
        for first, step, seq in (('avl_tree_get_first', 'avl_tree_next', M), ('avl_tree_get_last', 'avl_tree_previous', M[::-1]))[:2 if back else 1]:
            cur = [(a, r, []) for a, r in h.call(s, first, t)]
            for i in range(len(seq) + 1):
                nxt = []
                for a, r, ps in cur:
                    for b in self.expect_elem(a, r, seq[i] if i < len(seq) else None, '%s and %s follow key order' % (first, step), ctx):
                        if i < len(seq): nxt += [(c, n, ps + [r]) for c, n in h.call(b, step, r)]
                        else: nxt.append((b, r, ps))
                cur = nxt
            if not res: res = [(a, ps) for a, r, ps in cur]
        return res

    def invariant(self, s, t, M, ctx, full):
        h = self.h
        h.oblige(s, 'well-formed, balanced and exactly the expected contents', lambda q: self.structure(q, t, M, ctx), fn=self.op)
        if full or self.N is None: self.walk(s, t, M, ctx)

    def release(self, s, t, ctx):
        h = self.h
        for a, _ in h.call(s, 'destroy_avl_tree', t):
            h.oblige(a, 'everything the tree owns is released', lambda q: not self.live(q) or '%s: %s not released' % (ctx, ', '.join(r.name for r in self.live(q))), kind='leak', fn=self.op)

    def taken(self, s, r, kv, ctx):
        """an element taken out is readable, then destroyed by the caller"""
        return [c for b in self.expect_elem(s, r, kv, 'the element taken out is handed over intact', ctx) for c, _ in self.h.call(b, 'destroy_avl_element', r)]

    # ---------------------------------------------------------------- mutation
    def handle(self, s, t, M, i):
        """the element at position i, by search; [(state, element)]"""
        return self.h.call(s, 'avl_tree_get', t, M[i][0])

    def puts(self, s, t, M, gaps=None, same=None):
        """new keys at each gap, then existing keys with another / the same value; [(state, M', ctx)]"""
        h = self.h
        self.op = 'avl_tree_put'
        out = []
        v = self.o.value('new')
        for g in (range(len(M) + 1) if gaps is None else gaps):
            k = self.key('new', self.between(M, g))
            ctx = 'put of a new key at position %d of %d' % (g, len(M))
            s.ghost['probe'] = k
            for a, r in h.call(s, 'avl_tree_put', t, k, v):
                a.ghost.pop('probe', None)
                for b in self.expect_elem(a, r, None, 'put returns NULL for a new key', ctx): out.append((b, M[:g] + [(k, v)] + M[g:], ctx))
        for i in (range(len(M)) if same is None else same):
            k = self.key('again', self.rank(M, i))
            s.ghost['probe'] = k
            ctx = 'put of another value under the key at position %d of %d' % (i, len(M))
            for a, r in h.call(s, 'avl_tree_put', t, k, v):
                a.ghost.pop('probe', None)
                def case(q): return h.eq(q, v, M[i][1])
                for b, eq in h.each(a, case):
                    if eq:
                        for c in self.expect_elem(b, r, None, 'put of the value already stored returns NULL', ctx): out.append((c, M, ctx))
                    else:
                        for c in self.expect_elem(b, r, M[i], 'put returns the replaced element', ctx):
                            for d, _ in h.call(c, 'destroy_avl_element', r): out.append((d, M[:i] + [(k, v)] + M[i + 1:], ctx))
            s.ghost.pop('probe', None)
        return out

    def rank(self, M, i): return self.o.rank[M[i][0].t[0][0]].c

    def between(self, M, g):
        """a rank between positions g-1 and g"""
        from fractions import Fraction
        if not M: return 1
        if g == 0: return self.rank(M, 0) - 1
        if g == len(M): return self.rank(M, g - 1) + 1
        return (self.rank(M, g - 1) + self.rank(M, g)) // 2

    def takes(self, s, t, M, fns, pos=None):
        h = self.h
        out = []
        for fn in fns:
            self.op = fn
            if fn in ('avl_tree_detach', 'avl_tree_remove'):
                for i in (range(len(M)) if pos is None else pos):
                    ctx = '%s of position %d of %d' % (fn, i, len(M))
                    self.op = 'avl_tree_get'
                    for a, e in self.handle(s, t, M, i):
                        for b in self.expect_elem(a, e, M[i], 'get finds a stored key', ctx):
                            self.op = fn
                            for c, _ in h.call(b, fn, t, e):
                                N = M[:i] + M[i + 1:]
                                out += [(d, N, ctx) for d in (self.taken(c, e, M[i], ctx) if fn.endswith('detach') else [c])]
            elif fn == 'avl_tree_pop':
                for i in (range(len(M)) if pos is None else pos):
                    ctx = 'pop of the key at position %d of %d' % (i, len(M))
                    k = self.key('popped', self.rank(M, i))
                    for a, e in h.call(s, fn, t, k): out += [(d, M[:i] + M[i + 1:], ctx) for d in self.taken(a, e, M[i], ctx)]
                for g in (0, len(M) // 2, len(M)):
                    k = self.key('popped', self.between(M, g))
                    for a, e in h.call(s, fn, t, k):
                        out += [(b, M, 'pop of an absent key') for b in self.expect_elem(a, e, None, 'pop of an absent key gives NULL', 'pop')]
            else:
                i = 0 if fn == 'avl_tree_pop_first' else len(M) - 1
                for a, e in h.call(s, fn, t):
                    if not M: out += [(b, M, fn) for b in self.expect_elem(a, e, None, 'pop from an empty tree gives NULL', fn)]
                    else: out += [(d, M[:i] + M[i + 1:], fn) for d in self.taken(a, e, M[i], fn)]
        return out

    def copies(self, s, t, M):
        h = self.h
        self.op = 'avl_tree_copy'
        for a, c in h.call(s, 'avl_tree_copy', t):
            def same(q):
                r = self.structure(q, t, M, 'the original after copying')
                if r is not True: return r
                return self.structure(q, c, M, 'the copy', getattr(self, 'last', set()))
            h.oblige(a, 'the copy is equal and shares nothing', same, fn='avl_tree_copy')
            if self.N is not None: h.oblige(a, 'the copy has the same shape', lambda q: self.shape(q, t) == self.shape(q, c), fn='avl_tree_copy')
            self.walk(a, c, M, 'copy')
            # the copy outlives changes of the original
            for b, N, ctx in self.takes(a, t, M, ['avl_tree_pop_first']):
                self.op = 'avl_tree_copy'
                for d, _ in h.call(b, 'destroy_avl_tree', t):
                    self.invariant(d, c, M, 'the copy after the original is destroyed', True)
                    self.queries(d, c, M, 'copy')
                    for N2, f, x in [(N2, f, x) for f, N2, x in self.puts(d, c, M, gaps=[len(M)], same=[])]:
                        self.invariant(f, c, N2, 'the copy after ' + x, False); self.release(f, c, 'copy')

    def shape(self, s, t):
        E, T, N = self.E, self.T, self.N
        def rec(p):
            if s.num.entails_eq(p): return None
            r, o = E.resolve(s, p)
            return (rec(E.read(s, r, o + N['left'], 8)), rec(E.read(s, r, o + N['right'], 8)))
        R, off = E.resolve(s, t)
        return rec(E.read(s, R, off + T['root'], 8))

    # ---------------------------------------------------------------- search
    def queries(self, s, t, M, ctx):
        """each search function with a key anywhere in the order"""
        h, E = self.h, self.E
        q = self.key('query', sym('rank_query', 0, 1 << 40))
        rank = self.o.rank[q.t[0][0]]
        s.ghost['probe'] = q
        for fn in ('avl_tree_get', 'avl_tree_get_before', 'avl_tree_get_on_or_before', 'avl_tree_get_after', 'avl_tree_get_on_or_after'):
            self.op = fn
            for a, r in h.call(s, fn, t, q):
                def place(st):
                    """number of elements below the key; whether an element has an equal key"""
                    for i in range(len(M)):
                        ri = self.o.rank[M[i][0].t[0][0]]
                        if E.decide(st, 'eq', rank - ri): return i, True
                        if E.decide(st, 'ge', ri - rank): return i, False
                    return len(M), False
                for b, (i, hit) in h.each(a, place):
                    if fn == 'avl_tree_get': x = i if hit else None
                    elif fn == 'avl_tree_get_before': x = i - 1
                    elif fn == 'avl_tree_get_on_or_before': x = i if hit else i - 1
                    elif fn == 'avl_tree_get_after': x = i + 1 if hit else i
                    else: x = i
                    b.ghost.pop('probe', None)
                    self.expect_elem(b, r, M[x] if x is not None and 0 <= x < len(M) else None, '%s finds the right element' % fn, '%s of a key %s position %d of %d' % (fn, 'at' if hit else 'below', i, len(M)))
        s.ghost.pop('probe', None)

    def neighbours(self, s, t, M):
        """next and previous of every element, reached by search"""
        h = self.h
        for i in range(len(M)):
            self.op = 'avl_tree_get'
            for a, e in self.handle(s, t, M, i):
                for fn, j in (('avl_tree_next', i + 1), ('avl_tree_previous', i - 1)):
                    self.op = fn
                    for b, r in h.call(a, fn, e): self.expect_elem(b, r, M[j] if 0 <= j < len(M) else None, '%s gives the neighbour in key order' % fn, '%s of position %d of %d' % (fn, i, len(M)))


def mutations(x, shape, ops, two=False):
    for s, t, M in x.build(shape):
        x.op = 'avl_tree_put' if M else 'make_avl_tree_2'
        x.invariant(s, t, M, 'after inserting in level order', False)
        res = []
        if 'put' in ops: res += x.puts(s, t, M)
        res += x.takes(s, t, M, [o for o in ops if o.startswith('avl_')])
        n = 0
        for a, N, ctx in res:
            n += 1
            x.op = ctx.split()[0] if ctx.startswith('avl_') else 'avl_tree_' + ctx.split()[0]
            op = x.op
            x.invariant(a, t, N, ctx, len(M) <= 5)
            if len(M) <= 7 or n % 8 == 0: x.release(a, t, ctx)
            if two:
                for b, P, ctx2 in x.puts(a, t, N, gaps=[0, len(N)]) + x.takes(a, t, N, ['avl_tree_detach']):
                    x.op = op
                    x.invariant(b, t, P, ctx + ', then ' + ctx2, False); x.release(b, t, ctx + ', then ' + ctx2)
        if 'copy' in ops: x.copies(s, t, M)


OPS = ['put', 'avl_tree_detach', 'avl_tree_remove', 'avl_tree_pop', 'avl_tree_pop_first', 'avl_tree_pop_last', 'copy']


def chunks(l, n): return [l[i::n] for i in range(n)]


def run(res, tier):
    x = Avl(tier)
    jobs = []
    def job(shapes, ops, two=False):
        def f(r):
            x.reset()
            for sh in shapes:
                if engine.late(): x.E.undecide('time budget'); break
                mutations(x, sh, ops, two); x.o.rank = {}; x.o.order = []
            r.add(x.h, 'avltree')
        jobs.append(f)
    small = [s for n in range(6) for s in by_size(n)]
    for c in chunks(small, 8): job(c, OPS)
    mid = [s for n in (6, 7) for s in by_size(n)]
    for c in chunks(mid, 8): job(c, OPS)
    for n in range(8, 12) if tier == 'quick' else range(8, 15):
        for c in chunks(by_size(n), 16): job(c, ['put', 'avl_tree_detach'])
    # the sparsest trees: detaching shortens whole paths
    fib = sparse(5)
    for c in chunks(fib, 16): job(c, ['avl_tree_detach', 'put'])
    for c in chunks(sparse(6)[::128 if tier == 'quick' else 4], 16): job(c, ['avl_tree_detach'])
    for c in chunks(small + (mid if tier == 'thorough' else []), 16): job(c, ['put', 'avl_tree_detach'], True)
    res.par(jobs)
