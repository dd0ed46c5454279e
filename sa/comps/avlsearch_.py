"""AVL trees: search, navigation and the protocol of the comparison function."""
from harness import *
from comps.avl_ import *


def run(res, tier):
    x = Avl(tier)
    jobs = []
    def job(shapes, q):
        def f(r):
            x.reset()
            for sh in shapes:
                if engine.late(): x.E.undecide('time budget'); break
                x.o.rank = {}; x.o.order = []
                for s, t, M in x.build(sh):
                    x.op = 'avl_tree_put'
                    x.walk(s, t, M, 'after inserting in level order')
                    x.neighbours(s, t, M)
                    if q: x.queries(s, t, M, '')
                    # a tree out of the reach of plain insertion: elements taken out again
                    if q and len(M) > 1:
                        for a, N, ctx in x.takes(s, t, M, ['avl_tree_pop'], [0, len(M) // 2, len(M) - 1])[:3]:
                            x.queries(a, t, N, ctx); x.neighbours(a, t, N)
            r.add(x.h, 'avltree')
        jobs.append(f)
    for n in range(8 if tier == 'quick' else 10):
        for c in chunks(by_size(n), 8):
            if c: job(c, True)
    for n in (8, 9, 10) if tier == 'quick' else (10, 11, 12, 13):
        for c in chunks(by_size(n), 8): job(c, n < 10)
    fib = sparse(5)
    for c in chunks(fib[::8], 4): job(c, True)
    # the two-argument constructor: same comparator, no context
    def two(r):
        x.reset()
        h = x.h
        ctx = x.o.ctx; x.o.ctx = None
        for s, t in h.call(h.state(), 'make_avl_tree', x.o.CMP):
            M = []
            x.op = 'make_avl_tree'
            x.walk(s, t, M, 'new tree')
            cur = [s]
            for i in range(3):
                k = x.key('k%d' % i, 2 * i + 1); v = x.o.value('v%d' % i)
                M.append((k, v))
                nxt = []
                for a in cur:
                    a.ghost['probe'] = k
                    nxt += [b for b, _ in h.call(a, 'avl_tree_put', t, k, v)]
                cur = nxt
            for a in cur:
                a.ghost.pop('probe', None)
                x.walk(a, t, M, 'make_avl_tree'); x.queries(a, t, M, '')
        x.o.ctx = ctx
        r.add(h, 'avltree')
    jobs.append(two)
    res.par(jobs)
