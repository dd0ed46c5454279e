"""Priority queues (priority_queue.c): every operation on an arbitrary heap of bounded size, with a symbolic order."""
from harness import *
from opaque import Opaque

PUBLIC = ['make_priority_queue_2', 'make_priority_queue', 'destroy_priority_queue', 'priorq_enqueue', 'priorq_size', 'priorq_empty',
          'priorq_dequeue', 'priorq_peek', 'priorq_pop', 'priorq_remove']


class PQ:
    def __init__(self, tier):
        self.h = h = H(['priority_queue', 'fsalloc'], unroll=80)
        h.onlymine = False
        self.E = h.E
        for f in PUBLIC: h.fn(f)
        self.o = Opaque(h)
        self.ctx = self.o.ctx = sym('context', 4096, SIZE_MAX, tag='user')
        self.RELOC = sym('reloc', 4096, SIZE_MAX, tag='reloc')
        self.E.callbacks['reloc'] = self.reloc
        self.E.maxsteps = 10 ** 9
        self.tier = tier; self.op = ''
        try: self.L = build.layout(['priority_queue.c'], 'priorq', ['storage'])
        except build.BuildError: self.L = None

    def reset(self):
        h, E = self.h, self.E
        h.obl = {}; E.violations = []; E.undecided = []; E._seen = set()
        E.stats = {k: (0 if isinstance(v, int) else v) for k, v in E.stats.items()}
        self.o.rank = {}; self.o.order = []; self.o.ctx = self.ctx

    def live(self, s): return [r for r in s.regions.values() if r.kind == 'heap' and r.alive]
    def rank(self, e): return self.o.rank[e.t[0][0]]

    def reloc(self, E, st, args, inst):
        if self.o.ctx is not None and (len(args) != 3 or not st.num.entails_eq(args[2] - self.o.ctx)):
            E.violation('post', 'the relocation function is not given the context object', st)
        if self.o.rank_of(st, args[0]) is None:
            E.violation('post', 'the relocation function is told about %r, which is no element' % st.num.norm(args[0]), st); raise Stop()
        d = dict(st.ghost.get('loc', {})); d[self.name(st, args[0])] = args[1]
        st.ghost['loc'] = d
        return None

    def name(self, st, v):
        v = st.num.norm(v)
        if len(v.t) == 1: return v.t[0][0]
        return None

    def make(self, reloc=True, two=True):
        h = self.h
        R = self.RELOC if reloc else 0
        if two: self.o.ctx = self.ctx; return h.call(h.state(), 'make_priority_queue_2', self.o.CMP, R, self.o.ctx)
        self.o.ctx = None
        return h.call(h.state(), 'make_priority_queue', self.o.CMP, R)

    def heap(self, n, reloc=True, two=True, extra=0):
        """an arbitrary heap of n elements, put together in level order; [(state, queue, M)]"""
        h = self.h
        out = []
        M = [self.o.key('e%d' % i) for i in range(n)]
        self.op = 'priorq_enqueue'
        for s, q in self.make(reloc, two):
            for i in range(1, n): s.num.assume_ge(self.rank(M[i]) - self.rank(M[(i - 1) // 2]))
            cur = [s]
            for e in M: cur = [b for a in cur for b, _ in h.call(a, 'priorq_enqueue', q, e)]
            out += [(a, q, list(M)) for a in cur]
        return out

    def find(self, s, r, M):
        for i, e in enumerate(M):
            if s.num.entails_eq(r - e): return i
        return None

    def least(self, s, e, M):
        for m in M:
            if m is e or m == e: continue
            if not self.E.decide(s, 'ge', self.rank(m) - self.rank(e)): return False
        return True

    def gives(self, s, r, M, name, ctx, least):
        """r must be an element of M (a least one); its index, or None"""
        h = self.h
        if not M:
            h.oblige(s, name, lambda q: h.eq(q, r, 0) or '%s: %r from an empty queue' % (ctx, q.num.norm(r)), fn=self.op)
            return None
        i = self.find(s, r, M)
        def good(q):
            if i is None: return '%s: %r, which is not in the queue' % (ctx, q.num.norm(r))
            if least and not self.least(q, M[i], M): return '%s: an element that another one precedes' % ctx
            return True
        if not h.oblige(s, name, good, fn=self.op): return None
        return i

    def drain(self, s, q, M, ctx, depth=99):
        h = self.h
        op = self.op
        if not M or depth == 0:
            if not M:
                for a, r in h.call(s, 'priorq_dequeue', q): self.gives(a, r, M, 'dequeue gives NULL when there is nothing', ctx, True)
            return
        for a, r in h.call(s, 'priorq_dequeue', q):
            self.op = op
            i = self.gives(a, r, M, 'dequeue gives a least element', ctx, True)
            if i is not None: self.drain(a, q, M[:i] + M[i + 1:], ctx + ', dequeue', depth - 1)

    def check(self, s, q, M, ctx, told=True, full=False):
        h, E = self.h, self.E
        op = self.op
        for a, r in h.call(s, 'priorq_size', q):
            h.oblige(a, 'size counts the elements', lambda x: h.eq(x, E.canon(x, r, 64), len(M)) or '%s: size is %r, not %d' % (ctx, x.num.norm(r), len(M)), fn=op)
        for a, r in h.call(s, 'priorq_empty', q):
            h.oblige(a, 'empty is right', lambda x: h.boolv(x, r, 1) == (not M) or '%s: empty() is wrong' % ctx, fn=op)
        for a, r in h.call(s, 'priorq_peek', q):
            self.gives(a, r, M, 'peek gives a least element', ctx, True)
        if not told:
            self.drain(s, q, M, ctx); return
        def known(x):
            d = x.ghost.get('loc', {})
            for e in M:
                if e.t[0][0] not in d: return '%s: no location was ever told for %r' % (ctx, e)
            return True
        if not h.oblige(s, 'every element has been told its location', known, fn=op): return
        loc = s.ghost.get('loc', {})
        # the storage is an array heap indexed by location: then the state is again one of those analysed
        if full or not self.inductive(s, q, M, loc):
            for e in M:
                for a, r in h.call(s, 'priorq_remove', q, loc[e.t[0][0]]):
                    h.oblige(a, 'remove takes out the element last told that location', lambda x: x.num.entails_eq(r - e) or '%s: remove at the location told for %r gives %r' % (ctx, e, x.num.norm(r)), fn=op)
            self.op = op
            self.drain(s, q, M, ctx)

    def inductive(self, s, q, M, loc):
        """is this an array heap with every element at the location it was told?"""
        E = self.E
        if self.L is None: return False
        try:
            by = {}
            for e in M:
                l = s.num.norm(loc[e.t[0][0]])
                if not l.const or not 0 <= l.c < len(M) or l.c in by: return False
                by[l.c] = e
            R, off = E.resolve(s, q)
            S, so = E.resolve(s, E.read(s, R, off + self.L['storage'], 8)) if M else (None, 0)
            for i, e in by.items():
                if not s.num.entails_eq(E.read(s, S, so + 8 * i, 8) - e): return False
                if i and not s.num.entails_ge(self.rank(e) - self.rank(by[(i - 1) // 2])): return False
            return True
        except (Undecided, Split, AttributeError): return False

    def release(self, s, q, ctx):
        h = self.h
        for a, _ in h.call(s, 'destroy_priority_queue', q):
            h.oblige(a, 'everything the queue owns is released', lambda x: not self.live(x) or '%s: %s not released' % (ctx, ', '.join(r.name for r in self.live(x))), kind='leak', fn=self.op)

    def apply(self, s, q, M, ops, told=True):
        """[(state, M', description)]"""
        h = self.h
        out = []
        for fn in ops:
            self.op = fn
            if fn == 'priorq_enqueue':
                e = self.o.key('new')
                for a, _ in h.call(s, fn, q, e): out.append((a, M + [e], 'enqueue to %d' % len(M)))
            elif fn == 'priorq_remove':
                if not told: continue
                for j, e in enumerate(M):
                    l = s.ghost.get('loc', {}).get(e.t[0][0])
                    if l is None: continue
                    for a, r in h.call(s, fn, q, l):
                        if h.oblige(a, 'remove takes out the element last told that location', lambda x: x.num.entails_eq(r - e) or 'remove at the location told for %r gives %r' % (e, x.num.norm(r)), fn=fn):
                            out.append((a, M[:j] + M[j + 1:], 'remove of element %d of %d' % (j, len(M))))
            else:
                for a, r in h.call(s, fn, q):
                    i = self.gives(a, r, M, fn + ' gives the right element', '%s of %d' % (fn, len(M)), fn == 'priorq_dequeue')
                    if not M: out.append((a, M, fn + ' of an empty queue'))
                    elif i is not None: out.append((a, M[:i] + M[i + 1:], '%s of %d' % (fn, len(M))))
        return out


OPS = ['priorq_enqueue', 'priorq_dequeue', 'priorq_pop', 'priorq_remove']


def run(res, tier):
    x = PQ(tier)
    jobs = []
    def job(n, ops, then=(), full=False, reloc=True, two=True):
        def f(r):
            x.reset()
            for s, q, M in x.heap(n, reloc, two):
                x.op = 'priorq_enqueue' if n else 'make_priority_queue'
                x.check(s, q, M, 'heap of %d' % n, reloc, full)
                x.release(s, q, 'heap of %d' % n)
                for a, N, ctx in x.apply(s, q, M, ops, reloc):
                    x.op = 'priorq_' + ctx.split()[0].replace('priorq_', '')
                    if not then:
                        x.check(a, q, N, ctx, reloc, full); x.release(a, q, ctx)
                    for b, P, ctx2 in (x.apply(a, q, N, then, reloc) if then else ()):
                        x.check(b, q, P, ctx + ', ' + ctx2, reloc, full); x.release(b, q, ctx)
            r.add(x.h, 'priorq')
        jobs.append(f)
    for n in range(5): job(n, OPS, full=True)
    for n in range(5):
        for op in OPS: job(n, [op], OPS)
    for n in range(11 if tier == 'quick' else 14):
        for op in OPS[::-1]: job(n, [op])
    for n in range(4): job(n, OPS, reloc=False); job(n, OPS, two=False)
    # the same element twice
    def twice(r):
        x.reset()
        h = x.h
        x.op = 'priorq_enqueue'
        for s, q, M in x.heap(2):
            for e in (M[0], M[1]):
                for a, _ in h.call(s, 'priorq_enqueue', q, e): x.check(a, q, M + [e], 'an element enqueued twice', False)
        r.add(h, 'priorq')
    jobs.append(twice)
    res.par(jobs)
