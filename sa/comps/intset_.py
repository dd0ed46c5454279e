"""Integer sets: membership before and after every operation, for arbitrary contents and symbolic elements."""
from harness import *

PUBLIC = ['make_intset', 'destroy_intset', 'intset_fill', 'intset_add', 'intset_remove', 'intset_has', 'intset_find_next_hit', 'intset_find_next_miss']
INT_MAX = (1 << 31) - 1
UINT_MAX = (1 << 32) - 1


class BitWords(Content):
    """arbitrary membership bits for elements below the size; the unused bits stay as they were"""
    def __init__(self, old, start): self.old = old; self.start = start
    def read(self, E, st, r, off, size):
        v = uf_read(E, st, r, off, size, 'word', 0, mask(8 * size))
        a = v.t[0][0]
        bw = st.ghost.get('bitword', {})
        if a not in bw:
            bw = dict(bw); bw[a] = (r.id, st.num.norm(off), size); st.ghost['bitword'] = bw
        return v
    def key(self): return 'BitWords'


class IS:
    def __init__(self, res, tier):
        sup = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'support')
        self.h = h = H(['intset', 'fsalloc'], extra=[os.path.join(sup, 'inline_int.c')], unroll=9)
        self.E = E = h.E
        self.tier = tier
        for f in PUBLIC: h.fn(f)
        E.hooks['symbit'] = self.symbit
        from comps.bytearray_ import no_huge
        no_huge(E)

    def symbit(self, E, st, a, r, w):
        o = st.ghost.get('bitword', {}).get(a)
        if o is None: return None
        rid, off, size = o
        reg = st.regions[rid]
        if not isinstance(reg.base, BitWords): return None
        idx = (off - reg.base.start).scale(8) + r
        if E.decide(st, 'ge', idx - st.ghost['setsize']):
            return E.testbit(st, E.read(st, reg.base.old, off, size), r, 8 * size)
        return None

    def havoc(self, st, s, filled):
        """make the membership bits arbitrary; None if the layout is not recognised"""
        E = self.E
        hdr, _ = E.resolve(st, s)
        cand = [r for r in st.regions.values() if r.kind == 'heap' and r.alive and r.id != hdr.id]
        if len(cand) != 1: return None
        r = st.wr(cand[0].id)
        r.base = BitWords(Snap(cand[0]), ZERO); r.log = (); r.memo = ()
        return st

    def has(self, st, s, j):
        out = []
        for t, r in self.h.call(st, 'intset_has', s, j):
            for q, v in self.h.each(t, lambda q: self.h.boolv(q, r, 1)): out.append((q, v))
        return out

    def sets(self, lo, hi, filled=(False, True), empty=False):
        """[(state, set pointer, description)]: arbitrary sets of size lo..hi"""
        h, E = self.h, self.E
        out = []
        n = self.n = sym('size', lo, hi)
        for st, s in h.call(h.state(), 'make_intset', n):
            st.ghost['setsize'] = n
            if empty: out.append((st, s, 'new set')); continue
            for f in filled:
                if f:
                    for t, _ in h.call(st, 'intset_fill', s):
                        q = self.havoc(t.copy(), s, True)
                        out.append((q if q is not None else t, s, 'set once filled'))
                else:
                    q = self.havoc(st.copy(), s, False)
                    out.append((q if q is not None else st, s, 'set'))
        return out

    def member(self, s, want, name, fn):
        self.h.oblige(s, name, lambda s: want is True or want, fn=fn)

    def run(self, res):
        h, E = self.h, self.E
        SM = 200 if self.tier == 'quick' else 330
        # new sets are empty, for every size
        j = sym('j', 0, UINT_MAX)
        for st, s, d in self.sets(0, INT_MAX, empty=True):
            for q, v in self.has(st, s, j): h.oblige(q, 'a new set is empty', lambda s: not v or 'element %r present' % s.num.norm(j), fn='make_intset')
            # release
            for t, _ in h.call(st, 'destroy_intset', s):
                h.oblige(t, 'destroy releases everything', lambda s: not any(r.kind == 'heap' and r.alive for r in s.regions.values()) or 'block left')
        # add / remove change exactly the given element, for every size and contents (unbounded)
        for filled, lim in (((False,), INT_MAX), ((True,), SM)):
            for st, s, d in self.sets(0, lim, filled):
                n = self.n
                for fn in ('intset_add', 'intset_remove'):
                    e = sym('e', 0, UINT_MAX)
                    for q, before in self.has(st, s, j):
                        for t, _ in h.call(q, fn, s, e):
                            for u, after in self.has(t, s, j):
                                def ok(s):
                                    if h.ge(s, j, n): return not after or 'element beyond the size present'
                                    if h.eq(s, j, e): return after == (fn == 'intset_add') or 'the element is %s afterwards' % ('absent' if not after else 'present')
                                    return after == before or 'another element changes'
                                h.oblige(u, '%s affects exactly the given element' % fn, ok, fn=fn)
                # two updates in a row
                e1 = sym('e1', 0, UINT_MAX); e2 = sym('e2', 0, UINT_MAX)
                for f1 in ('intset_add', 'intset_remove'):
                    for f2 in ('intset_add', 'intset_remove'):
                        for q, before in self.has(st, s, j):
                            for t, _ in h.call(q, f1, s, e1):
                                for t2, _ in h.call(t, f2, s, e2):
                                    for u, after in self.has(t2, s, j):
                                        def ok(s):
                                            if h.ge(s, j, n): return not after or 'element beyond the size present'
                                            if h.eq(s, j, e2): w = f2 == 'intset_add'
                                            elif h.eq(s, j, e1): w = f1 == 'intset_add'
                                            else: w = before
                                            return after == w or 'membership after two updates is wrong'
                                        h.oblige(u, 'updates accumulate', ok, fn=f2)
        # fill
        for st, s, d in self.sets(0, SM, (False,)) + self.sets(SM, INT_MAX, (False,)):
            n = st.ghost['setsize']
            for t, _ in h.call(st, 'intset_fill', s):
                for u, after in self.has(t, s, j):
                    h.oblige(u, 'fill makes every element present', lambda s: after == h.ge(s, n, j + 1) or ('absent after fill' if not after else 'element beyond the size present'), fn='intset_fill')
        # searching: up to SM elements exactly
        res.add(h, 'intset')
        jobs = []
        W = 64
        for lo in range(0, SM, W):
            for fn, want in (('intset_find_next_hit', True), ('intset_find_next_miss', False)):
                for f in (False, True):
                    jobs.append(lambda r, a=(lo, min(lo + W - 1, SM), fn, want, f): self.search(r, *a))
        jobs.append(lambda r: self.unbounded(r))
        res.par(jobs)

    def reset(self):
        h, E = self.h, self.E
        h.obl = {}; E.violations = []; E.undecided = []; E._seen = set()
        E.stats = {k: (0 if isinstance(v, int) else v) for k, v in E.stats.items()}

    def search(self, res, lo, hi, fn, want, f):
        h, E = self.h, self.E
        self.reset()
        j = sym('j', 0, UINT_MAX)
        for st, s, d in self.sets(lo, hi, (f,)):
            n = self.n
            e = sym('start', 0, UINT_MAX)
            for t, r in h.call(st, fn, s, e):
                for q, found in h.each(t, lambda q: h.ge(q, E.canon(q, r, 32, True), 0)):
                    rv = E.canon(q, r, 32, True)
                    if found:
                        for u, m in self.has(q, s, rv):
                            def ok(s):
                                if not h.ge(s, rv, e): return 'returns an element before the start'
                                if not h.ge(s, n, rv + 1): return 'returns an element beyond the size'
                                return m == want or 'returns an element that is %s' % ('present' if m else 'absent')
                            h.oblige(u, '%s returns a matching element' % fn, ok, fn=fn)
                    else: h.oblige(q, '%s returns -1 when there is none' % fn, lambda s: h.eq(s, rv, -1), fn=fn)
                    k = q.copy()
                    try:
                        k.num.assume_ge(j - e); k.num.assume_ge(n - j - 1)
                        if found: k.num.assume_ge(rv - j - 1)
                    except Infeasible: continue
                    for u, m in self.has(k, s, j):
                        h.oblige(u, '%s passes over no matching element' % fn, lambda s: m != want or 'element %r passed over' % s.num.norm(j), fn=fn)
        if fn.endswith('hit'):
            for st, s, d in self.sets(lo, hi, (f,)):
                for t, r in h.call(st, 'w_intset_empty', s):
                    for q, v in h.each(t, lambda q: h.boolv(q, r, 1)):
                        if not v: continue
                        for u, m in self.has(q, s, j): h.oblige(u, 'an empty set has no element', lambda s: not m or 'reports empty with an element present', fn='intset_empty')
        res.add(h, 'intset')

    def unbounded(self, res):
        """any size: no access outside the storage"""
        h, E = self.h, self.E
        self.reset(); E.unroll = 2
        for fn in ('intset_find_next_hit', 'intset_find_next_miss'):
            for st, s, d in self.sets(0, INT_MAX, (False,)):
                for r in list(st.regions.values()):
                    if isinstance(r.base, BitWords): st.wr(r.id).base = Unknown('word')
                for t, r in h.call(st, fn, s, sym('start', 0, UINT_MAX)):
                    h.oblige(t, '%s stays within the set (any size)' % fn, lambda s: True)
        res.add(h, 'intset')


def run(res, tier): IS(res, tier).run(res)
