"""Loop generalisation: after a few exact iterations the states arriving at a loop header are joined.

The join keeps (a) all affine equalities between the numeric slots of the state (Karr's domain, computed as the
null space of the sample differences), (b) all template inequalities (slot vs constant thresholds, slot vs
loop-invariant quantities, slot vs slot) that every arrival satisfies (Houdini).  Iteration continues until the
arriving states are subsumed, i.e. to a fixpoint."""
from fractions import Fraction
import llvmir
from dom import *
from engine import *


def liveness(F):
    lv = getattr(F, '_live', None)
    if lv is not None: return lv
    n = len(F.blocks)
    use = [set() for _ in range(n)]; defs = [set() for _ in range(n)]
    phiuse = [dict() for _ in range(n)]      # block -> succ idx -> ids
    for b in F.blocks:
        for i in b.insts:
            if i.op == 'phi':
                defs[b.idx].add(i.id)
                continue
            for o in list(i.ops) + ([i.extra] if i.op == 'call' else []):
                if o.__class__ is llvmir.Inst and o.id not in defs[b.idx]: use[b.idx].add(o.id)
            defs[b.idx].add(i.id)
    livein = [set(u) for u in use]
    liveout = [set() for _ in range(n)]
    ch = True
    while ch:
        ch = False
        for b in reversed(F.blocks):
            o = set()
            for s in b.succs:
                o |= livein[s.idx] - set(p.id for p in s.phis)
                for p in s.phis:
                    v = p.extra.get(b.idx)
                    if v.__class__ is llvmir.Inst: o.add(v.id)
            i = use[b.idx] | (o - defs[b.idx])
            if o != liveout[b.idx] or i != livein[b.idx]:
                liveout[b.idx] = o; livein[b.idx] = i; ch = True
    # live after phis: regs needed once phis are assigned
    F._live = (livein, liveout)
    return F._live


def live_at(F, b, idx):
    """ids of registers live just before instruction idx of block b"""
    key = (b.idx, idx)
    c = F.__dict__.setdefault('_liveat', {})
    r = c.get(key)
    if r is None:
        livein, liveout = liveness(F)
        r = set(liveout[b.idx])
        for i in reversed(b.insts[idx:]):
            r.discard(i.id)
            if i.op == 'phi': continue
            for o in list(i.ops) + ([i.extra] if i.op == 'call' else []):
                if o.__class__ is llvmir.Inst: r.add(o.id)
        c[key] = r
    return r


def live_args(F):
    r = F.__dict__.get('_liveargs')
    if r is None:
        r = set()
        for b in F.blocks:
            for i in b.insts:
                xs = list(i.extra.values()) if i.op == 'phi' else list(i.ops) + ([i.extra] if i.op == 'call' else [])
                for o in xs:
                    if o.__class__ is llvmir.Arg: r.add(o.idx)
        F._liveargs = r
    return r


class Entry:
    __slots__ = ('samples', 'rels', 'cands', 'gen', 'keyd', 'lossy', 'top', 'nreg')


class Walk:
    """deterministic traversal of the state; fn(lin) -> lin for every numeric slot"""

    def __init__(self, E, st, wm, fn):
        self.E = E; self.st = st; self.wm = wm; self.fn = fn; self.key = []; self.canon = {}; self.order = []; self.todo = []; self.count = None

    def rnum(self, rid):
        n = self.canon.get(rid)
        if n is None:
            if rid < self.wm: n = ('o', rid)
            else:
                n = ('n', len(self.order)); self.order.append(rid)
            self.canon[rid] = n
            self.todo.append(rid)
        return n

    def lin(self, v):
        if v is None or v is POISON:
            self.key.append(v if v is None else 'P'); return v
        if isinstance(v, Bool):
            self.key.append('B' + v.pred); return Bool(v.pred, self.lin(v.a), self.lin(v.b), v.w)
        if isinstance(v, BoolOp):
            self.key.append('O' + v.op)
            return BoolOp(v.op, self.lin(v.x), self.lin(v.y) if v.y is not None else None)
        if isinstance(v, Agg): raise Undecided('aggregate at loop header')
        v = self.st.num.norm(v)
        base = None
        for a, k in v.t:
            if a.kind == 'base':
                if base is not None or k != 1: raise Undecided('pointer difference at loop header')
                base = a
        if base is None:
            tg = tuple(sorted(set(str(a.tag) for a, _ in v.t if a.tag)))
            self.key.append(('i', tg))
            return self.fn(v)
        self.key.append(('p', self.rnum(base.rid)))
        return L(base) + self.fn(v.without(base))

    def go(self):
        st = self.st
        for f in st.frames:
            self.key.append((f.fn.name, f.block.idx, f.idx, tuple(sorted((h, ) for h in f.loops))))
            la = live_args(f.fn)
            f.args = [self.lin(a) if i in la else POISON for i, a in enumerate(f.args)]
            idx = f.idx if f is st.frames[-1] else f.idx + 1
            lv = live_at(f.fn, f.block, idx)
            regs = {}
            for r in sorted(lv):
                if r in f.regs:
                    self.key.append(r); regs[r] = self.lin(f.regs[r])
            f.regs = regs
        self.nreg = self.count() if self.count else 0
        g = st.ghost
        for k in sorted(g):
            v = g[k]
            if k in ('globals', 'errno'): continue
            self.key.append(k)
            g[k] = self.gval(v)
        # outer regions are all kept
        for rid in sorted(st.regions):
            if rid < self.wm and rid not in self.canon: self.rnum(rid)
        done = set()
        while self.todo:
            rid = self.todo.pop(0)
            if rid in done: continue
            done.add(rid)
            self.region(rid)
        for rid in list(st.regions):
            if rid not in done:
                r = st.regions[rid]
                if r.kind == 'heap' and r.alive: self.E.lost_region(st, r)
                del st.regions[rid]; st.own.discard(rid)
        return self

    def gval(self, v):
        if isinstance(v, Lin): return self.lin(v)
        if isinstance(v, tuple): return tuple(self.gval(x) for x in v)
        if hasattr(v, 'walk'): return v.walk(self)
        if isinstance(v, dict):
            return {k: self.gval(x) for k, x in sorted(v.items(), key=lambda kv: repr(kv[0]))}
        if isinstance(v, Atom):
            self.key.append(('a', v.id)); return v
        self.key.append(v); return v

    def region(self, rid):
        st = self.st
        r = st.regions[rid]
        kind = (self.canon[rid], r.kind, r.alive, r.base.key(), r.ro)
        self.key.append(kind)
        if not r.alive:
            return
        ch = False
        log = []
        shape = []
        lk = self.key; self.key = []
        outer_ro = (rid < self.wm and not r.log)
        size = r.size
        if rid >= self.wm: size = self.lin(r.size)
        for e in r.log:
            shape.append(e[0])
            if e[0] == 'c':
                ne = ('c', self.lin(e[1]), self.lin(e[2]), e[3], self.lin(e[4]))
                self.key.append(('src', e[3].id if e[3].id < self.wm else 'n'))
            elif e[0] == 'h':
                ne = ('h', self.lin(e[1]), self.lin(e[2]), e[3])
            else:
                ne = (e[0], self.lin(e[1]), self.lin(e[2]), self.lin(e[3]))
            if ne != e: ch = True
            log.append(ne)
        sub = self.key; self.key = lk
        self.key.append(('log', rid if rid < self.wm else None, tuple(shape), tuple(sub)))
        mark = r.base.walk(self, r) if hasattr(r.base, 'walk') else None
        memo = r.memo
        if rid >= self.wm or memo:
            memo = tuple(m for m in r.memo if self.outer(m[0]) and self.outer(m[2])) if not isinstance(r.base, Lazy) else self.memo_lazy(r)
            # pointers in memo keep regions alive
            for m in memo:
                for a, _ in st.num.norm(m[2]).t:
                    if a.kind == 'base': self.rnum(a.rid)
        if ch or memo != r.memo or size is not r.size:
            r = st.wr(rid)
            r.log = tuple(log); r.memo = memo; r.size = size

    def memo_lazy(self, r):
        out = []
        for o, s, v in r.memo: out.append((o, s, self.lin(v)))
        return tuple(out)

    def outer(self, v):
        v = self.st.num.norm(v)
        return all(a.id < self.wm_atom for a in v.supp())


class Joiner:
    def __init__(self, maxit=40): self.maxit = maxit; self.fold = None

    def arrive(self, E, st, f, nb, n, inst):
        if n <= E.unroll: return True
        if n > E.unroll + self.maxit: raise Undecided('no fixpoint for loop in %s' % f.fn.name)
        T = E.tables.setdefault(inst, {'entries': {}, 'collapse': set(), 'n': 0})
        wm = inst       # region ids and loop instances share a counter
        wma = f.loops_wm(nb.idx) if hasattr(f, 'loops_wm') else E.wm_atoms[inst]
        if self.fold: self.fold(E, st, f, nb, inst, wm, wma)
        st.events = ()
        slots = []
        s2 = st
        w = Walk(E, s2, wm, lambda v: (slots.append(v), v)[1]); w.wm_atom = wma
        w.count = lambda: len(slots)
        # collapse array logs that grow in this loop
        self.collapse(E, st, T, wm, wma)
        w.go()
        key = tuple(w.key)
        ent = T['entries'].get(key)
        if ent is None:
            # growing logs: same key up to log shapes?
            k1 = tuple(k for k in key if not (isinstance(k, tuple) and k and k[0] == 'log'))
            for ok in T['entries']:
                if tuple(k for k in ok if not (isinstance(k, tuple) and k and k[0] == 'log')) == k1:
                    a = [k for k in ok if isinstance(k, tuple) and k and k[0] == 'log']
                    b = [k for k in key if isinstance(k, tuple) and k and k[0] == 'log']
                    d = set(x[1] for x, y in zip(a, b) if x != y and x[1] is not None)
                    if d and not d <= T['collapse']:
                        T['collapse'] |= d
                        return self.arrive_again(E, st, f, nb, n, inst)
            T['n'] += 1
            if T['n'] > 60: raise Undecided('too many shapes for loop in %s' % f.fn.name)
            ent = Entry(); ent.samples = [(slots, st.num.copy())]; ent.rels = None; ent.cands = None; ent.gen = 0; ent.lossy = False; ent.top = set(); ent.nreg = w.nreg
            T['entries'][key] = ent
            E.stats['joins'] += 1
            return True
        E.stats['joins'] += 1
        if ent.rels is None:
            # second arrival
            if slots == ent.samples[0][0] and self.same_outer(st.num, ent.samples[0][1], wma): return False
            ent.samples.append((slots, st.num.copy()))
            ent.cands = None
            self.generalise(E, st, ent, slots, wm, wma)
            return True
        if self.subsumed(st, ent, slots, wma):
            E.stats['fixpoints'] += 1
            return False
        ent.samples.append((slots, st.num.copy()))
        self.generalise(E, st, ent, slots, wm, wma)
        return True

    def same_outer(self, a, b, wma):
        return False

    def arrive_again(self, E, st, f, nb, n, inst):
        return self.arrive(E, st, f, nb, n, inst)

    def collapse(self, E, st, T, wm, wma):
        for rid in T['collapse']:
            r = st.regions.get(rid)
            if r is None or not r.log or not r.alive: continue
            if len(r.log) == 1 and r.log[0][0] == 'h': continue
            num = st.num
            u = self.uniform(num, r.log)
            if u is not None:
                st.wr(rid).log = (u,); continue
            lo = None; hi = None
            for e in r.log:
                s, t = num.norm(e[1]), num.norm(e[1] + e[2])
                if lo is None: lo, hi = s, t; continue
                if not num.entails_ge(s - lo):
                    lo = s if num.entails_ge(lo - s) else ZERO
                if not num.entails_ge(hi - t):
                    hi = t if num.entails_ge(t - hi) else r.size
            rr = st.wr(rid)
            rr.log = (('h', lo, num.norm(hi - lo), 'buf'),); rr.memo = ()
            if ('contents',) not in st.lossy: st.lossy = st.lossy + (('contents',),)

    def uniform(self, num, log):
        """a log of adjacent writes of one and the same byte value is a single fill"""
        cur = None
        for e in log:
            if e[0] not in ('w', 'f') or not isinstance(e[3], Lin): return None
            v = num.norm(e[3])
            if not v.const or not num.norm(e[2]).const and e[0] == 'w': return None
            if e[0] == 'w':
                n = num.norm(e[2]).c
                bs = set((v.c & mask(8 * n)).to_bytes(n, 'little'))
                if len(bs) != 1: return None
                b = bs.pop()
            else: b = v.c & 255
            if cur is None: cur = [e[1], num.norm(e[2]), b]
            elif b == cur[2] and num.entails_eq(cur[0] + cur[1] - e[1]): cur[1] = num.norm(cur[1] + e[2])
            elif b == cur[2] and num.entails_eq(e[1] + e[2] - cur[0]): cur = [e[1], num.norm(cur[1] + e[2]), b]
            elif b == cur[2] and num.entails_ge(e[1] - cur[0]) and num.entails_ge(cur[0] + cur[1] - e[1] - e[2]): pass
            else: return None
        return ('f', cur[0], cur[1], K(cur[2])) if cur else None

    # ---- relations
    def affine(self, samples):
        """(pivot columns, basis): basis of all c with c.(x_j - x_0) = 0 as (column, {column: coefficient})"""
        n = len(samples[0])
        rows = []
        seen = set()
        vary = set()
        for s in samples[1:]:
            atoms = {}
            for i in range(n):
                if s[i] is samples[0][i]: continue
                d = s[i] - samples[0][i]
                if d.c: atoms.setdefault(None, {})[i] = d.c
                for a, k in d.t: atoms.setdefault(a, {})[i] = k
            for a, row in atoms.items():
                t = tuple(sorted(row.items()))
                if t not in seen:
                    seen.add(t); rows.append(row); vary.update(row)
        cols = sorted(vary)
        rows = [{i: Fraction(k) for i, k in r.items()} for r in rows]
        piv = []
        red = []                 # reduced rows, one per pivot
        for row in rows:
            row = dict(row)
            for p, rr in zip(piv, red):
                y = row.get(p)
                if y:
                    for i, u in rr.items():
                        v = row.get(i, 0) - y * u
                        if v: row[i] = v
                        else: row.pop(i, None)
            if not row: continue
            p = min(row)
            x = row[p]
            row = {i: v / x for i, v in row.items()}
            for rr in red:
                y = rr.get(p)
                if y:
                    for i, u in row.items():
                        v = rr.get(i, 0) - y * u
                        if v: rr[i] = v
                        else: rr.pop(i, None)
            piv.append(p); red.append(row)
        order = sorted(range(len(piv)), key=lambda q: piv[q])
        piv = [piv[q] for q in order]; red = [red[q] for q in order]
        pset = set(piv)
        basis = []
        for fcol in range(n):
            if fcol in pset: continue
            v = {fcol: Fraction(1)}
            if fcol in vary:
                for p, rr in zip(piv, red):
                    u = rr.get(fcol)
                    if u: v[p] = -u
            m = 1
            for x in v.values(): m = m * x.denominator // gcd(m, x.denominator)
            basis.append((fcol, {i: int(x * m) for i, x in v.items()}))
        return piv, basis

    def generalise(self, E, st, ent, slots, wm, wma):
        ent.gen += 1
        E.stats['cut'] += 1
        # register values that outgrow the machine word are only meaningful modulo 2^w: arbitrary word
        for i in range(min(ent.nreg, len(slots))):
            if i in ent.top: continue
            if any((num.range(s[i])[0] < -(1 << 63) and not num.entails_ge(s[i] + (1 << 63))) or (num.range(s[i])[1] > (1 << 64) - 1 and not num.entails_ge(K((1 << 64) - 1) - s[i])) for s, num in ent.samples):
                ent.top.add(i); ent.cands = [c for c in ent.cands if c[0][0] != i and not (c[1] and c[1][0] == i)] if ent.cands is not None else None
        vecs = [[(ZERO if i in ent.top else x) for i, x in enumerate(s)] for s, _ in ent.samples]
        n = len(slots)
        piv, basis = self.affine(vecs)
        # piv columns are the independent (varying) slots; others expressed by relations when integral
        num0 = ent.samples[0][1]
        def outer(v): return all(a.id < wma for a in v.supp())
        new = [None] * n
        rels = []
        fresh = {}
        for p in piv:
            rs = [num.range(s[p]) for s, num in ent.samples]
            lo = min(r[0] for r in rs); hi = max(r[1] for r in rs)
            lo = max((t for t in THB if t <= lo), default=lo); hi = min((t for t in THB if t >= hi), default=hi)
            if ent.gen > 12: lo, hi = -(1 << 64), 1 << 65
            a = Atom('k', lo, hi)
            fresh[p] = a; new[p] = L(a)
        for i in ent.top:
            fresh[i] = Atom('k', 0, (1 << 64) - 1); new[i] = L(fresh[i])
        for col, v in basis:
            if col in ent.top: continue
            # v[col]*x_col + sum v[p]*x_p = const (value in sample 0)
            rhs = ZERO
            for i, k in v.items(): rhs = rhs + vecs[0][i].scale(k)
            if v[col] in (1, -1):
                e = rhs
                for p, k in v.items():
                    if p != col: e = e - L(fresh[p]).scale(k)
                e = e.scale(v[col])
                if outer(rhs):
                    new[col] = e; rels.append((v, rhs)); continue
            if outer(rhs):
                rels.append((v, rhs))
            rs = [num.range(s[col]) for s, num in ent.samples]
            lo = min(r[0] for r in rs); hi = max(r[1] for r in rs)
            lo = max((t for t in THB if t <= lo), default=lo); hi = min((t for t in THB if t >= hi), default=hi)
            a = Atom('j', lo, hi); fresh[col] = a; new[col] = L(a)
        ent.rels = rels
        # inequality candidates
        vary = [i for i in range(n) if i not in ent.top and new[i].t and not outer(new[i])]
        if ent.cands is None:
            outs = set()
            for s, num in ent.samples:
                for f in num.facts:
                    f = num.norm(f)
                    for a, k in f.t:
                        if a.id < wma and all(x.id < wma for x in a.supp) and a.kind != 'base' and not a.tag: outs.add(L(a))
                    of = [(a, k) for a, k in f.t if all(x.id < wma for x in a.supp) and a.kind != 'base' and not a.tag]
                    if of and len(of) < 4:
                        k0 = of[0][1]
                        e = Lin(0, tuple(of))
                        outs.add(e if k0 > 0 else -e)
            for x in vecs[0]:
                if outer(x) and x.t and not any(a.kind == 'base' or a.tag for a, _ in x.t): outs.add(Lin(0, x.t))
            for r in st.regions.values():
                sz = st.num.norm(r.size)
                if sz.t and outer(sz): outs.add(sz)
            for e in list(outs):
                g = 0
                for _, k in e.t: g = gcd(g, abs(k))
                if g > 1: outs.add(Lin(0, tuple((a, k // g) for a, k in e.t)))
            outs = list(outs)[:24]
            cands = []
            idx = vary[:16]
            for i in idx:
                for t in TH:
                    cands.append(((i, 1), None, K(-t))); cands.append(((i, -1), None, K(t)))
                for e in outs:
                    for d in (0, 1, -1, 2, -2, 3, -3):
                        cands.append(((i, 1), None, (-e) + d)); cands.append(((i, -1), None, e + d))
                        
            for i in idx:
                for j in idx:
                    if i != j:
                        for d in (0, 1, -1): cands.append(((i, 1), (j, -1), K(d)))
            for i in idx:
                for j in idx:
                    if i < j:
                        for e in outs[:8]:
                            cands.append(((i, -1), (j, -1), e)); cands.append(((i, -1), (j, 1), e)); cands.append(((i, 1), (j, 1), -e))
            ent.cands = cands
            for s, num in ent.samples: ent.cands = self.holding(ent.cands, s, num)
            # keep the strongest ones only
            ent.cands = prune(ent.cands)
        else:
            s, num = ent.samples[-1]
            ent.cands = self.holding(ent.cands, s, num)
        # new numeric store: outer facts common to all samples
        num = Num()
        nums = [x for _, x in ent.samples]
        base = nums[0]
        for a, d in base.dom.items():
            if all(x.id < wma for x in a.supp):
                ds = d
                for o in nums[1:]: ds = vs_union(ds, o.adom(a))
                num.dom[a] = ds
        for a, e in base.solved.items():
            if a.id < wma and outer(e) and all(o.entails_eq(L(a) - e) for o in nums[1:]): num.solved[a] = e
        num.facts = tuple(f for f in base.facts if outer(f) and all(o.entails_ge(f) for o in nums[1:]))
        num.nes = tuple(f for f in base.nes if outer(f) and all(o.entails_ne(f) for o in nums[1:]))
        num.rels = tuple(r for r in base.rels if all(a.id < wma for a in r[1]) and all(r in o.rels for o in nums[1:]))
        num.axioms = frozenset(f for f in base.axioms if isinstance(f, Lin) and outer(f))
        num.facts = num.facts + tuple(sorted((f for f in num.axioms if f not in num.facts and all(o.entails_ge(f) for o in nums[1:])), key=repr))
        st.num = num
        ents = iter(new)
        w = Walk(E, st, wm, lambda v: next(ents)); w.wm_atom = wma
        w.go()
        for c in ent.cands:
            num.assume_ge(inst(c, new))
        for v, rhs in rels:
            e = ZERO - rhs
            for i, k in v.items(): e = e + new[i].scale(k)
            e = num.norm(e)
            if e.t: num.assume_eq(e)
        tag = ('loop', st.frames[-1].fn.name, st.frames[-1].block.insts[-1].line)
        if tag not in st.lossy: st.lossy = st.lossy + (tag,)
        # abstract sample: remember it so that later joins start from it
        ent.samples.append((list(new), num.copy()))

    def holding(self, cands, s, num):
        """the candidates that hold in the sample; a concrete model of it refutes most of the others cheaply"""
        dead = set()
        m = num.witness(40)
        if isinstance(m, dict):
            class M(dict):
                def __missing__(self, a):
                    if a.kind == 'op' or a.kind == 'base': raise KeyError(a)
                    return num.adom(a)[0][0]
            env = M(m)
            def refuted(e):
                try: return eval_lin(num.norm(e), env) < 0
                except Exception: return False
            cands = [c for c in cands if not refuted(inst(c, s))]
        best = {}
        for c in sorted(cands, key=lambda c: c[2].c):
            k = (c[0], c[1], c[2].t)
            if k in best: continue          # a stronger one holds
            if num.entails_ge(inst(c, s)): best[k] = True
            else: best.pop(k, None); dead.add(c)
        return [c for c in cands if c not in dead]

    def subsumed(self, st, ent, slots, wma):
        num = st.num
        for v, rhs in ent.rels:
            e = ZERO - rhs
            for i, k in v.items(): e = e + slots[i].scale(k)
            if not num.entails_eq(e): return False
        for c in ent.cands:
            if not num.entails_ge(inst(c, slots)): return False
        # ranges of the fresh symbols of the latest abstraction
        s, anum = ent.samples[-1]
        for i, x in enumerate(s):
            if i in ent.top: continue
            if len(x.t) == 1 and x.t[0][0].name in ('k', 'j') and x.t[0][0].id >= wma:
                lo, hi = anum.arange(x.t[0][0])
                l2, h2 = num.range(slots[i])
                a = x.t[0][0]
                if l2 < a.lo and not num.entails_ge(slots[i] - a.lo): return False
                if h2 > a.hi and not num.entails_ge(K(a.hi) - slots[i]): return False
        # outer constraints of the abstraction must hold here too
        for a, d in anum.dom.items():
            if all(x.id < wma for x in a.supp):
                if vs_minus(num.adom(a), d): return False
        for f in anum.facts:
            if all(x.id < wma for x in f.supp()) and not num.entails_ge(f): return False
        for f in anum.nes:
            if all(x.id < wma for x in f.supp()) and not num.entails_ne(f): return False
        for a, e in anum.solved.items():
            if a.id < wma and e and all(x.id < wma for x in e.supp()) and not num.entails_eq(L(a) - e): return False
        return True


THB = [-(1 << 63), -(1 << 31), -1, 0, 255, (1 << 31) - 1, (1 << 32) - 1, (1 << 63) - 1, (1 << 64) - 1]
TH = sorted([-(1 << 63), -(1 << 31), -1, 0, 1, 2, 3, 4, 127, 128, 255, 256, 32767, 65535, (1 << 31) - 1, (1 << 32) - 1, (1 << 63) - 1, (1 << 64) - 1])


def inst(c, s):
    a, b, e = c
    v = s[a[0]].scale(a[1]) + e
    if b is not None: v = v + s[b[0]].scale(b[1])
    return v


def prune(cands):
    best = {}
    for c in cands:
        a, b, e = c
        k = (a, b, e.t)
        if k not in best or e.c < best[k][2].c: best[k] = c
    return list(best.values())


def vs_union(a, b):
    out = []
    for x in sorted(list(a) + list(b)):
        if out and x[0] <= out[-1][1] + 1: out[-1][1] = max(out[-1][1], x[1])
        else: out.append([x[0], x[1]])
    return tuple((p, q) for p, q in out)
