"""Numeric abstract domain: modular linear expressions over atoms, finite value sets,
linear inequalities (polyhedra by Fourier-Motzkin elimination), disequalities."""
from math import gcd

INF = None
_ids = [0]
_opcache = {}


class Atom:
    __slots__ = ('id', 'name', 'lo', 'hi', 'op', 'args', 'w', 'kind', 'rid', 'tag', 'supp')

    def __init__(self, name, lo, hi, kind='sym', op=None, args=None, w=64, rid=None, tag=None):
        _ids[0] += 1
        self.id = _ids[0]; self.name = name; self.lo = lo; self.hi = hi
        self.kind = kind; self.op = op; self.args = args; self.w = w; self.rid = rid; self.tag = tag
        if kind == 'op':
            s = set()
            for a in args:
                if isinstance(a, Lin):
                    for at, _ in a.t: s |= at.supp
            self.supp = frozenset(s)
        else:
            self.supp = frozenset((self,))

    def __repr__(self):
        if self.kind == 'op': return '%s(%s)' % (self.op, ','.join(map(str, self.args)))
        return '%s' % (self.name,)

    def __lt__(self, o): return self.id < o.id


class Lin:
    __slots__ = ('c', 't', '_h')

    def __init__(self, c, t=()):
        self.c = c; self.t = t; self._h = None

    def __hash__(self):
        if self._h is None: self._h = hash((self.c, self.t))
        return self._h

    def __eq__(self, o): return isinstance(o, Lin) and self.c == o.c and self.t == o.t
    def __ne__(self, o): return not self.__eq__(o)
    @property
    def const(self): return not self.t

    def __add__(self, o):
        if isinstance(o, int): return Lin(self.c + o, self.t) if o else self
        if not o.t: return Lin(self.c + o.c, self.t)
        if not self.t: return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for a, k in o.t:
            n = d.get(a, 0) + k
            if n: d[a] = n
            else: d.pop(a, None)
        return Lin(self.c + o.c, tuple(sorted(d.items(), key=lambda x: x[0].id)))

    def __neg__(self): return Lin(-self.c, tuple((a, -k) for a, k in self.t))

    def __sub__(self, o):
        if isinstance(o, int): return Lin(self.c - o, self.t)
        return self + (-o)

    def scale(self, n):
        if n == 0: return ZERO
        if n == 1: return self
        return Lin(self.c * n, tuple((a, k * n) for a, k in self.t))

    def coef(self, a):
        for x, k in self.t:
            if x is a: return k
        return 0

    def without(self, a): return Lin(self.c, tuple((x, k) for x, k in self.t if x is not a))

    def supp(self):
        s = frozenset()
        for a, _ in self.t: s |= a.supp
        return s

    def __repr__(self):
        s = ''
        for a, k in self.t:
            s += ('+' if k > 0 else '-') + ('' if abs(k) == 1 else str(abs(k)) + '*') + repr(a)
        if self.c or not s: s += '%+d' % self.c if s else str(self.c)
        return s.lstrip('+')


ZERO = Lin(0)
ONE = Lin(1)
def K(n): return Lin(n)
def L(a): return Lin(0, ((a, 1),))


def sym(name, lo=0, hi=(1 << 64) - 1, tag=None): return L(Atom(name, lo, hi, tag=tag))


# ---- value sets: tuples of disjoint sorted inclusive intervals
def vs_range(lo, hi): return ((lo, hi),) if lo <= hi else ()
def vs_size(v): return sum(b - a + 1 for a, b in v)
def vs_iter(v):
    for a, b in v:
        yield from range(a, b + 1)
def vs_from(vals):
    out = []
    for x in sorted(set(vals)):
        if out and out[-1][1] == x - 1: out[-1][1] = x
        else: out.append([x, x])
    return tuple((a, b) for a, b in out)
def vs_inter(v, w):
    out = []; i = j = 0
    while i < len(v) and j < len(w):
        a = max(v[i][0], w[j][0]); b = min(v[i][1], w[j][1])
        if a <= b: out.append((a, b))
        if v[i][1] < w[j][1]: i += 1
        else: j += 1
    return tuple(out)
def vs_minus(v, w):
    out = []
    for a, b in v:
        cur = a
        for c, d in w:
            if d < cur or c > b: continue
            if c > cur: out.append((cur, c - 1))
            cur = max(cur, d + 1)
            if cur > b: break
        if cur <= b: out.append((cur, b))
    return tuple(out)


class Infeasible(Exception): pass


class Undecided(Exception):
    """The analysis met a construct outside its domain."""


class Split(Exception):
    def __init__(self, alts, why=''):
        self.alts = alts; self.why = why


SMALL = 1 << 16
SMALLN = 1 << 12      # value combinations enumerated when several symbols are involved


def mask(w): return (1 << w) - 1


def op_atom(op, args, w, lo=None, hi=None, extra=None):
    key = (op, tuple(args), w, extra)
    a = _opcache.get(key)
    if a is None:
        a = Atom(op, 0 if lo is None else lo, mask(w) if hi is None else hi, kind='op', op=op,
                 args=tuple(args) + ((extra,) if extra is not None else ()), w=w)
        _opcache[key] = a
    return a


def sgn(v, w):
    v &= mask(w)
    return v - (1 << w) if v >> (w - 1) else v


def eval_op(op, a, w, table=None):
    m = mask(w)
    if op == 'and': return a[0] & a[1] & m
    if op == 'or': return (a[0] | a[1]) & m
    if op == 'xor': return (a[0] ^ a[1]) & m
    if op == 'mul': return (a[0] * a[1]) & m
    if op == 'shl': return (a[0] << (a[1] & m)) & m if (a[1] & m) < w else 0
    if op == 'lshr': return (a[0] & m) >> (a[1] & m) if (a[1] & m) < w else 0
    if op == 'ashr': return (sgn(a[0], w) >> min(a[1] & m, w - 1)) & m
    if op == 'udiv': return (a[0] & m) // (a[1] & m)
    if op == 'urem': return (a[0] & m) % (a[1] & m)
    if op == 'sdiv':
        x, y = sgn(a[0], w), sgn(a[1], w); q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & m
    if op == 'srem':
        x, y = sgn(a[0], w), sgn(a[1], w); r = abs(x) % abs(y)
        return (-r if x < 0 else r) & m
    if op == 'cttz':
        x = a[0] & m
        return w if x == 0 else (x & -x).bit_length() - 1
    if op == 'ctlz':
        x = a[0] & m
        return w - x.bit_length()
    if op == 'ctpop': return bin(a[0] & m).count('1')
    if op == 'tab': return table(a[0])
    if op == 'mod': return a[0] & m          # canonical unsigned value
    if op == 'smod': return sgn(a[0], w)     # canonical signed value (mathematical)
    raise Undecided('eval ' + op)


def eval_lin(e, env, cache=None):
    v = e.c
    for a, k in e.t: v += k * eval_atom(a, env)
    return v


def eval_atom(a, env):
    v = env.get(a)
    if v is not None: return v
    if a.kind != 'op': raise KeyError(a)
    if a.op == 'tab':
        r = a.args[-1](eval_lin(a.args[0], env))
    else:
        r = eval_op(a.op, [eval_lin(x, env) for x in a.args], a.w)
    env[a] = r
    return r


class Num:
    """Constraint store of one abstract state."""
    __slots__ = ('dom', 'facts', 'nes', 'rels', 'axioms', 'solved', 'ver', '_cache')

    def __init__(self):
        self.dom = {}; self.facts = (); self.nes = (); self.rels = (); self.axioms = frozenset(); self.solved = {}
        self.ver = 0; self._cache = {}

    def copy(self):
        n = Num.__new__(Num)
        n.dom = dict(self.dom); n.facts = self.facts; n.nes = self.nes; n.rels = self.rels
        n.axioms = self.axioms; n.solved = dict(self.solved); n.ver = self.ver; n._cache = dict(self._cache)
        return n

    def touch(self): self._cache = {}

    # -- normal form
    def norm(self, e):
        s = self.solved
        if not s: return e
        ch = False
        for a, k in e.t:
            if a in s: ch = True; break
        if not ch: return e
        out = Lin(e.c)
        for a, k in e.t:
            if a in s: out = out + self.norm(s[a]).scale(k)
            else: out = out + Lin(0, ((a, k),))
        return out

    def adom(self, a):
        d = self.dom.get(a)
        if d is None: return ((a.lo, a.hi),)
        return d

    def arange(self, a):
        key = ('r', a)
        r = self._cache.get(key)
        if r is not None: return r
        d = self.dom.get(a)
        lo, hi = (a.lo, a.hi) if not d else (d[0][0], d[-1][1])
        if a in self.solved:
            l2, h2 = self.range(self.norm(L(a)))
            lo = max(lo, l2); hi = min(hi, h2)
        elif a.kind == 'op':
            vals = self.small_vals(a)
            if vals is not None and vals:
                lo = max(lo, min(vals)); hi = min(hi, max(vals))
            else:
                l2, h2 = self.op_range(a)
                lo = max(lo, l2); hi = min(hi, h2)
        self._cache[key] = (lo, hi)
        return lo, hi

    def op_range(self, a):
        m = mask(a.w)
        op = a.op
        if op == 'and':
            his = [self.range(x) for x in a.args]
            h = min([r[1] for r in his if r[0] >= 0] or [m])
            return 0, min(h, m)
        if op in ('or', 'xor'):
            rs = [self.range(x) for x in a.args]
            if all(r[0] >= 0 for r in rs):
                b = max(r[1] for r in rs).bit_length()
                return (max(r[0] for r in rs) if op == 'or' else 0), min(m, (1 << b) - 1)
        if op == 'urem':
            lo, hi = self.range(a.args[1])
            if lo > 0: return 0, hi - 1
        if op == 'udiv':
            l0, h0 = self.range(a.args[0]); l1, h1 = self.range(a.args[1])
            if l0 >= 0 and h0 <= m and l1 > 0: return l0 // h1, h0 // l1
        if op == 'lshr':
            l0, h0 = self.range(a.args[0]); l1, h1 = self.range(a.args[1])
            if l0 >= 0 and h0 <= m and 0 <= l1 and h1 < a.w: return l0 >> h1, h0 >> l1
        if op in ('cttz', 'ctlz', 'ctpop'): return 0, a.w
        return a.lo, a.hi

    def small_vals(self, a):
        """exact value set of an op atom over its (finite) support, or None"""
        key = ('v', a)
        if key in self._cache: return self._cache[key]
        r = None
        sup = self.support(L(a))
        n = 1
        lim = SMALL if len(sup) == 1 else SMALLN
        for s in sup:
            n *= vs_size(self.adom(s))
            if n > lim: break
        if n <= lim and sup:
            r = set()
            for env in self.envs(sup):
                try: r.add(eval_atom(a, env))
                except (Undecided, ZeroDivisionError, KeyError, IndexError): r = None; break
        self._cache[key] = r
        return r

    def support(self, e):
        s = set()
        for a in e.supp():
            if a in self.solved: s |= self.support(self.norm(L(a)))
            else: s.add(a)
        return s

    def envs(self, sup):
        sup = sorted(sup, key=lambda a: a.id)
        rels = [r for r in self.rels if r[1].issubset(sup)]
        def rec(i, env):
            if i == len(sup):
                e = dict(env)
                for a in self.solved:
                    pass
                for cond, _s in rels:
                    if not cond_eval(cond, dict(e), self): return
                yield e
                return
            for v in vs_iter(self.adom(sup[i])):
                env[sup[i]] = v
                yield from rec(i + 1, env)
        yield from rec(0, {})

    def range(self, e):
        e = self.norm(e)
        lo = hi = e.c
        for a, k in e.t:
            l, h = self.arange(a)
            if k > 0: lo += k * l; hi += k * h
            else: lo += k * h; hi += k * l
        return lo, hi

    # -- entailment
    def entails_ge(self, e):
        """e >= 0 ?"""
        e = self.norm(e)
        if not e.t: return e.c >= 0
        lo, hi = self.range(e)
        if lo >= 0: return True
        if hi < 0: return False
        key = ('g', e)
        r = self._cache.get(key)
        if r is None:
            r = self._fm_infeasible((-e) - 1)
            self._cache[key] = r
        return r

    def entails_eq(self, e):
        e = self.norm(e)
        if not e.t: return e.c == 0
        lo, hi = self.range(e)
        if lo > 0 or hi < 0: return False
        return self.entails_ge(e) and self.entails_ge(-e)

    def entails_ne(self, e):
        e = self.norm(e)
        if not e.t: return e.c != 0
        lo, hi = self.range(e)
        if lo > 0 or hi < 0: return True
        g = 0
        for _, k in e.t: g = gcd(g, abs(k))
        if e.c % g: return True
        for n in self.nes:
            n = self.norm(n)
            if n == e or n == -e: return True
        if len(e.t) == 1:
            a, k = e.t[0]
            v = -e.c // k
            if not vs_inter(self.adom(a), ((v, v),)): return True
        # region bases are distinct and nonzero
        bases = [(a, k) for a, k in e.t if a.kind == 'base']
        if bases:
            if len(bases) == 2 and bases[0][1] == -bases[1][1]: return True
            if len(bases) == 1 and abs(bases[0][1]) == 1:
                rest = e.without(bases[0][0])
                # base + offset compared with a non-pointer constant
                if not rest.t: return True
        return self.entails_ge(e - 1) or self.entails_ge((-e) - 1)

    def _fm_infeasible(self, extra):
        """facts & extra>=0 infeasible over the rationals (with integer tightening)?"""
        extra = self.norm(extra)
        rel = set(a for a, _ in extra.t)
        fl = self._cache.get('facts')
        if fl is None:
            best = {}
            for f in self.facts:
                f = self.norm(f)
                if f.t:
                    if f.t not in best or f.c < best[f.t].c: best[f.t] = f
                elif f.c < 0: best = None; break
            fl = [(f, [a for a, _ in f.t]) for f in best.values()] if best is not None else False
            self._cache['facts'] = fl
        if fl is False: return True
        cand = fl
        used = []
        ch = True
        left = cand
        while ch:
            ch = False; nl = []
            for f, ats in left:
                if any(a in rel for a in ats):
                    used.append(f); ch = True
                    for a in ats: rel.add(a)
                else: nl.append((f, ats))
            left = nl
        cons = [extra] + used
        for a in rel:
            if a.kind == 'base': continue
            l, h = self.arange(a)
            cons.append(Lin(-l, ((a, 1),))); cons.append(Lin(h, ((a, -1),)))
        r = fm(cons)
        if r: return True
        # try with disequalities that become strict
        return False

    def infeasible(self):
        """can this store be shown to have no solution?"""
        done = set()
        for f in self.facts:
            f = self.norm(f)
            if not f.t:
                if f.c < 0: return True
                continue
            if self.range(f)[1] < 0: return True
            if f in done: continue
            done.add(f)
            if self._fm_infeasible(f): return True
        for n in self.nes:
            n = self.norm(n)
            if not n.t:
                if n.c == 0: return True
            elif self.entails_eq(n): return True
        for a, e in self.solved.items():
            lo, hi = self.range(e); d = self.adom(a)
            if hi < d[0][0] or lo > d[-1][1]: return True
        return self.witness() is None

    def witness(self, budget=400):
        """integer solution of the store by bound propagation and bisection: dict, None (there is none) or 'unknown'"""
        facts = []; nes = []
        for f in self.facts:
            f = self.norm(f)
            if f.t: facts.append(f)
            elif f.c < 0: return None
        for a, e in self.solved.items():
            d = self.adom(a)
            e = self.norm(e)
            if a.kind == 'base': continue
            facts.append(e - d[0][0]); facts.append(K(d[-1][1]) - e)
        for n in self.nes:
            n = self.norm(n)
            if any(a.kind == 'base' for a, _ in n.t): continue
            if n.t: nes.append(n)
            elif n.c == 0: return None
        facts = [f for f in facts if not any(a.kind == 'base' for a, _ in f.t)]
        vs = {}
        def addv(a):
            if a in vs or a.kind == 'base': return
            vs[a] = self.adom(a)
            if a.kind == 'op':
                for x in a.args:
                    if isinstance(x, Lin):
                        for b, _ in self.norm(x).t: addv(b)
        for e in facts + nes:
            for a, _ in e.t: addv(a)
        for c, sup in self.rels:
            for a in sup:
                for b, _ in self.norm(L(a)).t: addv(b)
        for a in list(self.dom):
            if a not in self.solved: addv(a)
        syms = [a for a in vs if a.kind != 'op']
        ops = [a for a in vs if a.kind == 'op']
        opaque = any(a.op in ('tab',) for a in ops)
        bud = [budget]
        def prop(D):
            for _ in range(30):
                ch = False
                for f in facts:
                    tot = f.c
                    for a, k in f.t:
                        d = D[a]; tot += k * (d[-1][1] if k > 0 else d[0][0])
                    if tot < 0: return False
                    for a, k in f.t:
                        d = D[a]
                        rest = tot - k * (d[-1][1] if k > 0 else d[0][0])
                        if k > 0:
                            b = -(rest // k)           # a >= ceil(-rest/k)
                            if b > d[0][0]:
                                nd = vs_inter(d, ((b, max(b, d[-1][1])),))
                                if not nd: return False
                                D[a] = nd; ch = True
                            else: continue
                        else:
                            b = rest // (-k)
                            if b < d[-1][1]:
                                nd = vs_inter(d, ((min(b, d[0][0]), b),))
                                if not nd: return False
                                D[a] = nd; ch = True
                            else: continue
                        tot = f.c + sum([kk * (D[x][-1][1] if kk > 0 else D[x][0][0]) for x, kk in f.t])
                for n in nes:
                    one = None
                    v = n.c
                    for a, k in n.t:
                        d = D[a]
                        if d[0][0] == d[-1][1]: v += k * d[0][0]
                        elif one is None: one = (a, k)
                        else: one = None; v = 1; break
                    else:
                        if one is None:
                            if v == 0: return False
                        elif v % one[1] == 0:
                            x = -v // one[1]
                            nd = vs_minus(D[one[0]], ((x, x),))
                            if not nd: return False
                            if nd != D[one[0]]: D[one[0]] = nd; ch = True
                if not ch: return True
            return True
        def check(env):
            full = dict(env)
            try:
                for f in facts:
                    if eval_lin(f, full) < 0: return False
                for n in nes:
                    if eval_lin(n, full) == 0: return False
                for a in ops:
                    v = eval_atom(a, full)
                    if not vs_inter(vs[a], ((v, v),)): return False
                for c, _s in self.rels:
                    if not cond_eval(c, dict(full), self): return False
            except Exception: return 'unknown'
            return True
        unk = [False]
        def rec(D):
            bud[0] -= 1
            if bud[0] < 0: unk[0] = True; return None
            D = dict(D)
            if not prop(D): return None
            free = [a for a in syms if D[a][0][0] != D[a][-1][1]]
            env = {a: D[a][0][0] for a in syms}
            if not free:
                c = check(env)
                if c == 'unknown': unk[0] = True; return None
                return env if c else None
            c = check(env)
            if c is True: return env
            a = min(free, key=lambda x: (vs_size(D[x]), x.id))
            lo, hi = D[a][0][0], D[a][-1][1]
            m = (lo + hi) // 2
            for part in (((lo, lo),), vs_inter(D[a], ((lo + 1, m),)), vs_inter(D[a], ((max(m, lo) + 1, hi),))):
                if not part: continue
                D2 = dict(D); D2[a] = part
                r = rec(D2)
                if r is not None: return r
                if unk[0]: return None
            return None
        r = rec(vs)
        if r is not None: return r
        return 'unknown' if unk[0] else None

    # -- assumptions
    def assume_ge(self, e):
        e = self.norm(e)
        if not e.t:
            if e.c < 0: raise Infeasible()
            return
        lo, hi = self.range(e)
        if hi < 0: raise Infeasible()
        if lo >= 0 and len(e.t) == 1 and e.t[0][0].kind != 'op': return
        g = 0
        for _, k in e.t: g = gcd(g, abs(k))
        if g > 1: e = Lin(e.c // g, tuple((a, k // g) for a, k in e.t))
        if len(e.t) == 1:
            a, k = e.t[0]
            if k > 0: w = vs_range(-(e.c // k), max(self.adom(a)[-1][1], 0)) if False else None
            d = self.adom(a)
            if k > 0:
                bound = -(e.c // k) if e.c % k == 0 else -(e.c // k)   # a >= ceil(-c/k)
                bound = -((e.c) // k)
                nd = vs_inter(d, ((bound, max(d[-1][1], bound)),)) if d else ()
            else:
                bound = e.c // (-k)
                nd = vs_inter(d, ((min(d[0][0], bound), bound),)) if d else ()
            if not nd: raise Infeasible()
            self.dom[a] = nd
            self.touch()
            if a.kind == 'op':
                self.facts = self.facts + (e,)
                self._refine_op(('ge', e))
            self._ne_tighten()
            return
        keep = []
        for f in self.facts:
            if f.t == e.t:
                if f.c <= e.c: return
                continue               # weaker than the new one
            keep.append(f)
        self.facts = tuple(keep) + (e,)
        self.touch()
        # equality detection: e>=0 and -e>=0
        if self.entails_ge(-e): self._solve(e)
        else:
            self._ne_tighten()

    def _ne_tighten(self):
        for n in self.nes:
            n2 = self.norm(n)
            if not n2.t:
                if n2.c == 0: raise Infeasible()
                continue
            ne = ('net', n2)
            if ne in self.axioms: continue
            if self.entails_ge(n2):
                if not self.entails_ge(n2 - 1):
                    self.axioms = self.axioms | {ne}; self.assume_ge(n2 - 1); return
            elif self.entails_ge(-n2):
                if not self.entails_ge((-n2) - 1):
                    self.axioms = self.axioms | {ne}; self.assume_ge((-n2) - 1); return

    def _refine_op(self, cond):
        """single-symbol conditions: filter the value set pointwise"""
        sup = self.support(cond[1])
        if len(sup) == 1:
            a = next(iter(sup))
            d = self.adom(a)
            if vs_size(d) <= SMALL:
                keep = [v for v in vs_iter(d) if cond_eval(cond, {a: v}, self)]
                if not keep: raise Infeasible()
                self.dom[a] = vs_from(keep); self.touch()
                return True
        return False

    def assume_eq(self, e):
        e = self.norm(e)
        if not e.t:
            if e.c: raise Infeasible()
            return
        lo, hi = self.range(e)
        if lo > 0 or hi < 0: raise Infeasible()
        g = 0
        for _, k in e.t: g = gcd(g, abs(k))
        if e.c % g: raise Infeasible()
        if self._refine_op(('eq', e)):
            self.touch()
            if any(a.kind == 'op' for a, _ in e.t): self.facts = self.facts + (e, -e)
            return
        self._solve(e)
        for n in self.nes:
            n = self.norm(n)
            if not n.t and n.c == 0: raise Infeasible()

    def _solve(self, e):
        """e == 0: eliminate an atom with coefficient +-1 if possible"""
        e = self.norm(e)
        if not e.t:
            if e.c: raise Infeasible()
            return
        best = None
        for a, k in e.t:
            if abs(k) == 1 and a.kind == 'sym' and (best is None or a.id > best.id):
                if any(o.kind == 'op' for o, _ in e.t) and a in self.support(e.without(a)): continue
                if any(a in x.supp for x in self._solved_ops()): continue
                best = a
        if best is None:
            self.facts = self.facts + (e, -e); self.touch()
            return
        k = e.coef(best)
        rhs = e.without(best).scale(-k)
        d = self.adom(best)
        self.solved[best] = rhs
        self.touch()
        # carry the domain of the eliminated atom over
        lo, hi = d[0][0], d[-1][1]
        if len(rhs.t) == 0:
            if not vs_inter(d, ((rhs.c, rhs.c),)): raise Infeasible()
        else:
            if len(rhs.t) == 1 and abs(rhs.t[0][1]) == 1:
                a, k = rhs.t[0]
                nd = tuple(sorted(((x - rhs.c) * k, (y - rhs.c) * k) if k > 0 else ((y - rhs.c) * k, (x - rhs.c) * k) for x, y in d))
                nd = vs_inter(self.adom(a), nd)
                if not nd: raise Infeasible()
                if nd != self.adom(a): self.dom[a] = nd
                self.touch()
            else:
                self.assume_ge(rhs - lo); self.assume_ge(K(hi) - rhs)
        for f in self.facts:
            f = self.norm(f)
            if not f.t and f.c < 0: raise Infeasible()

    def _solved_ops(self):
        for v in self.solved.values():
            for a, _ in v.t:
                if a.kind == 'op': yield a

    def assume_ne(self, e):
        e = self.norm(e)
        if not e.t:
            if e.c == 0: raise Infeasible()
            return
        if self._refine_op(('ne', e)):
            if any(a.kind == 'op' for a, _ in e.t): self.nes = self.nes + (e,)
            return
        if len(e.t) == 1 and e.t[0][0].kind == 'sym':
            a, k = e.t[0]
            if e.c % k == 0:
                v = -e.c // k
                nd = vs_minus(self.adom(a), ((v, v),))
                if not nd: raise Infeasible()
                self.dom[a] = nd; self.touch()
            return
        self.nes = self.nes + (e,); self.touch()
        self._ne_tighten()

    def add_axiom(self, e):
        """always-true fact about op atoms"""
        if e in self.axioms: return
        self.axioms = self.axioms | {e}
        self.facts = self.facts + (e,); self.touch()


def cond_eval(cond, env, num=None):
    k, e = cond
    v = eval_lin(num.norm(e) if num is not None else e, env)
    return v >= 0 if k == 'ge' else v == 0 if k == 'eq' else v != 0


def fm(cons, limit=1500):
    """True if the conjunction of c>=0 is infeasible (rational Fourier-Motzkin with integer tightening)."""
    cur = {}
    def add(e, d):
        if not e.t:
            return e.c < 0
        g = 0
        for _, k in e.t: g = gcd(g, abs(k))
        c = e.c
        t = e.t
        if g > 1:
            t = tuple((a, k // g) for a, k in t); c = c // g
        o = d.get(t)
        if o is None or c < o: d[t] = c
        return False
    for e in cons:
        if add(e, cur): return True
    while cur:
        cnt = {}
        for t in cur:
            for a, k in t:
                p = cnt.setdefault(a, [0, 0, 1]); p[0 if k > 0 else 1] += 1; p[2] = max(p[2], abs(k))
            # opposite pair check
        for t, c in list(cur.items()):
            nt = tuple((a, -k) for a, k in t)
            o = cur.get(nt)
            if o is not None and c + o < 0: return True
        # symbols with unit coefficients first: their elimination loses no integer information
        a = min(cnt, key=lambda x: (cnt[x][2] > 1 and cnt[x][0] * cnt[x][1] > 0, cnt[x][0] * cnt[x][1] - cnt[x][0] - cnt[x][1], x.id))
        pos = []; neg = []; nxt = {}
        for t, c in cur.items():
            k = 0
            for x, kk in t:
                if x is a: k = kk; break
            if k > 0: pos.append((Lin(c, t), k))
            elif k < 0: neg.append((Lin(c, t), k))
            else: nxt[t] = c
        if len(pos) * len(neg) + len(nxt) > limit: return False
        for p, kp in pos:
            for n, kn in neg:
                if add(p.scale(-kn) + n.scale(kp), nxt): return True
        cur = nxt
    return False
