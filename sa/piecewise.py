"""Piecewise evaluation of functions of code points: an abstract interpreter whose domain is a box of integer intervals
(one per parameter), partitioned wherever a branch, a switch, a wrap-around or a table lookup makes the function change.

Within a box every value is a constant, a constant address, an affine function of one parameter, or an explicit function
on at most 64 points of one parameter.  The result is the function as a finite list of (box, value)."""
import sys
from llvmir import CInt, CNull, CUndef, CGlobal, CExpr, Arg, Inst
import engine

LIM = 64


class Undecided(Exception): pass


class Bad(Exception):
    def __init__(self, kind, msg, inst): self.kind = kind; self.msg = msg; self.inst = inst


class SplitAt(Exception):
    def __init__(self, var, points): self.var = var; self.points = points      # new pieces start at these points


class Ptr:
    __slots__ = ('g', 'off')
    def __init__(s, g, off): s.g = g; s.off = off
    def __eq__(s, o): return isinstance(o, Ptr) and s.g == o.g and s.off == o.off
    def __hash__(s): return hash((s.g, s.off))
    def __repr__(s): return '&%s+%d' % (s.g, s.off)


class Aff:
    """a*x+b, exact in [0, 2^w) over the box; g: base global when an address"""
    __slots__ = ('v', 'a', 'b', 'g')
    def __init__(s, v, a, b, g=None): s.v = v; s.a = a; s.b = b; s.g = g


class Fn:
    """explicit values for x = base, base+1, ..."""
    __slots__ = ('v', 'base', 'vals')
    def __init__(s, v, base, vals): s.v = v; s.base = base; s.vals = vals


class St:
    __slots__ = ('frames', 'box', 'mem', 'n', 'steps', 'mark')


class Frame:
    __slots__ = ('fn', 'block', 'prev', 'idx', 'env', 'ret')


class Piecewise:
    def __init__(self, mod, box, steps=3000000):
        self.mod = mod; self.box0 = box; self.out = []; self.steps = steps; self.count = 0
        self.functions = set(); self.bad = []

    # ---- values
    def rng(self, st, v): return st.box[v]

    def points(self, st, var):
        lo, hi = st.box[var]
        if hi - lo >= LIM:
            k = 1
            while (hi // (2 * k)) * 2 * k > lo: k *= 2
            raise SplitAt(var, [(hi // k) * k])
        return lo, hi

    def var_of(self, *vs):
        var = None
        for x in vs:
            if isinstance(x, (Aff, Fn)):
                if var is not None and var != x.v: raise Undecided('an operation mixes two parameters')
                var = x.v
        return var

    def at(self, x, p):
        if isinstance(x, Aff):
            v = x.a * p + x.b
            return Ptr(x.g, v) if x.g is not None else v
        if isinstance(x, Fn): return x.vals[p - x.base]
        return x

    def pointwise(self, st, f, *vs):
        var = self.var_of(*vs)
        if var is None: return f(*vs)
        lo, hi = self.points(st, var)
        vals = [f(*[self.at(x, p) for x in vs]) for p in range(lo, hi + 1)]
        return self.explicit(var, lo, vals)

    def explicit(self, var, lo, vals):
        v0 = vals[0]
        if all(v == v0 for v in vals): return v0
        return Fn(var, lo, vals)

    def norm(self, st, var, a, b, w, g=None):
        """a*x+b modulo 2^w"""
        if a == 0: return Ptr(g, b) if g is not None else b % (1 << w)
        lo, hi = st.box[var]
        if g is not None:
            return Aff(var, a, b, g) if lo < hi else Ptr(g, a * lo + b)
        if lo == hi: return (a * lo + b) % (1 << w)
        M = 1 << w
        q1, q2 = (a * lo + b) // M, (a * hi + b) // M
        if q1 != q2:
            # first x at which the quotient changes
            l, h = lo, hi
            while l < h:
                m = (l + h) // 2
                if (a * m + b) // M == q1: l = m + 1
                else: h = m
            raise SplitAt(var, [l])
        return Aff(var, a, b - q1 * M)

    def signed(self, st, x, w):
        """as signed: int -> int, Aff -> (var, a, b) exact"""
        H = 1 << (w - 1)
        if isinstance(x, int): return x - (1 << w) if x >= H else x
        if isinstance(x, Aff):
            lo, hi = st.box[x.v]
            s1, s2 = x.a * lo + x.b >= H, x.a * hi + x.b >= H
            if s1 != s2:
                l, h = lo, hi
                while l < h:
                    m = (l + h) // 2
                    if (x.a * m + x.b >= H) == s1: l = m + 1
                    else: h = m
                raise SplitAt(x.v, [l])
            return Aff(x.v, x.a, x.b - (1 << w)) if s1 else x
        raise Undecided('value')

    # ---- running
    def run(self, name):
        F = self.mod.functions.get(name)
        if F is None or F.decl: raise engine.AnchorMissing(name)
        self.mod.load(F); self.functions.add(name)
        st = St(); st.box = dict(self.box0); st.mem = {}; st.n = 0; st.steps = 0; st.mark = None
        fr = Frame(); fr.fn = F; fr.block = F.blocks[0]; fr.prev = None; fr.idx = 0; fr.ret = None
        vs = sorted(st.box)
        if len(F.args) != len(vs): raise engine.AnchorMissing('%s: parameter count' % name)
        fr.env = {('a', i): self.norm(st, v, 1, 0, 64) for i, v in enumerate(vs)}
        st.frames = (fr,)
        work = [st]
        while work:
            st = work.pop()
            try:
                while True:
                    self.count += 1
                    if self.count > self.steps or self.count % 4096 == 0 and engine.late(): raise Undecided('step budget')
                    try:
                        if self.step(st): break
                    except SplitAt as sp:
                        lo, hi = st.box[sp.var]
                        cuts = [lo] + sorted(p for p in set(sp.points) if lo < p <= hi) + [hi + 1]
                        if len(cuts) == 2: raise Undecided('no progress')
                        for x, y in zip(cuts[:-1], cuts[1:]):
                            t = self.clone(st); t.box[sp.var] = (x, y - 1); work.append(t)
                        break
            except Bad as b: self.bad.append((dict(st.box), b))
        return self.out

    def clone(self, st):
        t = St(); t.box = dict(st.box); t.mem = dict(st.mem); t.n = st.n; t.steps = st.steps; t.mark = None
        fs = []
        for f in st.frames:
            g = Frame(); g.fn = f.fn; g.block = f.block; g.prev = f.prev; g.idx = f.idx; g.env = dict(f.env); g.ret = f.ret; fs.append(g)
        t.frames = tuple(fs)
        return t

    def val(self, st, fr, o, w=64):
        if isinstance(o, Inst):
            v = fr.env[o.id]
        elif isinstance(o, Arg): v = fr.env[('a', o.idx)]
        elif isinstance(o, CInt): return o.v
        elif isinstance(o, CNull): return 0
        elif isinstance(o, CGlobal): return Ptr(o.name, 0)
        elif isinstance(o, CExpr) and o.op == 'gep':
            b = self.val(st, fr, o.ops[0])
            return Ptr(b.g, b.off + o.gep[0]) if not o.gep[1] else self.fail()
        elif isinstance(o, CExpr) and o.op in ('bitcast', 'ptrtoint', 'inttoptr'): return self.val(st, fr, o.ops[0])
        elif isinstance(o, CUndef): raise Undecided('undefined value')
        else: raise Undecided('constant')
        if isinstance(v, (Aff, Fn)):
            lo, hi = st.box[v.v]
            if lo == hi: return self.at(v, lo)
            if isinstance(v, Fn):
                vals = v.vals[lo - v.base:hi + 1 - v.base]
                if all(x == vals[0] for x in vals): return vals[0]
        return v

    def fail(self): raise Undecided('constant expression')

    def goto(self, fr, B):
        fr.prev = fr.block; fr.block = B; fr.idx = 0

    def step(self, st):
        fr = st.frames[-1]
        I = fr.block.insts[fr.idx]
        op = I.op
        if op == 'phi':
            news = []
            k = 0
            for J in fr.block.insts:
                if J.op != 'phi': break
                news.append((J.id, self.val(st, fr, J.extra[fr.prev.idx]))); k += 1
            for i, v in news: fr.env[i] = v
            fr.idx = k
            st.steps += 1
            if st.steps > 500:         # Brent: has this very state been here before?
                def flat(v):
                    if isinstance(v, Aff): return ('aff', v.v, v.a, v.b, v.g)
                    if isinstance(v, Ptr): return ('ptr', v.g, v.off)
                    return v if isinstance(v, int) else ('id', id(v))
                key = (tuple(sorted(st.box.items())), tuple((f.fn.name, f.block.idx, f.idx, tuple((i, flat(v)) for i, v in f.env.items())) for f in st.frames), tuple((str(i), str(v)) for i, v in st.mem.items()))
                if key == st.mark: raise Bad('hang', 'the loop never ends: it repeats with nothing changed', I)
                if st.steps & (st.steps - 1) == 0 or st.mark is None: st.mark = key
            return
        if op == 'br':
            if not I.ops: self.goto(fr, I.extra[0]); return
            c = self.truth(st, self.val(st, fr, I.ops[0]))
            self.goto(fr, I.extra[0 if c else 1]); return
        if op == 'switch':
            v = self.val(st, fr, I.ops[0]); default, cases = I.extra
            if isinstance(v, Fn): self.truth(st, v)
            if isinstance(v, Aff):
                lo, hi = st.box[v.v]; pts = []
                ca = getattr(I, '_sorted', None) if False else self.cases(I, cases)
                import bisect
                mn, mx = sorted((v.a * lo + v.b, v.a * hi + v.b))
                i = bisect.bisect_left(ca, mn)
                while i < len(ca) and ca[i] <= mx:
                    if (ca[i] - v.b) % v.a == 0:
                        p = (ca[i] - v.b) // v.a; pts += [p, p + 1]
                    i += 1
                if any(lo < p <= hi for p in pts): raise SplitAt(v.v, pts)
                self.goto(fr, default); return
            m = self.casemap(I, cases)
            self.goto(fr, m.get(v, default)); return
        if op == 'ret':
            v = self.val(st, fr, I.ops[0]) if I.ops else None
            if len(st.frames) == 1:
                self.record(st, v); return True
            st.frames = st.frames[:-1]
            st.frames[-1].env[fr.ret] = v
            st.frames[-1].idx += 1
            return
        if op == 'call':
            callee = I.extra
            if not isinstance(callee, CGlobal): raise Undecided('indirect call in %s' % fr.fn.name)
            if callee.name.startswith('llvm.dbg') or callee.name.startswith('llvm.lifetime'): fr.idx += 1; return
            F = self.mod.functions.get(callee.name)
            if F is None or F.decl or len(st.frames) > 20: raise Undecided('call of %s' % callee.name)
            self.mod.load(F); self.functions.add(F.name)
            g = Frame(); g.fn = F; g.block = F.blocks[0]; g.prev = None; g.idx = 0; g.ret = I.id
            g.env = {('a', i): self.val(st, fr, o) for i, o in enumerate(I.ops)}
            st.frames = st.frames + (g,)
            return
        if op == 'store':
            p = self.val(st, fr, I.ops[1])
            if not isinstance(p, Ptr) or not isinstance(p.g, int): raise Undecided('store')
            st.mem[(p.g, p.off)] = (I.ops[0].type.size if hasattr(I.ops[0], 'type') else getattr(I.ops[0], 'bits', 64) // 8, self.val(st, fr, I.ops[0]))
            fr.idx += 1; return
        if op == 'unreachable': raise Bad('assert', 'unreachable code is reached', I)
        fr.env[I.id] = self.compute(st, fr, I, op)
        fr.idx += 1

    def cases(self, I, cases):
        c = self._sw.get(id(I)) if hasattr(self, '_sw') else None
        if c is None:
            if not hasattr(self, '_sw'): self._sw = {}
            c = self._sw[id(I)] = sorted(x for x, _ in cases)
        return c

    def casemap(self, I, cases):
        if not hasattr(self, '_cm'): self._cm = {}
        c = self._cm.get(id(I))
        if c is None: c = self._cm[id(I)] = dict(cases)
        return c

    def truth(self, st, v):
        if isinstance(v, int): return v
        if isinstance(v, Ptr): return 1
        if isinstance(v, Fn):
            lo, hi = st.box[v.v]
            raise SplitAt(v.v, [p for p in range(lo + 1, hi + 1) if self.at(v, p) != self.at(v, p - 1)])
        raise Undecided('condition')

    def width(self, o): return o.type.bits if hasattr(o, 'type') else getattr(o, 'bits', 64)

    def compute(self, st, fr, I, op):
        if op == 'icmp': return self.icmp(st, I, *[self.val(st, fr, o) for o in I.ops])
        if op == 'select':
            return self.val(st, fr, I.ops[1 if self.truth(st, self.val(st, fr, I.ops[0])) else 2])
        if op in ('zext', 'bitcast', 'freeze', 'ptrtoint', 'inttoptr'): return self.val(st, fr, I.ops[0])
        w = I.type.bits
        if op == 'trunc':
            v = self.val(st, fr, I.ops[0])
            if isinstance(v, Aff): return self.norm(st, v.v, v.a, v.b, w)
            return self.pointwise(st, lambda x: x % (1 << w), v)
        if op == 'sext':
            v = self.val(st, fr, I.ops[0]); w0 = self.width(I.ops[0])
            if isinstance(v, Aff):
                v = self.signed(st, v, w0); return self.norm(st, v.v, v.a, v.b, w)
            return self.pointwise(st, lambda x: (x - (1 << w0) if x >> (w0 - 1) else x) % (1 << w), v)
        if op == 'alloca':
            st.n += 1; return Ptr(st.n, 0)
        if op == 'gep':
            b = self.val(st, fr, I.ops[0]); off, var = I.extra
            if not isinstance(b, (Ptr, Fn, Aff)): raise Undecided('address')
            t = b if not off else self.padd(st, b, off)
            for i, sc in var:
                x = self.val(st, fr, I.ops[i]); wi = self.width(I.ops[i])
                if isinstance(x, Aff) and isinstance(t, Ptr):
                    x = self.signed(st, x, wi); t = self.norm(st, x.v, x.a * sc, x.b * sc + t.off, 64, t.g)
                elif isinstance(x, int) and isinstance(t, (Ptr, Aff)): t = self.padd(st, t, (x - (1 << wi) if x >> (wi - 1) else x) * sc)
                else: t = self.pointwise(st, lambda q, y: Ptr(q.g, q.off + (y - (1 << wi) if y >> (wi - 1) else y) * sc), t, x)
            return t
        if op == 'load':
            p = self.val(st, fr, I.ops[0])
            if isinstance(p, Ptr) and isinstance(p.g, int):
                m = st.mem.get((p.g, p.off))
                if m is None or m[0] != I.type.size: raise Undecided('local memory')
                v = m[1]
                if isinstance(v, (Aff, Fn)):
                    lo, hi = st.box[v.v]
                    if lo == hi: v = self.at(v, lo)
                return v
            return self.pointwise(st, lambda q: self.load(q, I.type.size, I), p)
        a, b = (self.val(st, fr, o) for o in I.ops[:2])
        M = 1 << w
        if op in ('add', 'sub') and not isinstance(a, (Fn, Ptr)) and not isinstance(b, (Fn, Ptr)):
            var = self.var_of(a, b)
            sg = 1 if op == 'add' else -1
            if var is None: return (a + sg * b) % M
            ca = (a.a, a.b) if isinstance(a, Aff) else (0, a); cb = (b.a, b.b) if isinstance(b, Aff) else (0, b if b < M // 2 else b - M)
            return self.norm(st, var, ca[0] + sg * cb[0], ca[1] + sg * cb[1], w)
        if op in ('mul', 'shl') and isinstance(a, Aff) and isinstance(b, int):
            k = b if op == 'mul' else 1 << b
            if k < 1 << 16: return self.norm(st, a.v, a.a * k, a.b * k, w)
        if op == 'and' and isinstance(a, Aff) and isinstance(b, int) and b & (b + 1) == 0 and b:
            lo, hi = st.box[a.v]
            if (a.a * lo + a.b) // (b + 1) == (a.a * hi + a.b) // (b + 1): return self.norm(st, a.v, a.a, a.b, b.bit_length())
        def sg(x): return x - M if x >= M // 2 else x
        def f(x, y):
            if isinstance(x, Ptr) or isinstance(y, Ptr): raise Undecided('arithmetic on addresses')
            if op in ('udiv', 'urem', 'sdiv', 'srem'):
                if y == 0: raise Bad('ub', 'division by zero', I)
                if op == 'udiv': return x // y
                if op == 'urem': return x % y
                X, Y = sg(x), sg(y); q = abs(X) // abs(Y); q = q if (X < 0) == (Y < 0) else -q
                return (q if op == 'sdiv' else X - q * Y) % M
            if op in ('shl', 'lshr', 'ashr'):
                if y >= w: raise Bad('ub', 'shift by %d bits of a %d-bit value' % (y, w), I)
                return (x << y) % M if op == 'shl' else x >> y if op == 'lshr' else (sg(x) >> y) % M
            if op == 'and': return x & y
            if op == 'or': return x | y
            if op == 'xor': return x ^ y
            if op == 'add': return (x + y) % M
            if op == 'sub': return (x - y) % M
            if op == 'mul': return x * y % M
            raise Undecided('operation %s' % op)
        # division of a long interval: cut where the quotient is constant
        if op in ('udiv', 'sdiv', 'lshr', 'ashr') and isinstance(a, Aff) and isinstance(b, int):
            lo, hi = st.box[a.v]; d = b if 'div' in op else 1 << b
            x0, x1 = a.a * lo + a.b, a.a * hi + a.b
            if d and max(x0, x1) < M // 2 and x0 // d == x1 // d: return x0 // d
            if d and max(x0, x1) < M // 2 and a.a == 1 and d >= LIM // 2:
                raise SplitAt(a.v, [((x1 // d) * d - a.b)] if (x1 // d - x0 // d) < 4 else [(((x0 + x1) // 2) // d) * d - a.b])
        return self.pointwise(st, f, a, b)

    def padd(self, st, p, k):
        if isinstance(p, Ptr): return Ptr(p.g, p.off + k)
        if isinstance(p, Aff): return Aff(p.v, p.a, p.b + k, p.g)
        return Fn(p.v, p.base, [Ptr(x.g, x.off + k) for x in p.vals])

    def load(self, p, size, I):
        if not isinstance(p, Ptr): raise Bad('nullderef', 'access through an invalid address', I)
        if isinstance(p.g, int): raise Undecided('local memory')
        G = self.mod.globals.get(p.g)
        if G is None or G.decl or not G.const: raise Undecided('table %s is not a constant' % p.g)
        if p.off < 0 or p.off + size > G.type.size: raise Bad('oob', 'read at offset %d of %s, which has %d bytes' % (p.off, p.g, G.type.size), I)
        c = self.mod.global_cells(p.g).get(p.off)
        if c is None:
            if any(o in self.mod.global_cells(p.g) for o in range(p.off - 7, p.off + size)):
                if any(o < p.off and o + self.mod.global_cells(p.g)[o][0] > p.off or o > p.off for o in range(p.off - 7, p.off + size) if o in self.mod.global_cells(p.g)): raise Undecided('table layout')
            return 0
        if c[0] != size: raise Undecided('table layout')
        c = c[1]
        if isinstance(c, CInt): return c.v
        if isinstance(c, CNull): return 0
        if isinstance(c, CGlobal): return Ptr(c.name, 0)
        if isinstance(c, CExpr) and c.op == 'gep' and isinstance(c.ops[0], CGlobal) and not c.gep[1]: return Ptr(c.ops[0].name, c.gep[0])
        raise Undecided('table entry')

    def icmp(self, st, I, a, b):
        pred = I.extra; w = self.width(I.ops[0])
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if pred in ('eq', 'ne'):
                if isinstance(a, (Ptr, int)) and isinstance(b, (Ptr, int)) and (a == b or 0 in (a, b)): return int((a == b) == (pred == 'eq'))
            raise Undecided('comparison of addresses')
        if isinstance(a, Fn) or isinstance(b, Fn):
            H = 1 << (w - 1)
            def sg(x): return x - 2 * H if x >= H else x
            def f(x, y):
                if isinstance(x, Ptr) or isinstance(y, Ptr):
                    if pred in ('eq', 'ne'): return int((x == y) == (pred == 'eq'))
                    raise Undecided('comparison of addresses')
                return int(cmpc(pred, x, y, sg(x), sg(y)))
            return self.pointwise(st, f, a, b)
        if isinstance(a, int) and isinstance(b, int):
            H = 1 << (w - 1)
            return int(cmpc(pred, a, b, a - 2 * H if a >= H else a, b - 2 * H if b >= H else b))
        if pred[0] == 's': a = self.signed(st, a, w); b = self.signed(st, b, w)
        var = self.var_of(a, b)
        ca = (a.a, a.b) if isinstance(a, Aff) else (0, a); cb = (b.a, b.b) if isinstance(b, Aff) else (0, b)
        A = ca[0] - cb[0]; B = ca[1] - cb[1]           # sign of A*x+B
        lo, hi = st.box[var]
        def sign(x): v = A * x + B; return (v > 0) - (v < 0)
        cuts = []
        if A:
            if pred in ('eq', 'ne'):
                if B % A == 0 and lo <= -B // A <= hi and lo < hi: cuts = [-B // A, -B // A + 1]
            else:
                t = {'lt': lambda s: s < 0, 'le': lambda s: s <= 0, 'gt': lambda s: s > 0, 'ge': lambda s: s >= 0}[pred[1:]]
                if t(sign(lo)) != t(sign(hi)):
                    l, h, v0 = lo, hi, t(sign(lo))
                    while l < h:
                        m = (l + h) // 2
                        if t(sign(m)) == v0: l = m + 1
                        else: h = m
                    cuts = [l]
        cuts = [c for c in cuts if lo < c <= hi]
        if cuts: raise SplitAt(var, cuts)
        s = sign(lo)
        if pred == 'eq': return int(s == 0)
        if pred == 'ne': return int(s != 0)
        return int({'lt': s < 0, 'le': s <= 0, 'gt': s > 0, 'ge': s >= 0}[pred[1:]])

    def record(self, st, v):
        if isinstance(v, (Aff, Fn)):
            lo, hi = st.box[v.v]
            if isinstance(v, Fn):
                p = lo
                while p <= hi:
                    q = p
                    while q < hi and self.at(v, q + 1) == self.at(v, p): q += 1
                    b = dict(st.box); b[v.v] = (p, q); self.out.append((b, self.at(v, p))); p = q + 1
                return
        self.out.append((dict(st.box), v))


def cmpc(pred, x, y, sx, sy):
    if pred == 'eq': return x == y
    if pred == 'ne': return x != y
    if pred[0] == 's': x, y = sx, sy
    k = pred[1:]
    return x < y if k == 'lt' else x <= y if k == 'le' else x > y if k == 'gt' else x >= y


def cstring(mod, p):
    """bytes of the constant NUL-terminated string at p"""
    cells = mod.global_cells(p.g); out = []
    G = mod.globals[p.g]
    for o in range(p.off, G.type.size):
        c = cells.get(o)
        v = c[1].v if c else 0
        if v == 0: return bytes(out)
        out.append(v)
    return None
