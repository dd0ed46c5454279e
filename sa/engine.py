"""Abstract interpreter over LLVM IR (loaded by llvmir.py).

Values are modular linear expressions over atoms (dom.py); memory is a set of regions with a write log over an
abstract base content; undecided conditions partition the abstract state (trace partitioning); loops are iterated
exactly a few times and then generalised at their headers until a fixpoint is reached (see join.py)."""
import os, math
import llvmir
from dom import *

W64 = 64
DEBUG = bool(os.environ.get('SA_DEBUG'))
SIZE_MAX = mask(64)
DEADLINE = [None]        # wall-clock end of the analysis; what is left then is reported as undecided
KINDS = [None]           # violation kinds that matter for the property at hand


def late():
    import time
    return DEADLINE[0] is not None and time.time() > DEADLINE[0]


def hurry(v):
    """after a definite violation of interest only a little more is looked at"""
    import time
    if not v.lossy and KINDS[0] is not None and v.kind in KINDS[0]:
        t = time.time() + 10
        if DEADLINE[0] is None or DEADLINE[0] > t: DEADLINE[0] = t


class Region:
    __slots__ = ('id', 'name', 'kind', 'size', 'alive', 'base', 'log', 'memo', 'ro', 'atom', 'meta', 'tag')

    def copy(self):
        r = Region.__new__(Region)
        for s in Region.__slots__: setattr(r, s, getattr(self, s))
        return r

    def __repr__(self): return 'R%d:%s' % (self.id, self.name)


class Frame:
    __slots__ = ('fn', 'block', 'idx', 'regs', 'args', 'ret', 'allocas', 'loops', 'prev', 'varargs', 'stuck')

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn; f.block = self.block; f.idx = self.idx; f.regs = dict(self.regs); f.args = self.args
        f.ret = self.ret; f.allocas = self.allocas; f.loops = dict(self.loops); f.prev = self.prev; f.varargs = self.varargs; f.stuck = self.stuck
        return f


class State:
    __slots__ = ('frames', 'regions', 'num', 'ghost', 'trace', 'lossy', 'own', 'steps', 'retval', 'events', 'calls')

    def __init__(self):
        self.frames = []; self.regions = {}; self.num = Num(); self.ghost = {}; self.trace = None
        self.lossy = (); self.own = set(); self.steps = 0; self.retval = None; self.events = (); self.calls = 0

    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]; s.regions = dict(self.regions); s.num = self.num.copy()
        s.ghost = {k: (v.copy() if hasattr(v, 'copy') else v) for k, v in self.ghost.items()}
        s.trace = self.trace; s.lossy = self.lossy; s.own = set(); self.own = set(); s.steps = self.steps
        s.retval = self.retval; s.events = self.events; s.calls = self.calls
        return s

    def wr(self, rid):
        r = self.regions[rid]
        if rid not in self.own:
            r = r.copy(); self.regions[rid] = r; self.own.add(rid)
        return r

    def note(self, what): self.trace = (what, self.trace)

    def path(self, n=40):
        out = []; t = self.trace
        while t and len(out) < n: out.append(t[0]); t = t[1]
        return list(reversed(out))

    def event(self, *e): self.events = self.events + (e,)


class Bool:
    """undecided i1 value: list of conditions; kind of condition is decided lazily"""
    __slots__ = ('pred', 'a', 'b', 'w', 'neg')

    def __init__(self, pred, a, b, w): self.pred = pred; self.a = a; self.b = b; self.w = w
    def __repr__(self): return 'Bool(%s %r %r)' % (self.pred, self.a, self.b)


class BoolOp:
    __slots__ = ('op', 'x', 'y')
    def __init__(self, op, x, y): self.op = op; self.x = x; self.y = y


class Agg:
    __slots__ = ('vals',)
    def __init__(self, vals): self.vals = vals


class Poison:
    def __repr__(self): return 'poison'


POISON = Poison()

# ------------------------------------------------------------------ base contents


class Content:
    def snapshot(self): return self
    def read(self, E, st, r, off, size): raise Undecided('read of ' + type(self).__name__)
    def key(self): return type(self).__name__


class Uninit(Content):
    def read(self, E, st, r, off, size):
        E.uninit(st, r, off, size)
        return uf_read(E, st, r, off, size, 'uninit', 0, mask(8 * size), tag='uninit')


class Zero(Content):
    def read(self, E, st, r, off, size): return ZERO


class Unknown(Content):
    """arbitrary but fixed contents"""
    def __init__(self, name='mem', lo=0, hi=None, tag=None): self.name = name; self.lo = lo; self.hi = hi; self.tag = tag
    def read(self, E, st, r, off, size):
        hi = mask(8 * size) if self.hi is None else self.hi
        return uf_read(E, st, r, off, size, self.name, self.lo, hi, tag=self.tag)


class CStr(Content):
    """NUL-terminated string of symbolic length n: bytes < n are nonzero, byte n is zero"""
    def __init__(self, n, name='s'): self.n = n; self.name = name
    def read(self, E, st, r, off, size):
        if size != 1: raise Undecided('wide read of string')
        if E.decide(st, 'ge', self.n - off - 1):
            return uf_read(E, st, r, off, 1, self.name, 1, 255)
        return ZERO


class Lazy(Content):
    """struct whose fields are produced on demand: fields: {off: (size, fn(E, st, region)->Lin)}"""
    def __init__(self, fields, name=''): self.fields = fields; self.name = name
    def read(self, E, st, r, off, size):
        off = st.num.norm(off)
        if not off.const or off.c not in self.fields or self.fields[off.c][0] != size:
            raise Undecided('odd access to %s at %r size %d' % (self.name, off, size))
        for o, s, v in r.memo:
            if o == off: return v
        v = self.fields[off.c][1](E, st, r)
        rr = st.wr(r.id)
        rr.memo = rr.memo + ((off, size, v),)
        return v


class GlobalInit(Content):
    def __init__(self, mod, name): self.mod = mod; self.name = name; self._tab = {}
    def cells(self): return self.mod.global_cells(self.name)
    def cval(self, off, size):
        cells = self.cells()
        c = cells.get(off)
        if c and c[0] == size and c[1].__class__ is llvmir.CInt: return c[1].v
        if c is None and not any(o <= off < o + s[0] for o, s in self._near(cells, off)): 
            if size == 1 or not any(off < o < off + size for o, s in self._near2(cells, off, size)): return 0
        # assemble bytes
        v = 0
        for i in range(size):
            b = self.byte(off + i)
            if b is None: return None
            v |= b << (8 * i)
        return v
    def _near(self, cells, off):
        for d in range(0, 16):
            if off - d in cells: yield off - d, cells[off - d]
    def _near2(self, cells, off, size):
        for d in range(1, size):
            if off + d in cells: yield off + d, cells[off + d]
    def byte(self, off):
        cells = self.cells()
        for d in range(0, 16):
            c = cells.get(off - d)
            if c:
                if d < c[0]:
                    if isinstance(c[1], llvmir.CInt): return c[1].v >> (8 * d) & 255
                    if isinstance(c[1], (llvmir.CNull,)) : return 0
                    return None
                return 0
        return 0
    def read(self, E, st, r, off, size):
        off = st.num.norm(off)
        if off.const:
            c = self.cells().get(off.c)
            if c and c[0] == size and not isinstance(c[1], llvmir.CInt):
                return E.constval(st, c[1])
            v = self.cval(off.c, size)
            if v is None: raise Undecided('odd read of global ' + self.name)
            return K(v)
        # table lookup with symbolic index
        lo, hi = st.num.range(off)
        cells = self.cells()
        if any(not isinstance(c[1], llvmir.CInt) for c in list(cells.values())[:64]):
            # table of pointers/records with non-integer cells: partition on the offset
            vals = None
            sup = st.num.support(off)
            if len(sup) == 1:
                a = next(iter(sup)); d = st.num.adom(a)
                if vs_size(d) <= 4096:
                    raise Split([(lambda s, v=v, a=a: s.num.assume_eq(L(a) - v)) for v in vs_iter(d)], 'table index')
            raise Undecided('symbolic index into pointer table ' + self.name)
        if E.pieces and hi - lo <= 8192:
            g = 0
            for _, k in off.t: g = math.gcd(g, abs(k))
            runs = self.runs(off, lo + (off.c - lo) % g, hi, g, size)
            if runs and 1 < len(runs) <= E.pieces and len(off.t) > 1:
                runs = [x for x in runs if not st.num.entails_ge(K(x[0][0] - 1) - off) and not st.num.entails_ge(off - x[0][1] - 1)]
            if runs and len(runs) == 1:
                f, q, k = runs[0][1]          # value f at offset q, k more per step of g
                d = off - q
                return K(f) + Lin(d.c // g, tuple((a, n // g) for a, n in d.t)).scale(k)
            if runs and len(runs) <= E.pieces:
                raise Split([(lambda s, x=x, y=y: (s.num.assume_ge(off - x), s.num.assume_ge(K(y) - off))) for (x, y), _ in runs], 'table piece')
        fn = self._tab.get(size)
        if fn is None:
            total = r.size.c
            def fn(o, size=size):
                if o < 0 or o + size > total: raise IndexError
                return self.cval(o, size)
            self._tab[size] = fn
        a = op_atom('tab', [off], 8 * size, extra=fn)
        return L(a)
    def key(self): return 'G' + self.name

    def runs(self, off, lo, hi, g, size):
        """maximal affine pieces of the table as a function of the offset (lo, lo+g, ..): [((first, last), constant, slope, divisor)], or None"""
        out = []
        for v in range(lo, hi + 1, g):
            f = self.cval(v, size) if v >= 0 else None
            if f is None: return None
            if out:
                p, q, fq, k = out[-1]
                if k is None or f - fq == k: out[-1] = (p, v, f, f - fq); continue
            out.append((v, v, f, None))
            if len(out) > 64: return None
        return [((p, q), (f, q, k or 0)) for p, q, f, k in out]


def uf_read(E, st, r, off, size, name, lo, hi, tag=None):
    off = st.num.norm(off)
    for o, s, v in r.memo:
        if o == off and s == size: return v
    for o, s, v in r.memo:
        if s == size:
            if st.num.entails_eq(o - off): return v
        if st.num.entails_ge(off - o - s) or st.num.entails_ge(o - off - size): continue
        if s == size:
            d = o - off
            if st.num.entails_ne(d) and not (size > 1): continue
            if E.decide(st, 'eq', d): return v
            if size > 1:
                # equal-size cells are aligned alike: different offset means disjoint
                continue
            continue
        # mixed size access
        delta = st.num.norm(off - o)
        if delta.const and 0 <= delta.c and delta.c + size <= s:
            return E.extract(st, v, delta.c, size, s)
        raise Undecided('overlapping access %s' % r)
    v = L(Atom('%s[%r]' % (name, off), lo, hi, tag=tag))
    rr = st.wr(r.id)
    rr.memo = rr.memo + ((off, size, v),)
    return v


class Violation:
    def __init__(self, kind, msg, st, inst, fn=None, definite=True):
        self.kind = kind; self.msg = msg; self.inst = inst; self.definite = definite
        self.file = inst.file if inst is not None else ''
        self.line = inst.line if inst is not None else 0
        self.fn = inst.fn.name if inst is not None else (fn or '')
        self.path = st.path() if st is not None else []
        self.lossy = st.lossy if st is not None else ()
        self.facts = []
        if st is not None:
            self.facts = [repr(f) + ' >= 0' for f in st.num.facts[-40:]] + [repr(f) + ' != 0' for f in st.num.nes[-6:]] + \
                         ['%r in %r' % (a, d if len(d) < 8 else '...') for a, d in list(st.num.dom.items())[-12:]]
        self.stack = [f.fn.name for f in st.frames] if st is not None else []

    def key(self): return (self.kind, self.fn, self.line, self.msg)


class Stop(Exception):
    """end of this abstract path (abort, infeasible)"""


class Engine:
    def __init__(self, mod, maxsteps=200000, unroll=3):
        self.mod = mod
        self.regctr = [0]
        self.maxsteps = maxsteps
        self.violations = []
        self.undecided = []
        self.cur = None
        self.maskuses = {}
        self.stats = {'paths': 0, 'insts': 0, 'functions': set(), 'splits': 0, 'joins': 0, 'fixpoints': 0, 'cut': 0, 'obligations': 0}
        self.libc = dict(LIBC)
        self.callbacks = {}      # tag -> fn(E, st, args)
        self.unroll = unroll
        self.maxarr = 80
        self.joiner = None
        self.globals_override = {}
        self.oom = False
        self.hooks = {}
        self.live = {}
        self._seen = set()
        self.check_uninit = True
        self.quiet = 0
        self.maxstates = 60000
        self.wm_atoms = {}
        self.tables = {}
        self.pieces = 0          # tables with at most this many affine pieces are partitioned when read

    # ---------------------------------------------------------------- reporting
    def violation(self, kind, msg, st, inst=None):
        inst = inst or self.cur
        v = Violation(kind, msg, st, inst)
        if v.key() in self._seen: return
        if st is not None:
            if st.num.infeasible(): return
            if not st.lossy and st.num.witness(6000) == 'unknown': v.lossy = ('no concrete witness found',)
        if not v.lossy: self._seen.add(v.key())
        if self.quiet: return
        self.violations.append(v)
        hurry(v)

    def undecide(self, msg, st=None, inst=None):
        inst = inst or self.cur
        t = (msg, inst.fn.name if inst is not None else '', inst.line if inst is not None else 0)
        if t not in self.undecided: self.undecided.append(t)

    def uninit(self, st, r, off, size): pass

    def lost_region(self, st, r):
        h = self.hooks.get('lost')
        if h: h(self, st, r)

    # ---------------------------------------------------------------- regions
    def new_region(self, st, name, size, kind='heap', base=None, ro=False, tag=None, meta=None):
        self.regctr[0] += 1
        r = Region(); r.id = self.regctr[0]; r.name = name; r.kind = kind
        r.size = size if isinstance(size, Lin) else K(size)
        r.alive = True; r.base = base or Uninit(); r.log = (); r.memo = (); r.ro = ro; r.tag = tag; r.meta = meta
        r.atom = Atom('&' + name + '#%d' % r.id, 4096, SIZE_MAX - 4096, kind='base', rid=r.id)
        st.regions[r.id] = r; st.own.add(r.id)
        return r

    def ptr(self, r, off=0): return L(r.atom) + off

    def global_ptr(self, st, name):
        key = ('g', name)
        rid = st.ghost.setdefault('globals', {}).get(name)
        if rid is None:
            if name in self.mod.functions:
                r = self.new_region(st, name, 1, kind='func', base=Content()); r.meta = name
            else:
                g = self.mod.globals[name]
                ov = self.globals_override.get(name)
                if ov is not None: base = ov
                elif g.decl: base = Unknown(name)
                else: base = GlobalInit(self.mod, name)
                r = self.new_region(st, name, g.type.size if not g.decl else (1 << 32), kind='global', base=base, ro=g.const)
            # same identity in all states
            cached = self.hooks.setdefault('gatoms', {})
            if name in cached:
                oldid, oldatom = cached[name]
                del st.regions[r.id]; st.own.discard(r.id)
                r.id = oldid; r.atom = oldatom
                st.regions[oldid] = r; st.own.add(oldid)
            else:
                cached[name] = (r.id, r.atom)
            st.ghost['globals'][name] = r.id
            rid = r.id
        return L(st.regions[rid].atom)

    def resolve(self, st, p):
        """pointer Lin -> (region, offset) or None"""
        p = st.num.norm(p)
        base = None
        for a, k in p.t:
            if a.kind == 'base':
                if base is not None or k != 1: raise Undecided('pointer arithmetic over two objects')
                base = a
        if base is None: return None, p
        return st.regions[base.rid], p.without(base)

    # ---------------------------------------------------------------- decisions
    def decide(self, st, kind, e):
        """decide e>=0 / e==0 / e!=0 in st or raise Split"""
        num = st.num
        e = num.norm(e)
        if not e.t: return e.c >= 0 if kind == 'ge' else e.c == 0 if kind == 'eq' else e.c != 0
        if kind == 'ne': return not self.decide(st, 'eq', e)
        if kind == 'ge' and len(e.t) == 1 and e.t[0][0].kind == 'op' and e.t[0][0].op == 'udiv' and abs(e.t[0][1]) == 1:
            # comparison of a symbolic quotient A div B with a constant: multiply out
            A, B = e.t[0][0].args[:2]
            if not B.const and num.entails_ge(B - 1):
                if e.t[0][1] == 1: return e.c >= 0 or self.decide(st, 'ge', A + B.scale(e.c))
                return e.c >= 0 and self.decide(st, 'ge', B.scale(e.c + 1) - A - 1)
        if kind == 'ge':
            if num.entails_ge(e): return True
            if num.entails_ge((-e) - 1): return False
        else:
            if num.entails_ne(e): return False
            if num.entails_eq(e): return True
        # finite support: exact pointwise evaluation
        sup = num.support(e)
        if any(a.kind == 'base' for a in sup):
            bs = [a for a in sup if a.kind == 'base']
            if kind == 'eq' and len(bs) == 1 and len(e.t) >= 1:
                # pointer+symbolic offset against integer/NULL: pointers into live objects are never NULL
                return False
            if kind == 'ge': raise Undecided('ordering of unrelated pointers')
            raise Undecided('pointer comparison')
        n = 1
        lim = SMALL if len(sup) == 1 else SMALLN
        for a in sup:
            n *= vs_size(num.adom(a))
            if n > lim: break
        if n <= lim:
            t = f = 0
            byval = {}
            first = min(sup, key=lambda a: (vs_size(num.adom(a)), a.id))
            try:
                for env in num.envs(sup):
                    k = env[first]
                    if cond_eval((kind, e), env, num): t += 1; byval[k] = byval.get(k, 0) | 1
                    else: f += 1; byval[k] = byval.get(k, 0) | 2
            except (Undecided, ZeroDivisionError, IndexError, KeyError):
                t = f = 1; byval = None
            if t and not f: return True
            if f and not t: return False
            if byval is not None:
                if t == 0 and f == 0: raise Infeasible()
                T = [k for k, b in byval.items() if b == 1]; Fv = [k for k, b in byval.items() if b == 2]; M = [k for k, b in byval.items() if b == 3]
                if len(sup) == 1:
                    tv, fv = vs_from(T), vs_from(Fv)
                    raise Split([lambda s: setdom(s, first, tv), lambda s: setdom(s, first, fv)], (kind, e))
                if not M:
                    tv, fv = vs_from(T), vs_from(Fv)
                    raise Split([lambda s: setdom(s, first, tv), lambda s: setdom(s, first, fv)], (kind, e))
                if not self._linear(e):
                    # relation between several finite symbols, kept as a relational fact
                    cond = (kind, e); ncond = ('ge', (-e) - 1) if kind == 'ge' else ('ne', e)
                    ss = frozenset(sup)
                    def add(c):
                        def f(s): s.num.rels = s.num.rels + ((c, ss),); s.num.touch()
                        return f
                    raise Split([add(cond), add(ncond)], (kind, e))
        self.stats['splits'] += 1
        if kind == 'ge':
            raise Split([lambda s: s.num.assume_ge(e), lambda s: s.num.assume_ge((-e) - 1)], ('ge', e))
        raise Split([lambda s: s.num.assume_eq(e), lambda s: s.num.assume_ne(e)], ('eq', e))

    def _linear(self, e): return all(a.kind != 'op' for a, _ in e.t)

    def canon(self, st, e, w, signed=False):
        """mathematical value of e interpreted at width w"""
        num = st.num
        e = num.norm(e)
        M = 1 << w
        lo_t, hi_t = (-(M >> 1), (M >> 1) - 1) if signed else (0, M - 1)
        if not e.t:
            v = e.c & (M - 1)
            if signed and v > hi_t: v -= M
            return K(v)
        if any(a.kind == 'base' for a, _ in e.t): return e
        for _ in range(4):
            lo, hi = num.range(e)
            if lo >= lo_t and hi <= hi_t: return e
            k = (lo - lo_t) // M
            if k and (hi - lo_t) // M == k:
                e = e - k * M; continue
            if lo > hi_t or hi < lo_t:
                e = e - ((lo - lo_t) // M) * M; continue
            break
        gl = num.entails_ge(e - lo_t); gh = num.entails_ge(K(hi_t) - e)
        if gl and gh: return e
        if num.entails_ge(K(lo_t - 1) - e):      # definitely below
            return self.canon(st, e + M, w, signed)
        if num.entails_ge(e - (hi_t + 1)):
            return self.canon(st, e - M, w, signed)
        # a huge multiple: treat as opaque modular value
        lo, hi = num.range(e)
        if (hi - lo) > 8 * M:
            gs = [x for x in (gl, gh)]
            if not (gl or gh) or hi - lo > (M << 20):
                a = op_atom('smod' if signed else 'mod', [e], w, lo_t, hi_t)
                return L(a)
        if not gl:
            self.decide(st, 'ge', e - lo_t)
            return self.canon(st, e, w, signed)
        self.decide(st, 'ge', K(hi_t) - e)
        return self.canon(st, e, w, signed)

    def truth(self, st, b):
        """decide an i1 value"""
        if isinstance(b, Lin):
            b = st.num.norm(b)
            if b.const: return bool(b.c & 1)
            lo, hi = st.num.range(b)
            if lo >= 0 and hi <= 1: return self.decide(st, 'ne', b)
            return self.decide(st, 'ne', self.canon(st, b, 1))
        if isinstance(b, BoolOp):
            if b.op == 'not': return not self.truth(st, b.x)
            if b.op == 'and': return self.truth(st, b.x) and self.truth(st, b.y)
            if b.op == 'or': return self.truth(st, b.x) or self.truth(st, b.y)
            if b.op == 'xor': return self.truth(st, b.x) != self.truth(st, b.y)
        if isinstance(b, Bool): return self.icmp(st, b.pred, b.a, b.b, b.w)
        raise Undecided('truth of %r' % (b,))

    def icmp(self, st, pred, a, b, w):
        if isinstance(a, (Bool, BoolOp)): a = K(int(self.truth(st, a)))
        if isinstance(b, (Bool, BoolOp)): b = K(int(self.truth(st, b)))
        if a is POISON or b is POISON: raise Undecided('poison compared')
        num = st.num
        if pred in ('eq', 'ne'):
            d = num.norm(a - b)
            if not d.t:
                r = d.c % (1 << w) == 0
            else:
                bt = self.bit_test(st, d, w)
                if bt is not None: r = bt
                else:
                    lo, hi = num.range(d)
                    if any(x.kind == 'base' for x, _ in d.t) or (lo > -(1 << w) and hi < (1 << w)):
                        r = self.decide(st, 'eq', d)
                    else:
                        r = self.decide(st, 'eq', self.canon(st, a, w) - self.canon(st, b, w))
            return r if pred == 'eq' else not r
        s = pred[0] == 's'
        # pointers into the same object compare by offset
        d = num.norm(a - b)
        if w == 64 and any(x.kind == 'base' for x, _ in num.norm(a).t) and any(x.kind == 'base' for x, _ in num.norm(b).t):
            if any(x.kind == 'base' for x, _ in d.t): raise Undecided('ordering of pointers to different objects')
            A, B = self.canon(st, d, 64, True), ZERO
        else:
            A = self.canon(st, a, w, s); B = self.canon(st, b, w, s)
        if pred[1:] == 'lt': return self.decide(st, 'ge', B - A - 1)
        if pred[1:] == 'le': return self.decide(st, 'ge', B - A)
        if pred[1:] == 'gt': return self.decide(st, 'ge', A - B - 1)
        return self.decide(st, 'ge', A - B)

    def isbits(self, st, x):
        if len(x.t) == 1 and x.t[0][0].kind == 'op' and abs(x.t[0][1]) == 1:
            a = x.t[0][0]
            if a.op in ('shl', 'lshr') and a.args[0].const: return True
            if a.op in ('and', 'or', 'xor') and any(self.isbits(st, y) for y in a.args[:2] if not y.const): return True
        bw = st.ghost.get('bitword')
        if not bw: return False
        return any(a in bw for a in x.supp())

    def zero_test(self, st, x, w):
        """is the bit word x zero? introduces its least set bit"""
        bf = st.ghost.get('bitfirst', {})
        if x in bf:
            p = bf[x]
            if p is None: return True
            if not self.testbit(st, x, p, w): raise Infeasible()
            return False
        def zero(s):
            s.ghost['bitfirst'] = dict(s.ghost.get('bitfirst', {})); s.ghost['bitfirst'][x] = None
            s.ghost['bitruns'] = s.ghost.get('bitruns', ()) + ((x, ZERO, K(w), False, w),)
        p = sym('bit', 0, w - 1)
        def nonzero(s):
            s.ghost['bitfirst'] = dict(s.ghost.get('bitfirst', {})); s.ghost['bitfirst'][x] = p
            s.ghost['bitruns'] = s.ghost.get('bitruns', ()) + ((x, ZERO, p, False, w), (x, p, p + 1, True, w))
        raise Split([zero, nonzero], ('word', x))

    def bit_test(self, st, d, w):
        """and(X, 1<<r) == 0 ?  handled bitwise"""
        if self.isbits(st, d) and len(d.t) == 1 and (d.c == 0 and d.t[0][1] == 1 or d.t[0][1] == -1 and d.c % (1 << w) == mask(w)):
            if d.t[0][1] == 1 and d.t[0][0].kind == 'op' and d.t[0][0].op == 'and':
                a = d.t[0][0]
                for u, v in ((a.args[0], a.args[1]), (a.args[1], a.args[0])):
                    r = self.single_bit(st, v, a.w, self.isbits(st, u))
                    if r is not None: return not self.testbit(st, u, r, a.w)
            if d.t[0][0].kind == 'op' and d.t[0][0].op == 'shl' and d.t[0][1] == 1 and d.t[0][0].args[0].const and d.t[0][0].args[0].c & mask(d.t[0][0].w) == 1: return False
            return self.zero_test(st, d, w)
        if len(d.t) != 1 or d.c: return None
        a, k = d.t[0]
        if a.kind == 'op' and a.op == 'shl' and a.args[0].const and a.args[0].c & mask(a.w) == 1 and abs(k) == 1: return False
        if abs(k) != 1 or a.kind != 'op' or a.op != 'and': return None
        x, y = a.args[0], a.args[1]
        for u, v in ((x, y), (y, x)):
            r = self.single_bit(st, v, a.w)
            if r is not None and not (st.num.norm(u).const):
                return not self.testbit(st, u, r, a.w)
        return None

    def single_bit(self, st, v, w, bits=False):
        v = st.num.norm(v)
        if v.const:
            c = v.c & mask(w)
            return K(c.bit_length() - 1) if c and not c & (c - 1) and bits else None
        if len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1:
            a = v.t[0][0]
            if a.kind == 'op' and a.op == 'shl' and a.args[0].const and a.args[0].c & mask(a.w) == 1:
                return a.args[1]
        return None

    def testbit(self, st, x, r, w):
        """is bit r (Lin, 0<=r<w) of word expression x set"""
        x = st.num.norm(x)
        if x.const:
            v = x.c & mask(w)
            r = st.num.norm(r)
            if r.const: return bool(v >> r.c & 1)
            if v == 0: return False
            if v == mask(w): return True
            for i in range(w):
                if v >> i & 1 and self.decide(st, 'eq', r - i): return True
            return False
        # complement: -1 - y
        if len(x.t) == 1 and x.t[0][1] == -1 and x.c % (1 << w) == mask(w):
            return not self.testbit(st, -(x - x.c), r, w)
        if len(x.t) == 1 and x.c == 0 and x.t[0][1] == 1:
            a = x.t[0][0]
            if a.kind == 'op' and a.w == w:
                if a.op == 'or': return self.testbit(st, a.args[0], r, w) or self.testbit(st, a.args[1], r, w)
                if a.op == 'and': return self.testbit(st, a.args[0], r, w) and self.testbit(st, a.args[1], r, w)
                if a.op == 'xor': return self.testbit(st, a.args[0], r, w) != self.testbit(st, a.args[1], r, w)
                if a.op == 'shl':
                    k = a.args[1]
                    if a.args[0].const and a.args[0].c & mask(w) == 1: return self.decide(st, 'eq', k - r)
                    if a.args[0].const and a.args[0].c & mask(w) == mask(w): return self.decide(st, 'ge', r - k)
                    return self.decide(st, 'ge', r - k) and self.testbit(st, a.args[0], r - k, w)
                if a.op == 'lshr':
                    return self.decide(st, 'ge', K(w - 1) - r - a.args[1]) and self.testbit(st, a.args[0], r + a.args[1], w)
            if a.kind == 'sym':
                return self.sym_bit(st, a, r, w)
        raise Undecided('bit test of %r' % x)

    def sym_bit(self, st, a, r, w):
        """bit r of an unknown word: uninterpreted boolean, memoised by index, consistent with what is known of whole words"""
        bits = st.ghost.get('bits', ())
        for (aa, rr, v) in bits:
            if aa is a:
                if st.num.entails_eq(rr - r): return v
        for (aa, rr, v) in bits:
            if aa is a and not st.num.entails_ne(rr - r):
                if self.decide(st, 'eq', rr - r): return v
        h = self.hooks.get('symbit')
        if h:
            v = h(self, st, a, r, w)
            if v is not None: return v
        cand = [True, False]
        for (x, lo, hi, want, xw) in st.ghost.get('bitruns', ()):
            # bits lo..hi-1 of expression x are all `want`
            if a in x.supp() and self.decide(st, 'ge', r - lo) and self.decide(st, 'ge', hi - r - 1):
                keep = []
                for c in cand:
                    st.ghost['bits'] = bits + ((a, r, c),)
                    try:
                        if self.testbit(st, x, r, xw) == want: keep.append(c)
                    finally: st.ghost['bits'] = bits
                cand = keep
        if not cand: raise Infeasible()
        if len(cand) == 1: return cand[0]
        def add(v):
            def f(s): s.ghost['bits'] = s.ghost.get('bits', ()) + ((a, r, v),)
            return f
        raise Split([add(True), add(False)], ('bit', a, r))

    # ---------------------------------------------------------------- arithmetic
    def overflow(self, st, op, a, b, w):
        """signed arithmetic: the exact result must be representable"""
        if not isinstance(a, Lin) or not isinstance(b, Lin): return
        a = self.canon(st, a, w, True); b = self.canon(st, b, w, True)
        num = st.num
        a = num.norm(a); b = num.norm(b)
        if op == 'mul':
            if not a.const and not b.const:
                (al, ah), (bl, bh) = num.range(a), num.range(b)
                c = [x * y for x in (al, ah) for y in (bl, bh)]
                if min(c) >= -(1 << (w - 1)) and max(c) < 1 << (w - 1): return
                raise Undecided('signed product')
            e = b.scale(a.c) if a.const else a.scale(b.c)
        else: e = a + b if op == 'add' else a - b
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        if any(x.kind == 'base' for x, _ in e.t): return
        rl, rh = num.range(e)
        self.stats['signed operations'] = self.stats.get('signed operations', 0) + 1
        if rl >= lo and rh <= hi: return
        if not self.decide(st, 'ge', K(hi) - e) or not self.decide(st, 'ge', e - lo):
            self.violation('overflow', 'signed %d-bit result %r overflows' % (w, e), st); raise Stop()

    def binop(self, st, op, a, b, w):
        if isinstance(a, (Bool, BoolOp)) or isinstance(b, (Bool, BoolOp)):
            if w == 1:
                if op == 'xor' and isinstance(b, Lin) and b.const:
                    return BoolOp('not', a, None) if b.c & 1 else a
                if op in ('and', 'or', 'xor'): return BoolOp(op, a, b)
            if isinstance(a, (Bool, BoolOp)): a = K(int(self.truth(st, a)))
            if isinstance(b, (Bool, BoolOp)): b = K(int(self.truth(st, b)))
        if a is POISON or b is POISON: return POISON
        num = st.num
        a = num.norm(a); b = num.norm(b)
        M = 1 << w
        if op == 'add': return self.red(a + b, w)
        if op == 'sub': return self.red(a - b, w)
        if op in ('shl', 'lshr', 'ashr'):
            B = self.canon(st, b, w)
            if not self.decide(st, 'ge', K(w - 1) - B):
                self.violation('ub', 'shift by the width of the operand or more', st); raise Stop()
            b = num.norm(B)
            if a.const and a.c & mask(w) == 0: return ZERO
        elif op in ('udiv', 'urem', 'sdiv', 'srem') and self.decide(st, 'eq', self.canon(st, b, w)):
            self.violation('ub', 'division by zero', st); raise Stop()
        if a.const and b.const:
            try: return K(eval_op(op, [a.c, b.c], w))
            except ZeroDivisionError: raise Undecided('division by zero')
        if op == 'mul':
            if b.const: return self.red(a.scale(sgn(b.c, w)), w)
            if a.const: return self.red(b.scale(sgn(a.c, w)), w)
            return self.opq(st, 'mul', a, b, w)
        if op == 'shl' and b.const and not self.isbits(st, a):
            if b.c & mask(w) >= w:
                self.violation('ub', 'shift by the width of the operand or more', st); raise Stop()
            return self.red(a.scale(1 << b.c), w)
        if op in ('lshr', 'shl') and self.isbits(st, a):
            if b.const and b.c == 0: return a
            return L(op_atom(op, [a, b], w))
        if op == 'lshr' and b.const: return self.udiv(st, a, 1 << b.c, w)
        if op == 'udiv' and b.const: return self.udiv(st, a, b.c & mask(w), w)
        if op == 'urem' and b.const: return self.urem(st, a, b.c & mask(w), w)
        if op in ('udiv', 'urem'):
            A = self.canon(st, a, w); B = self.canon(st, b, w)
            if num.entails_eq(B): raise Undecided('division by zero')
            q = self.opq(st, op, A, B, w)
            if op == 'urem':
                num.add_axiom(B - q - 1); num.add_axiom(A - q)
            return q
        if op in ('sdiv', 'srem') and b.const:
            A = self.canon(st, a, w, True)
            d = sgn(b.c, w)
            if d > 0:
                if self.decide(st, 'ge', A): return self.udiv(st, A, d, w) if op == 'sdiv' else self.urem(st, A, d, w)
                q = self.udiv(st, -A, d, w)
                return -q if op == 'sdiv' else -self.urem(st, -A, d, w)
            raise Undecided('division by negative constant')
        if op == 'ashr' and b.const:
            A = self.canon(st, a, w, True)
            if self.decide(st, 'ge', A): return self.udiv(st, A, 1 << b.c, w)
            # floor division of a negative number
            q = self.udiv(st, (-A) - 1, 1 << b.c, w)
            return (-q) - 1
        if op in ('and', 'or', 'xor'):
            if a.const: a, b = b, a
            if b.const and self.isbits(st, a) and b.c & mask(w) not in (0, mask(w)):
                return L(op_atom(op, [a, b], w))
            if b.const:
                c = b.c & mask(w)
                if op == 'and':
                    if c == 0: return ZERO
                    if c == mask(w): return a
                    if c & (c + 1) == 0: return self.urem(st, a, c + 1, w)
                    inv = mask(w) ^ c
                    if inv & (inv + 1) == 0:
                        r = self.urem(st, a, inv + 1, w)
                        return a - r
                elif op == 'or':
                    if c == 0: return a
                    if c == mask(w): return K(-1)
                elif op == 'xor':
                    if c == 0: return a
                    if c == mask(w): return K(-1) - a
            if op == 'or':
                # disjoint bits: addition
                for x, y in ((a, b), (b, a)):
                    try:
                        X = self.range_nosplit(st, x, w)
                    except Undecided: continue
                    if X is None: continue
                    k = X[1].bit_length()
                    if X[0] >= 0 and self.multiple_of(st, y, 1 << k, w): return self.red(a + b, w)
            if a == b: return a if op != 'xor' else ZERO
            v = self.fin(st, op, a, b, w)
            if v is not None: return v
            A = self.bitcanon(st, a, w); B = self.bitcanon(st, b, w)
            return L(op_atom(op, [A, B], w))
        return self.opq(st, op, a, b, w)

    def bitcanon(self, st, a, w):
        try:
            lo, hi = st.num.range(a)
            if 0 <= lo and hi <= mask(w): return a
        except Undecided: pass
        return a

    def range_nosplit(self, st, x, w):
        lo, hi = st.num.range(x)
        if lo >= 0 and hi <= mask(w): return lo, hi
        return None

    def multiple_of(self, st, y, m, w):
        y = st.num.norm(y)
        if m == 1: return True
        if y.c % m == 0 and all(k % m == 0 for _, k in y.t): return True
        sup = st.num.support(y)
        n = 1
        for a in sup:
            n *= vs_size(st.num.adom(a))
            if n > 4096: return False
        try:
            return all(eval_lin(y, env) % m == 0 for env in st.num.envs(sup))
        except Exception: return False

    def red(self, e, w):
        """keep constants small (mod 2^w representative nearest 0)"""
        M = 1 << w
        c = e.c
        if not e.t:
            return K(c % M)
        if c >= M or c <= -M:
            c = c % M
            if c > M >> 1: c -= M
            return Lin(c, e.t)
        if c > M >> 1: return Lin(c - M, e.t)
        return e

    def opq(self, st, op, a, b, w):
        if op in ('shl', 'lshr', 'ashr'):
            v = self.fin(st, op, a, b, w)
            if v is not None: return v
        return L(op_atom(op, [a, b], w))

    def fin(self, st, op, a, b, w):
        """op over few finite symbols: constant or affine on the current value set?"""
        num = st.num
        sup = num.support(a) | num.support(b)
        if len(sup) != 1: return None
        x = next(iter(sup))
        d = num.adom(x)
        n = vs_size(d)
        if n > 4096: return None
        at = op_atom(op, [a, b], w)
        return self.fin_atom(st, at, x, d, n)

    def fin_atom(self, st, at, x, d, n):
        pts = list(vs_iter(d))
        try:
            v0 = eval_atom(at, {x: pts[0]})
            if n == 1: return K(v0)
            v1 = eval_atom(at, {x: pts[1]})
        except (ZeroDivisionError, IndexError, KeyError, Undecided): return None
        dx = pts[1] - pts[0]
        if (v1 - v0) % dx: return None
        k = (v1 - v0) // dx
        for p in pts[2:]:
            if eval_atom(at, {x: p}) != v0 + k * (p - pts[0]): return None
        return Lin(v0 - k * pts[0], ((x, k),) if k else ())

    def udiv(self, st, a, d, w):
        if d == 0: raise Undecided('division by zero')
        if d == 1: return a
        A = self.canon(st, a, w)
        if A.const: return K(A.c // d)
        lo, hi = st.num.range(A)
        if lo >= 0 and lo // d == hi // d: return K(lo // d)
        # split off exact multiples
        q = ZERO; rest = Lin(A.c % d)
        qc = A.c // d
        qt = []; rt = []
        for at, k in A.t:
            if k % d == 0: qt.append((at, k // d))
            else: rt.append((at, k))
        qpart = Lin(qc, tuple(qt)); rest = Lin(A.c % d, tuple(rt))
        rlo, rhi = st.num.range(rest)
        if rlo >= 0 and rlo // d == rhi // d: return qpart + rlo // d
        if rlo < 0: qpart = ZERO; rest = A
        elif not rest.t: return qpart
        sup = st.num.support(rest)
        if len(sup) == 1:
            x = next(iter(sup)); dm = st.num.adom(x); n = vs_size(dm)
            if n <= 4096:
                v = self.fin_atom(st, op_atom('udiv', [rest, K(d)], w), x, dm, n)
                if v is not None: return qpart + v
        at = op_atom('udiv', [rest, K(d)], w)
        q = L(at)
        st.num.add_axiom(rest - q.scale(d)); st.num.add_axiom(q.scale(d) + (d - 1) - rest)
        return qpart + q

    def urem(self, st, a, d, w):
        if d == 0: raise Undecided('division by zero')
        if d & (d - 1) == 0:
            a0 = a
            # power of two: reduce modulo d directly, no wrap problem
            a = Lin(a.c % d, tuple((x, k % d if 2 * (k % d) <= d else k % d - d) for x, k in a.t if k % d))
            lo, hi = st.num.range(a)
            if lo >= 0 and hi < d: return a
            if lo < 0 and (1 << w) % d == 0: a = a0
        A = self.canon(st, a, w) if not (d & (d - 1) == 0) else self.canon_pow2(st, a, d, w)
        lo, hi = st.num.range(A)
        if lo >= 0 and hi < d: return A
        q = self.udiv(st, A, d, w)
        return A - q.scale(d)

    def canon_pow2(self, st, a, d, w):
        lo, hi = st.num.range(a)
        if lo >= 0 and hi <= mask(w): return a
        return self.canon(st, a, w)

    def extract(self, st, v, byteoff, size, total):
        if isinstance(v, (Bool, BoolOp)): v = K(int(self.truth(st, v)))
        if v is POISON: return v
        v = st.num.norm(v)
        if v.const: return K((v.c & mask(total * 8)) >> (8 * byteoff) & mask(8 * size))
        x = self.binop(st, 'lshr', v, K(8 * byteoff), 8 * total) if byteoff else v
        return x

    # ---------------------------------------------------------------- memory
    def access(self, st, p, size, write, what=None):
        if isinstance(p, (Bool, BoolOp)) or p is POISON: raise Undecided('odd pointer')
        r, off = self.resolve(st, p)
        if r is None:
            off = st.num.norm(off)
            if off.const and off.c & SIZE_MAX < 4096:
                self.violation('nullderef', 'NULL pointer %s' % ('written' if write else 'read'), st); raise Stop()
            tags = [a.tag for a, _ in off.t if a.tag]
            if any(t == 'user' for t in tags):
                self.violation('userderef', "caller's opaque value %s is dereferenced" % off, st); raise Stop()
            if any(t == 'uninit' for t in tags):
                self.violation('uninit', 'uninitialised pointer used', st); raise Stop()
            for a in st.num.support(off):
                pass
            raise Undecided('access through unknown pointer %r' % off)
        if r.kind == 'func': raise Undecided('access to function')
        if not r.alive:
            self.violation('uaf', 'use of released block %s' % r.name, st); raise Stop()
        size_l = size if isinstance(size, Lin) else K(size)
        if isinstance(size, Lin) and st.num.norm(size).const and st.num.norm(size).c == 0: return r, off
        ok, off = self.decide_bounds(st, r, off, size_l)
        if not ok:
            self.violation('oob', '%s outside %s (offset %r size %r of %r)' % ('write' if write else 'read', r.name, st.num.norm(off), size_l, st.num.norm(r.size)), st)
            raise Stop()
        if write and r.ro:
            self.violation('rowrite', 'write to %s, which must not be modified' % r.name, st); raise Stop()
        return r, off

    def decide_bounds(self, st, r, off, size):
        off = st.num.norm(off)
        # offsets are mathematical here; guard against wrapped negatives
        lo, hi = st.num.range(off)
        if hi >= 1 << 63 and not st.num.entails_ge(K((1 << 63) - 1) - off):
            o2 = self.canon(st, off, 64, True)
            off = o2
        return self.decide(st, 'ge', off) and self.decide(st, 'ge', r.size - off - size), off

    def load(self, st, p, size):
        r, off = self.access(st, p, size, False)
        return self.read(st, r, off, size)

    def read(self, st, r, off, size, upto=None):
        num = st.num
        off = num.norm(off)
        log = r.log
        for i in range(len(log) - 1, -1, -1):
            e = log[i]
            eo = e[1]
            d = num.norm(off - eo)
            es = e[2]          # Lin length
            if d.const and es.const:
                if d.c >= es.c or d.c + size <= 0: continue
                inside = d.c >= 0 and d.c + size <= es.c
            else:
                if num.entails_ge(d - es) or num.entails_ge((-d) - size): continue
                if self.decide(st, 'ge', d - es): continue
                if self.decide(st, 'ge', (-d) - size): continue
                if e[0] == 'w' and es.const and es.c == size:
                    if size == 1 or self.decide(st, 'eq', d): inside = True
                    else: raise Undecided('partial overlap')
                else:
                    inside = self.decide(st, 'ge', d) and self.decide(st, 'ge', es - d - size)
                d = num.norm(d)
            if not inside:
                # assemble from bytes when everything is constant
                if size > 1:
                    return self.read_bytes(st, r, off, size)
                raise Undecided('partially overlapping access in %s' % r.name)
            if e[0] == 'w':
                if d.const and d.c == 0 and es.const and es.c == size: return e[3]
                if d.const and es.const: return self.extract(st, e[3], d.c, size, es.c)
                if size == es.c: return e[3]
                raise Undecided('byte extraction')
            if e[0] == 'f':
                v = e[3]
                if size == 1: return v
                v = num.norm(v)
                if v.const: return K(int.from_bytes(bytes([v.c & 255]) * size, 'little'))
                raise Undecided('wide read of filled area')
            if e[0] == 'c':
                src, soff = e[3], e[4]
                rr = src
                return self.read(st, rr, soff + d, size)
            if e[0] == 'h':
                return uf_read(self, st, r, off, size, e[3], 0, mask(8 * size))
        if isinstance(r, Snap): return r.base.read(self, st, r.reg(st), off, size)
        return r.base.read(self, st, r, off, size)

    def read_bytes(self, st, r, off, size):
        v = ZERO
        for i in range(size):
            b = self.read(st, r, off + i, 1)
            v = v + self.canon(st, b, 8).scale(1 << (8 * i))
        return v

    def store(self, st, p, size, val):
        r, off = self.access(st, p, size, True)
        self.write(st, r, off, size, val)

    def write(self, st, r, off, size, val):
        off = st.num.norm(off)
        r = st.wr(r.id)
        self.on_write(st, r, off, K(size))
        if isinstance(val, Lin) and not isinstance(val, (Bool, BoolOp)): val = st.num.norm(val)
        ent = ('w', off, K(size), val)
        log = r.log
        if off.const:
            allc = True
            for i in range(len(log) - 1, -1, -1):
                e = log[i]
                if e[0] == 'w' and e[1] == off and e[2].c == size:
                    r.log = log[:i] + log[i + 1:] + (ent,); return
                if not (e[1].const and e[2].const and (e[1].c + e[2].c <= off.c or off.c + size <= e[1].c)): break
        else:
            if log and log[-1][0] == 'w' and log[-1][1] == off and log[-1][2] == K(size):
                r.log = log[:-1] + (ent,); return
        r.log = log + (ent,)

    def on_write(self, st, r, off, n):
        h = self.hooks.get('write')
        if h: h(self, st, r, off, n)

    def fill(self, st, p, val, n):
        n = self.canon(st, n, 64)
        r, off = self.access(st, p, n, True)
        if st.num.norm(n).const and st.num.norm(n).c == 0: return
        rr = st.wr(r.id); self.on_write(st, rr, off, n)
        full = st.num.entails_eq(off) and st.num.entails_eq(r.size - n)
        ent = ('f', off, n, val)
        rr.log = (ent,) if full else rr.log + (ent,)

    def copymem(self, st, d, s, n):
        n = self.canon(st, n, 64)
        if self.decide(st, 'eq', n): return
        sr, so = self.access(st, s, n, False)
        dr, do = self.access(st, d, n, True)
        n = st.num.norm(n)
        rr = st.wr(dr.id); self.on_write(st, rr, do, n)
        if n.const and n.c <= 16 and not isinstance(sr.base, (Uninit,)) and n.c in (1, 2, 4, 8) and self.whole(st, sr, so, n.c):
            v = self.read(st, sr, so, n.c)
            self.write(st, rr, do, n.c, v)
            return
        snap = Snap(sr)
        rr = st.wr(dr.id)
        rr.log = rr.log + (('c', do, n, snap, so),)

    def whole(self, st, r, off, size):
        return isinstance(r.base, (CStr, Unknown)) and size == 1

    # ---------------------------------------------------------------- heap
    def heap_alloc(self, st, size, name=None, zero=False):
        size = self.canon(st, size, 64)
        i = self.cur
        nm = name or 'heap@%s:%d' % ((i.fn.name, i.line) if i is not None else ('?', 0))
        # attribute to the outermost allocating library function for readability
        for f in reversed(st.frames):
            if f.fn.file.endswith('fsalloc.c'): continue
            ins = f.block.insts[min(f.idx, len(f.block.insts) - 1)]
            nm = 'block allocated in %s' % f.fn.name
            break
        r = self.new_region(st, nm, size, 'heap', Zero() if zero else Uninit())
        st.event('alloc', r.id, size)
        return self.ptr(r)

    def heap_free(self, st, p):
        p = st.num.norm(p)
        if p.const and p.c == 0: return
        r, off = self.resolve(st, p)
        if r is None:
            if any(a.tag == 'user' for a, _ in p.t):
                self.violation('userfree', "caller's value is released", st); raise Stop()
            if self.decide(st, 'eq', p): return
            raise Undecided('free of unknown pointer')
        if r.kind != 'heap' or not st.num.entails_eq(off):
            self.violation('badfree', 'release of %s, not the start of a heap block' % r.name, st); raise Stop()
        if not r.alive:
            self.violation('doublefree', 'second release of %s' % r.name, st); raise Stop()
        h = self.hooks.get('free')
        if h: h(self, st, r)
        rr = st.wr(r.id); rr.alive = False
        st.event('free', r.id)

    # ---------------------------------------------------------------- values
    def constval(self, st, c):
        k = c.__class__
        if k is llvmir.CInt: return K(c.v)
        if k is llvmir.CNull: return ZERO
        if k is llvmir.CUndef: return POISON
        if k is llvmir.CGlobal: return self.global_ptr(st, c.name)
        if k is llvmir.CExpr:
            if c.op == 'gep':
                if c.gep[1]: raise Undecided('constant gep')
                return self.constval(st, c.ops[0]) + c.gep[0]
            if c.op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'): return self.constval(st, c.ops[0])
            if c.op in ('sub', 'add'):
                return self.binop(st, c.op, self.constval(st, c.ops[0]), self.constval(st, c.ops[1]), 64)
        if isinstance(c, tuple) and c[0] == 'zero': return ZERO
        raise Undecided('constant %r' % (c,))

    def val(self, st, f, o):
        k = o.__class__
        if k is llvmir.Inst:
            return f.regs[o.id]
        if k is llvmir.Arg: return f.args[o.idx]
        return self.constval(st, o)

    # ---------------------------------------------------------------- execution
    def call(self, st, fname, args, limit=None):
        """Analyse a call from st to completion. Returns list of (state, retval)."""
        fn = self.mod.functions.get(fname)
        if fn is None or fn.decl: raise AnchorMissing(fname)
        s = st.copy()
        base = len(s.frames)
        self.push_frame(s, fn, args, None)
        out = []
        work = [s]
        n = 0
        tables = {}
        old = getattr(self, 'tables', None)
        self.tables = tables
        try:
            while work:
                s = work.pop()
                n += 1
                if n > self.maxstates:
                    self.undecide('state budget exhausted in %s' % fname); break
                if late():
                    self.undecide('time budget exhausted in %s' % fname); break
                try:
                    self.run(s, base, work, out)
                except Infeasible:
                    pass
                except Stop:
                    self.stats['paths'] += 1
                except Undecided as u:
                    self.stats['paths'] += 1
                    if not s.num.infeasible(): self.undecide(str(u), s)
                except (RecursionError, KeyError, IndexError, AttributeError, TypeError, ValueError, UnboundLocalError, NotImplementedError, AssertionError) as x:
                    if DEBUG: raise
                    self.undecide('construct outside the analysis (%s)' % type(x).__name__, s)
        finally:
            self.tables = old
        return out

    def push_frame(self, st, fn, args, ret, varargs=()):
        self.mod.load(fn)
        self.stats['functions'].add(fn.name)
        f = Frame(); f.fn = fn; f.block = fn.blocks[0]; f.idx = 0; f.regs = {}; f.args = list(args)
        f.ret = ret; f.allocas = []; f.loops = {}; f.prev = None; f.varargs = varargs; f.stuck = None
        st.frames.append(f)
        if len(st.frames) > 60: raise Undecided('call depth')

    def run(self, st, base, work, out):
        while True:
            f = st.frames[-1]
            inst = f.block.insts[f.idx]
            self.cur = inst
            st.steps += 1
            self.stats['insts'] += 1
            if st.steps > self.maxsteps: raise Undecided('step budget')
            op = inst.op
            try:
                if op == 'br' or op == 'switch':
                    nb = self.branch(st, f, inst)
                    if not self.goto(st, f, nb, work): return
                    continue
                if op == 'ret':
                    v = self.val(st, f, inst.ops[0]) if inst.ops else None
                    if isinstance(v, (Bool, BoolOp)): v = K(int(self.truth(st, v)))
                    for rid in f.allocas:
                        st.wr(rid).alive = False
                    st.frames.pop()
                    if len(st.frames) == base:
                        st.retval = v
                        out.append((st, v)); self.stats['paths'] += 1
                        return
                    g = st.frames[-1]
                    ci = g.block.insts[g.idx]
                    if v is not None: g.regs[ci.id] = v
                    g.idx += 1
                    h = self.hooks.get('ret')
                    if h: h(self, st, f, v)
                    continue
                if op == 'call':
                    if self.do_call(st, f, inst): continue
                    f.idx += 1
                    continue
                f.regs[inst.id] = self.step(st, f, inst)
                f.idx += 1
            except Split as sp:
                self.stats['splits'] += 1
                for alt in reversed(sp.alts):
                    s2 = st.copy()
                    try:
                        alt(s2)
                    except Infeasible:
                        continue
                    s2.note('%s:%d' % (inst.fn.name, inst.line))
                    work.append(s2)
                return

    def branch(self, st, f, inst):
        if inst.op == 'br':
            if len(inst.extra) == 1: return inst.extra[0]
            return inst.extra[0] if self.truth(st, self.val(st, f, inst.ops[0])) else inst.extra[1]
        v = self.val(st, f, inst.ops[0])
        w = inst.ops[0].type.bits if hasattr(inst.ops[0], 'type') else 64
        if isinstance(v, (Bool, BoolOp)): v = K(int(self.truth(st, v)))
        default, cases = inst.extra
        v = st.num.norm(v)
        if v.const:
            x = v.c & mask(w)
            for c, b in cases:
                if c == x: return b
            return default
        if len(cases) > 64: return self.bigswitch(st, v, w, default, cases)
        for c, b in cases:
            if self.icmp(st, 'eq', v, K(c), w): return b
        return default

    def bigswitch(self, st, v, w, default, cases):
        lo, hi = st.num.range(v)
        cm = getattr(cases, '_m', None)
        d = {c: b for c, b in cases}
        if len(v.t) == 1 and v.t[0][1] == 1 and v.t[0][0].kind == 'sym':
            a = v.t[0][0]
            groups = {}
            dm = st.num.adom(a)
            keys = []
            for c, b in cases:
                x = (sgn(c, w) if sgn(c, w) < 0 and dm[0][0] < 0 else c) - v.c
                if vs_inter(dm, ((x, x),)): groups.setdefault(b.idx, []).append(x); keys.append(x)
            rest = vs_minus(dm, vs_from(keys))
            alts = [vs_from(k) for k in groups.values()]
            if rest: alts.append(rest)
            if len(alts) == 1:
                if rest and not groups: return default
                return next(b for c, b in cases if b.idx in groups)
            raise Split([(lambda s, x=x: setdom(s, a, x)) for x in alts], 'switch')
        for c, b in cases:
            if self.icmp(st, 'eq', v, K(c), w): return b
        return default

    def goto(self, st, f, nb, work):
        """transfer control; returns False if the path ends here (subsumed at a loop header)"""
        pb = f.block
        vals = []
        hdr = nb.idx in llvmir.loops(f.fn)
        for ph in nb.phis:
            v = self.val(st, f, ph.extra[pb.idx])
            if hdr and isinstance(v, (Bool, BoolOp)): v = K(int(self.truth(st, v)))
            vals.append((ph.id, v))
        for i, v in vals: f.regs[i] = v
        f.prev = pb.idx; f.block = nb; f.idx = len(nb.phis)
        lp = llvmir.loops(f.fn)
        # leaving loops forgets their counters
        if f.loops:
            for h in list(f.loops):
                if nb.idx not in lp[h]: del f.loops[h]
        body = lp.get(nb.idx)
        if body is not None:
            back = pb.idx in body and nb.idx in f.loops
            if not back:
                self.regctr[0] += 1
                f.loops[nb.idx] = (1, self.regctr[0])
                import dom
                self.wm_atoms[self.regctr[0]] = dom._ids[0] + 1
            else:
                n, inst = f.loops[nb.idx]
                f.loops[nb.idx] = (n + 1, inst)
                self.stuck(st, f, nb, inst)
            return self.at_header(st, f, nb, work)
        return True

    def stuck(self, st, f, nb, inst):
        """back at a loop header: if neither the loop's variables nor memory nor anything the callbacks have seen differ
        from the last time, the loop never ends (the values are equal in every concretisation)"""
        if KINDS[0] is not None and 'hang' not in KINDS[0]: return
        key = (inst, nb.idx)
        phis = tuple(st.num.norm(f.regs[ph.id]) if isinstance(f.regs[ph.id], Lin) else f.regs[ph.id] for ph in nb.phis)
        last = f.stuck
        if last is not None and last[0] == key and last[1] == phis and last[3] == st.calls:
            mem = last[2]; n = 0
            for r in st.regions.values():
                if not r.alive: continue
                n += 1
                if mem.get(r.id) is not r.log: break
            else:
                if n == len(mem):
                    self.violation('hang', 'the loop never ends: it repeats with nothing changed', st); raise Stop()
        f.stuck = (key, phis, {r.id: r.log for r in st.regions.values() if r.alive}, st.calls)

    def at_header(self, st, f, nb, work):
        n, inst = f.loops[nb.idx]
        if self.joiner is not None:
            return self.joiner.arrive(self, st, f, nb, n, inst)
        if n > self.maxarr: raise Undecided('loop bound in %s' % f.fn.name)
        return True

    def step(self, st, f, inst):
        op = inst.op
        ops = inst.ops
        if op == 'load':
            return self.load(st, self.val(st, f, ops[0]), inst.type.size)
        if op == 'store':
            v = self.val(st, f, ops[0])
            t = ops[0].type.size if hasattr(ops[0], 'type') else (ops[0].bits + 7) // 8 if ops[0].__class__ is llvmir.CInt else 8
            if isinstance(v, (Bool, BoolOp)): v = K(int(self.truth(st, v)))
            if v is POISON: return None
            self.store(st, self.val(st, f, ops[1]), t, v)
            return None
        if op == 'gep':
            p = self.val(st, f, ops[0])
            if p is POISON: raise Undecided('poison pointer')
            off, var = inst.extra
            e = p + off
            for i, scale in var:
                o = ops[i]
                v = self.val(st, f, o)
                if isinstance(v, (Bool, BoolOp)): v = K(int(self.truth(st, v)))
                if v is POISON: raise Undecided('poison index')
                w = o.type.bits if hasattr(o, 'type') else 64
                if w < 64: v = self.canon(st, v, w, True)
                e = e + v.scale(scale)
            return e
        if op == 'icmp':
            a = self.val(st, f, ops[0]); b = self.val(st, f, ops[1])
            w = 64
            for o in ops:
                if hasattr(o, 'type'): w = o.type.bits
                elif o.__class__ is llvmir.CInt: w = o.bits
            return Bool(inst.extra, a, b, w)
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            if inst.extra and 'overflow' in (KINDS[0] or ()): self.overflow(st, op, self.val(st, f, ops[0]), self.val(st, f, ops[1]), inst.type.bits)
            return self.binop(st, op, self.val(st, f, ops[0]), self.val(st, f, ops[1]), inst.type.bits)
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'addrspacecast'):
            v = self.val(st, f, ops[0])
            if op == 'inttoptr' and hasattr(ops[0], 'type') and ops[0].type.bits < 64: return self.canon(st, v, ops[0].type.bits)
            return v
        if op == 'trunc':
            v = self.val(st, f, ops[0])
            if isinstance(v, (Bool, BoolOp)): return v
            if v is POISON: return v
            if inst.type.bits == 1: return self.binop(st, 'and', v, ONE, ops[0].type.bits)
            return self.red(v, inst.type.bits)
        if op in ('zext', 'sext'):
            v = self.val(st, f, ops[0])
            if v is POISON: return v
            if isinstance(v, (Bool, BoolOp)):
                t = self.truth(st, v)
                return K((1 if op == 'zext' else -1) if t else 0)
            w = ops[0].type.bits if hasattr(ops[0], 'type') else ops[0].bits
            if op == 'zext' and w <= 32:
                e = st.num.norm(v)
                if e.t:
                    lo, hi = st.num.range(e)
                    if hi - lo >= (1 << w) and self.masked(inst, w): return e      # only its low bits are used
            return self.canon(st, v, w, op == 'sext')
        if op == 'select':
            c = self.truth(st, self.val(st, f, ops[0]))
            return self.val(st, f, ops[1] if c else ops[2])
        if op == 'alloca':
            sz = K(inst.extra.size)
            if inst.ops:
                n = self.val(st, f, inst.ops[0])
                if isinstance(n, Lin):
                    n = self.canon(st, n, inst.ops[0].type.bits if hasattr(inst.ops[0], 'type') else 64)
                    sz = n.scale(inst.extra.size)
            r = self.new_region(st, 'local of %s' % f.fn.name, sz, 'stack')
            f.allocas = f.allocas + [r.id]
            return self.ptr(r)
        if op == 'unreachable': raise Stop()
        if op == 'extractvalue':
            v = self.val(st, f, ops[0])
            if isinstance(v, Agg): return v.vals[inst.extra[0]]
        if op == 'phi': raise Undecided('phi')
        raise Undecided('instruction ' + op)

    def masked(self, inst, w):
        """is every use of the extension `inst` an `and` with a mask of fewer than w bits?"""
        fn = inst.fn
        m = self.maskuses.get(id(fn))
        if m is None:
            m = self.maskuses[id(fn)] = {}
            for b in fn.blocks:
                for i in list(b.insts) + list(b.phis or ()):
                    for o in (i.extra.values() if i.op == 'phi' else i.ops):
                        if getattr(o, 'k', None) != 'inst': continue
                        lim = None
                        if i.op == 'and':
                            for c in i.ops:
                                if c.__class__ is llvmir.CInt: lim = c.v & ((1 << c.bits) - 1)
                        m.setdefault(id(o), []).append(lim)
        u = m.get(id(inst))
        return bool(u) and all(x is not None and x < (1 << w) for x in u)

    def do_call(self, st, f, inst):
        """returns True if control was transferred"""
        c = inst.extra
        if isinstance(c, llvmir.CGlobal) and (c.name.startswith('llvm.dbg') or c.name.startswith('llvm.lifetime')): return False
        args = []
        for o in inst.ops:
            args.append(self.val(st, f, o) if o is not None else None)
        if isinstance(c, llvmir.CGlobal): name = c.name
        else:
            p = self.val(st, f, c)
            if p is POISON: raise Undecided('call of poison')
            r, off = self.resolve(st, p)
            if r is not None and r.kind == 'func':
                name = r.meta
            else:
                p = st.num.norm(p)
                if p.const and p.c == 0:
                    self.violation('nullderef', 'call through NULL function pointer', st); raise Stop()
                tag = p.t[0][0].tag if len(p.t) == 1 else None
                cb = self.callbacks.get(tag)
                if cb is None: raise Undecided('call through unknown function pointer %r' % p)
                st.calls += 1
                v = cb(self, st, args, inst)
                if isinstance(v, Tail):
                    self.push_frame(st, self.mod.functions[v.name], v.args, inst)
                    return True
                if v is not None: f.regs[inst.id] = v
                return False
        h = self.hooks.get('call')
        if h:
            h(self, st, name, args, inst)
        fn = self.mod.functions.get(name)
        if name in self.libc and (fn is None or fn.decl or name in self.hooks.get('force_model', ())):
            # unresolved varargs / models
            v = self.libc[name](self, st, args, inst)
            if v is not USEBODY:
                if v is not None: f.regs[inst.id] = v
                return False
        if fn is not None and not fn.decl:
            for i, a in enumerate(args):
                if isinstance(a, (Bool, BoolOp)): args[i] = K(int(self.truth(st, a)))
            self.push_frame(st, fn, args[:len(fn.args)], inst, varargs=tuple(args[len(fn.args):]))
            return True
        for pre, m in LIBC_PREFIX:
            if name.startswith(pre):
                v = m(self, st, args, inst)
                if v is not None: f.regs[inst.id] = v
                return False
        raise Undecided('call to unmodelled function ' + name)


class Tail:
    def __init__(self, name, args): self.name = name; self.args = args


class AnchorMissing(Exception): pass


class Snap:
    """immutable view of a region at copy time"""
    __slots__ = ('name', 'log', 'base', 'id', 'size', '_memo')
    def __init__(self, r): self.name = r.name; self.log = r.log; self.base = r.base; self.id = r.id; self.size = r.size
    def reg(self, st): return st.regions[self.id]


def setdom(s, a, v):
    v = vs_inter(s.num.adom(a), v)
    if not v: raise Infeasible()
    s.num.dom[a] = v; s.num.touch()
    s.num._ne_tighten()


# ------------------------------------------------------------------ libc models
def m_memcpy(E, st, a, i):
    E.copymem(st, a[0], a[1], a[2])
    return a[0]


def m_memset(E, st, a, i):
    v = E.canon(st, a[1], 8)
    E.fill(st, a[0], v, a[2])
    return a[0]


def m_realloc(E, st, a, i):
    p, n = a
    n = E.canon(st, n, 64)
    p = st.num.norm(p)
    isnull = p.const and p.c == 0
    if not isnull and E.resolve(st, p)[0] is None:
        isnull = E.decide(st, 'eq', p)
    if isnull:
        if E.oom and E.oomchoice(st): return ZERO
        return E.heap_alloc(st, n)
    if E.decide(st, 'eq', n):
        E.heap_free(st, p)
        return ZERO
    if E.oom and E.oomchoice(st): return ZERO
    r, off = E.resolve(st, p)
    if not r.alive:
        E.violation('uaf', 'resize of released block', st); raise Stop()
    if r.kind != 'heap' or not st.num.entails_eq(off):
        E.violation('badfree', 'resize of %s, not the start of a heap block' % r.name, st); raise Stop()
    old = r
    q = E.heap_alloc(st, n)
    nr, _ = E.resolve(st, q)
    m = old.size
    # copy min(old, new)
    if not E.decide_pure(st, n - m):
        m = n
    nr = st.wr(nr.id)
    if not (m.const and m.c == 0):
        nr.log = (('c', ZERO, m, Snap(old), ZERO),)
    E.hooks.get('realloc', lambda *x: None)(E, st, old, nr)
    rr = st.wr(old.id); rr.alive = False
    st.event('free', old.id)
    return q


def _decide_pure(self, st, e):
    return self.decide(st, 'ge', e)


Engine.decide_pure = _decide_pure


def m_malloc(E, st, a, i): return E.heap_alloc(st, a[0])
def m_calloc(E, st, a, i): return E.heap_alloc(st, E.binop(st, 'mul', a[0], a[1], 64), zero=True)
def m_free(E, st, a, i): E.heap_free(st, a[0])
def m_abort(E, st, a, i):
    st.event('abort')
    h = E.hooks.get('abort')
    if h: h(E, st, i)
    raise Stop()


def m_assert(E, st, a, i):
    E.violation('assert', 'assertion can fail', st)
    raise Stop()


def m_errno(E, st, a, i):
    rid = st.ghost.get('errno')
    if rid is None:
        r = E.new_region(st, 'errno', 4, 'global', Unknown('errno0'))
        st.ghost['errno'] = r.id; rid = r.id
    return L(st.regions[rid].atom)


def m_strlen(E, st, a, i):
    r, off = E.resolve(st, a[0])
    if r is None: E.access(st, a[0], 1, False)
    if isinstance(r.base, CStr) and not r.log:
        E.access(st, a[0], 1, False)
        return r.base.n - off
    return USEBODY


USEBODY = object()


def Tail_(name, a): raise Undecided('model of ' + name)


def m_cttz(E, st, a, i):
    x = st.num.norm(a[0])
    w = i.type.bits
    if x.const: return K(eval_op('cttz', [x.c], w))
    if E.isbits(st, x):
        if E.zero_test(st, x, w): return K(w)
        return st.ghost['bitfirst'][x]
    h = E.hooks.get('cttz')
    if h: return h(E, st, x, w)
    return L(op_atom('cttz', [x], w, 0, w))


def m_umulo(E, st, a, i):
    raise Undecided('mul overflow intrinsic')


def m_snprintf(E, st, a, i):
    """snprintf for constant formats made of %%, %c, %s (constant), %d, %u, %x, %X with an optional 0-padded width"""
    dest, size, fmt = a[0], E.canon(st, a[1], 64), a[2]
    va = list(a[3:])
    def cstr(p):
        r, off = E.resolve(st, p)
        if r is None: raise Undecided('format string')
        out = []
        while len(out) < 256:
            b = st.num.norm(E.canon(st, E.load(st, p + len(out), 1), 8))
            if not b.const: raise Undecided('symbolic string in a format')
            if b.c == 0: return out
            out.append(b.c)
        raise Undecided('format string')
    f = cstr(fmt); out = []; k = 0
    def digits(v, base, upper):
        ds = []
        for _ in range(20):
            d = E.canon(st, E.binop(st, 'urem', v, K(base), 64), 64); v = E.canon(st, E.binop(st, 'udiv', v, K(base), 64), 64)
            ds.insert(0, d + 48 if E.decide(st, 'ge', K(9) - d) else d + (55 if upper else 87))
            if E.decide(st, 'eq', v): return ds
        raise Undecided('snprintf digits')
    while k < len(f):
        c = f[k]; k += 1
        if c != 37: out.append(K(c)); continue
        pad, width, long = 32, 0, 0
        if k < len(f) and f[k] == 48: pad = 48; k += 1
        while k < len(f) and 48 <= f[k] <= 57: width = 10 * width + f[k] - 48; k += 1
        while k < len(f) and chr(f[k]) in 'lzjh':
            if chr(f[k]) == 'h': raise Undecided('snprintf conversion')
            long = 1; k += 1
        if k >= len(f): raise Undecided('snprintf conversion')
        c = chr(f[k]); k += 1
        if c == '%': out.append(K(37)); continue
        if not va: raise Undecided('snprintf arguments')
        v = va.pop(0)
        if c == 'c': item = [E.canon(st, v, 8)]
        elif c == 's': item = [K(x) for x in cstr(v)]
        elif c in 'uxX': item = digits(E.canon(st, v, 64 if long else 32), 10 if c == 'u' else 16, c == 'X')
        elif c in 'di':
            v = E.canon(st, v, 64 if long else 32, True)
            neg = not E.decide(st, 'ge', v)
            item = digits(ZERO - v if neg else v, 10, False)
            if neg: item.insert(0, K(45))
            if neg and pad == 48 and len(item) < width: raise Undecided('snprintf conversion')
        else: raise Undecided('snprintf conversion')
        out += [K(pad)] * (width - len(item)) + item
    room = len(out) + 1
    for n in range(len(out) + 1):
        if E.decide(st, 'eq', size - n): room = n; break
    for j in range(min(room - 1, len(out))): E.store(st, dest + j, 1, out[j])
    if room: E.store(st, dest + min(room - 1, len(out)), 1, ZERO)
    return K(len(out))


LIBC = {'snprintf': m_snprintf, 'malloc': m_malloc, 'calloc': m_calloc, 'realloc': m_realloc, 'free': m_free, 'abort': m_abort,
        '__assert_fail': m_assert, '__errno_location': m_errno, 'memcpy': m_memcpy, 'memmove': m_memcpy,
        'memset': m_memset}
LIBC_PREFIX = [('llvm.memcpy', m_memcpy), ('llvm.memmove', m_memcpy), ('llvm.memset', m_memset), ('llvm.cttz', m_cttz),
               ('llvm.assume', lambda E, st, a, i: None), ('llvm.stacksave', lambda E, st, a, i: ZERO),
               ('llvm.stackrestore', lambda E, st, a, i: None)]
