"""Harness layer: sets up abstract initial states, runs the analysis of public functions, discharges obligations."""
import sys, time, os, json
sys.setrecursionlimit(10000)
import llvmir, build
from dom import *
import engine
from engine import *
import join

LIBC = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'support', 'libc_model.c')
MEMERR = {'nullderef', 'userderef', 'uninit', 'uaf', 'oob', 'rowrite', 'badfree', 'doublefree', 'userfree', 'assert'}


class Fail(Exception): pass


class H:
    def __init__(self, names, extra=(), unroll=3, defs=(), mod=None):
        self.mod = mod or build.module(names, extra, defs=defs)
        self.E = Engine(self.mod, unroll=unroll)
        self.E.H = self
        self.E.joiner = join.Joiner()
        self.obl = {}            # name -> [discharged, failed]
        self.where = ''
        self.samples = []

    def state(self): return State()

    def fn(self, name):
        f = self.mod.functions.get(name)
        if f is None or f.decl: raise AnchorMissing(name)
        return f

    # run a public function from st; [(state, ret)]
    def call(self, st, name, *args):
        self.where = name
        self.E.stats.setdefault('roots', set()).add(name)
        st.note('call ' + name)
        f = self.fn(name)
        if len(f.args) != len(args): raise AnchorMissing('%s: parameter count' % name)
        args = [a if isinstance(a, Lin) else K(a) for a in args]
        out = self.E.call(st, name, args)
        if self.ownership and 'leak' in (engine.KINDS[0] or ()): self.owned(st, name, args, out)
        return out

    ownership = True
    onlymine = True              # leave out the obligations of other properties (unless the analysis is steered by them)
    def reach(self, s, roots, through=lambda r: True):
        """regions some pointer to which is stored in (or is) one of the roots, transitively; conservative"""
        seen = set(); work = []; logs = set()
        def atoms(v, deep=0):
            for a, _ in getattr(v, 't', ()):
                if a.kind == 'base':
                    if a.rid not in seen: seen.add(a.rid); work.append(a.rid)
                elif a.kind == 'op' and deep < 12:
                    for x in a.args or ():
                        if isinstance(x, Lin): atoms(x, deep + 1)
        def log(l):
            for e in l:
                if e[0] == 'c':
                    if id(e[3]) not in logs: logs.add(id(e[3])); log(e[3].log)
                elif isinstance(e[3], Lin): atoms(s.num.norm(e[3])); atoms(e[3])
        for r in roots:
            if isinstance(r, Lin): atoms(s.num.norm(r)); atoms(r)
            elif r.id not in seen: seen.add(r.id); work.append(r.id)
        while work:
            r = s.regions.get(work.pop())
            if r is not None and through(r): log(r.log)
        return seen

    def owned(self, st, name, args, out):
        """after the call every block the arguments led to, and every new one, is released or still reachable from the
        result, the arguments (unless the function destroys its argument) or somebody else's memory"""
        lib = lambda r: r.kind == 'heap' and r.name.startswith('block allocated')
        before = self.reach(st, args)
        if name == 'destroy_byte_array': return        # counted references: decided by the harness
        gone = 'destroy' in name
        for s, ret in out:
            def ok(q, s=s, ret=ret):
                mine = {r.id for r in q.regions.values() if lib(r) and r.alive and (r.id in before or r.id not in st.regions)}
                if isinstance(ret, Lin):
                    try: R, off = self.E.resolve(q, ret)
                    except Undecided: R = None
                    if R is not None and lib(R) and not R.alive: return 'returns %s, which has been released' % R.name
                if name.endswith('_element') and gone:        # an element taken out may still name its old container
                    mine &= {x for a in args for x in self.reach(q, [a], lambda r: False)}
                if not mine: return True
                roots = [r for r in q.regions.values() if r.alive and r.id not in mine and not (gone and r.id in before and not lib(r))]
                if isinstance(ret, Lin): roots.append(ret)
                if not gone: roots += args
                kept = self.reach(q, roots, lambda r: r.alive)
                lost = [q.regions[x] for x in sorted(mine - kept)]
                return not lost or '%s: %s' % (name, ', '.join('%s neither released nor reachable' % r.name for r in lost[:3]))
            if s.lossy: continue
            self.oblige(s, 'blocks are released or still reachable', ok, kind='leak', fn=name)

    def each(self, st, f):
        """run f(s) on st, partitioning on undecided conditions; returns [(s, result)]"""
        out = []; work = [st.copy()]
        n = 0
        while work:
            s = work.pop(); n += 1
            if engine.late(): self.E.undecide('time budget in ' + self.where); break
            if n > 20000: self.E.undecide('obligation budget in ' + self.where); break
            try:
                out.append((s, f(s)))
            except Split as sp:
                for alt in reversed(sp.alts):
                    t = s.copy()
                    try: alt(t)
                    except Infeasible: continue
                    work.append(t)
            except Infeasible: pass
            except Undecided as u:
                if not s.num.infeasible(): self.E.undecide('obligation: %s [%s]' % (u, self.where))
            except Stop: pass
            except (RecursionError, KeyError, IndexError, AttributeError, TypeError, ValueError) as x:
                if engine.DEBUG: raise
                self.E.undecide('obligation: construct outside the analysis (%s) [%s]' % (type(x).__name__, self.where))
        return out

    def oblige(self, st, name, f, kind='post', fn=None):
        """f(s) must hold (truthy) in every concretisation of st"""
        if self.onlymine and engine.KINDS[0] is not None and kind not in engine.KINDS[0]: return True        # decided under another property
        o = self.obl.setdefault(name, [0, 0])
        self.E.stats['obligations'] += 1
        self.E.cur = None
        ok = True
        for s, r in self.each(st, f):
            if r is True or r is None: continue
            if s.num.infeasible(): continue
            ok = False
            msg = name + (': ' + r if isinstance(r, str) else '')
            self.fail(s, kind, msg, fn)
        o[0 if ok else 1] += 1
        return ok

    def fail(self, st, kind, msg, fn=None):
        where = fn or self.where
        f = self.mod.functions.get(where)
        v = Violation(kind, msg, st, None, fn=where)
        if f is not None: v.file = f.file; v.line = f.line
        v.definite = not st.lossy
        if v.key() in self.E._seen: return
        w = st.num.witness(6000)
        if w is None: return
        if not st.lossy and w == 'unknown': v.lossy = ('no concrete witness found',)
        elif isinstance(w, dict): v.facts = ['for example ' + ', '.join('%r = %d' % (a, x) for a, x in list(w.items())[:24])] + v.facts
        if not v.lossy: self.E._seen.add(v.key())
        self.E.violations.append(v)
        engine.hurry(v)

    # convenience predicates usable inside obligations (may split)
    def eq(self, s, a, b):
        a = a if isinstance(a, Lin) else K(a); b = b if isinstance(b, Lin) else K(b)
        if s.num.entails_eq(a - b): return True
        if any(x.kind == 'base' for x, _ in s.num.norm(a - b).t): return False
        return self.E.decide(s, 'eq', a - b)

    def ge(self, s, a, b=0):
        a = a if isinstance(a, Lin) else K(a); b = b if isinstance(b, Lin) else K(b)
        return self.E.decide(s, 'ge', a - b)

    def u64(self, s, v): return self.E.canon(s, v, 64)
    def i32(self, s, v): return self.E.canon(s, v, 32, True)
    def boolv(self, s, v, w=32): return not self.eq(s, self.E.canon(s, v, w), 0)

    def rd(self, s, p, off, size):
        """read memory without access checks"""
        r, o = self.E.resolve(s, p)
        if r is None: raise Undecided('read through non-pointer')
        return self.E.read(s, r, o + off, size)
