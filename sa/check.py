#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property of /repo's current tree by static analysis."""
import sys, os, json, time, traceback, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import build, engine
from engine import AnchorMissing
from dom import Undecided

MEM = {'nullderef', 'userderef', 'uninit', 'uaf', 'oob', 'rowrite', 'badfree', 'doublefree', 'userfree', 'assert'}


class V: pass


class Result:
    def __init__(self, pid, kinds):
        self.pid = pid; self.kinds = kinds
        self.violations = []; self.soft = []; self.undecided = []; self.obl = {}; self.stats = {}; self.functions = set(); self.roots = set()
        self.extra = {}; self.samples = []

    def add(self, h, comp):
        E = h.E
        for v in E.violations:
            if v.kind not in self.kinds: continue
            (self.violations if not v.lossy else self.soft).append((comp, v))
        for u in E.undecided: self.undecided.append((comp,) + u)
        for k, (a, b) in h.obl.items():
            o = self.obl.setdefault('%s: %s' % (comp, k), [0, 0]); o[0] += a; o[1] += b
        for k, n in E.stats.items():
            if isinstance(n, int): self.stats[k] = self.stats.get(k, 0) + n
        self.functions |= E.stats['functions']; self.roots |= E.stats.get('roots', set())

    def viol(self, kind, msg, file, line, fn='', path=(), facts=()):
        """violation found by a non-interpreting analysis"""
        if kind not in self.kinds: return
        v = V(); v.kind = kind; v.msg = msg; v.file = file; v.line = line; v.fn = fn; v.path = list(path); v.facts = list(facts); v.stack = []; v.lossy = ()
        self.violations.append(('', v))

    def par(self, jobs, workers=8):
        """run independent parts of an analysis in forked processes; jobs: callables taking a Result"""
        import pickle
        todo = list(enumerate(jobs)); running = {}; done = {}
        def reap():
            pid, st = os.wait()
            if pid in running:
                i, path = running.pop(pid)
                try:
                    with open(path, 'rb') as f: done[i] = pickle.load(f)
                except Exception: done[i] = ('error', 'internal', 'worker died')
                try: os.unlink(path)
                except OSError: pass
        sys.stdout.flush()
        while todo or running:
            while todo and len(running) < workers:
                i, job = todo.pop(0)
                path = os.path.join(build.scratch(), 'part%d' % i)
                pid = os.fork()
                if pid == 0:
                    try:
                        r = Result(self.pid, self.kinds)
                        try:
                            job(r); out = ('ok', r.export())
                        except AnchorMissing as e: out = ('error', 'anchor', str(e))
                        except build.BuildError as e: out = ('error', 'build', str(e))
                        except BaseException: out = ('error', 'internal', traceback.format_exc())
                        with open(path, 'wb') as f: pickle.dump(out, f)
                    finally: os._exit(0)
                running[pid] = (i, path)
            reap()
            if todo or running:
                if any(d[0] == 'ok' and d[1]['violations'] for d in done.values()):
                    todo = []            # enough is known: stop the other parts
                    import signal
                    for p in list(running):
                        try: os.kill(p, signal.SIGKILL)
                        except OSError: pass
                        os.waitpid(p, 0)
                    running = {}
        for i in sorted(done):
            d = done[i]
            if d[0] == 'error':
                if d[1] == 'anchor': raise AnchorMissing(d[2])
                if d[1] == 'build': raise build.BuildError(d[2])
                raise RuntimeError(d[2])
            self.merge(d[1])

    def export(self):
        def plain(v):
            return dict(kind=v.kind, msg=v.msg, file=v.file, line=v.line, fn=v.fn, path=[str(x) for x in v.path], facts=[str(x) for x in v.facts], stack=list(v.stack), lossy=tuple(map(str, v.lossy)))
        return dict(violations=[(c, plain(v)) for c, v in self.violations], soft=[(c, plain(v)) for c, v in self.soft], undecided=self.undecided, obl=self.obl,
                    stats=self.stats, functions=self.functions, roots=self.roots, extra=self.extra)

    def merge(self, d):
        def obj(x):
            v = V(); v.__dict__.update(x); return v
        self.violations += [(c, obj(v)) for c, v in d['violations']]; self.soft += [(c, obj(v)) for c, v in d['soft']]
        for u in d['undecided']:
            if u not in self.undecided: self.undecided.append(u)
        for k, (a, b) in d['obl'].items():
            o = self.obl.setdefault(k, [0, 0]); o[0] += a; o[1] += b
        for k, n in d['stats'].items(): self.stats[k] = self.stats.get(k, 0) + n
        self.functions |= d['functions']; self.roots |= d['roots']; self.extra.update(d['extra'])

    def ok(self, name, n=1):
        o = self.obl.setdefault(name, [0, 0]); o[0] += n


ALLK = MEM | {'post'}
# property -> (components, violation kinds that break it, level, rule)
from props import PROPS


def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else 'quick'
    t0 = time.time()
    P = PROPS[pid]
    res = Result(pid, set(P['kinds']))
    engine.KINDS[0] = res.kinds
    try: os.unlink(os.path.join(HERE, 'evidence', pid + '.violation.txt'))
    except OSError: pass
    engine.DEADLINE[0] = t0 + (420 if tier == 'quick' else 3000)
    try:
        for c in P['comps']:
            m = importlib.import_module('comps.' + c)
            m.run(res, tier)
            if res.violations: break
    except AnchorMissing as e:
        print('ERROR property=%s anchor missing: %s' % (pid, e)); return 2
    except build.BuildError as e:
        print('ERROR property=%s cannot build the current tree: %s' % (pid, e)); return 2
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    wall = time.time() - t0
    tot = sum(a + b for a, b in res.obl.values()); ok = sum(a for a, b in res.obl.values())
    vio = []
    seen = set()
    for comp, v in res.violations:
        k = (v.kind, v.fn, v.msg)
        if k in seen: continue
        seen.add(k); vio.append((comp, v))
    cov = {'explanation': P['rule'], 'obligations': tot, 'discharged': ok,
           'obligations_by_name': {k: {'discharged': a, 'failed': b} for k, (a, b) in sorted(res.obl.items())},
           'functions_analysed': sorted(res.functions), 'entry_points': sorted(res.roots),
           'undecided': ['%s: %s (%s:%d)' % u for u in res.undecided][:60], 'undecided_count': len(res.undecided),
           'alarms_only_in_widened_states': ['%s %s:%d %s' % (v.kind, v.fn, v.line, v.msg) for _, v in res.soft][:40],
           'analysis': res.stats}
    cov.update(res.extra)
    if P.get('level') == 'proof':
        cov['checker_cmd'] = 'python3 sa/check.py %s %s' % (pid, tier)
        cov['trusted_base'] = ['clang 18 front end and mem2reg', 'LLVM-C reader (sa/llvmir.py)', 'abstract interpreter (sa/engine.py, sa/dom.py, sa/join.py)', 'harness specification (sa/comps)']
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': P.get('level', 'other'), 'coverage': cov,
          'assumptions': P.get('assume', []), 'wall_s': round(wall, 3), 'violations': len(vio)}
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d discharged, %d functions analysed, %d undecided, %.1f s' % (pid, tot, ok, len(res.functions), len(res.undecided), wall))
    if not tot:
        print('ERROR property=%s nothing was analysed' % pid); return 2
    if vio:
        rp = os.path.join(HERE, 'evidence', pid + '.violation.txt')
        with open(rp, 'w') as f:
            for comp, v in vio:
                f.write('%s in %s (%s:%d): %s\n' % (v.kind, v.fn, os.path.basename(v.file), v.line, v.msg))
                if v.stack: f.write('  call stack: %s\n' % ' > '.join(v.stack))
                if v.path: f.write('  abstract path: %s\n' % ' -> '.join(map(str, v.path)))
                for x in v.facts: f.write('    under %s\n' % x)
        for comp, v in vio[:8]:
            print('  %s in %s (%s:%d): %s' % (v.kind, v.fn, os.path.basename(v.file), v.line, v.msg))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


if __name__ == '__main__':
    try: rc = main()
    except Exception:
        traceback.print_exc(); print('ERROR internal'); rc = 2
    sys.exit(rc)
