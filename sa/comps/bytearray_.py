"""Byte arrays: contents, size and bounds after histories of operations with symbolic sizes, positions and data."""
from harness import *

PUBLIC = ['make_byte_array', 'share_byte_array', 'destroy_byte_array', 'byte_array_copy', 'byte_array_copy_string', 'byte_array_append',
          'byte_array_append_string', 'byte_array_append_stream', 'byte_array_clear', 'byte_array_resize', 'byte_array_data', 'byte_array_size']
ENOSPC = 28


def no_huge(E):
    """no block of 2^63 bytes or more can be had: the allocator aborts"""
    base = E.libc['realloc']
    def m(E, st, a, i):
        n = E.canon(st, a[1], 64)
        if E.decide(st, 'ge', n - (1 << 63)):
            if getattr(E, 'modest', False): E.violation('post', 'asks for a block of 2^63 bytes or more for contents below 2^40 bytes', st)
            raise Stop()
        return base(E, st, a, i)
    E.libc['realloc'] = m


class Model:
    """expected contents: size and byte at an index"""
    def __init__(self, size, at): self.size = size; self.at = at


class BA:
    def __init__(self, tier):
        self.h = h = H(['bytearray', 'fsalloc'], extra=[os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'support', 'libc_model.c')], unroll=90)
        E = self.E = h.E
        no_huge(E)
        E.libc['strlen'] = engine.m_strlen; E.hooks['force_model'] = ('strlen',)
        for f in PUBLIC: h.fn(f)
        E.callbacks['stream'] = self.stream
        self.thorough = tier == 'thorough'
        self.m = sym('max_size', 1, SIZE_MAX)

    def stream(self, E, st, args, inst):
        obj, buf, count = args
        n = E.canon(st, count, 64)
        if not st.num.entails_eq(obj - st.ghost['obj']): E.violation('post', 'read callback is not given the caller\'s object', st)
        # it may fill the whole of the count it is given
        E.access(st, buf, n, True)
        which = st.ghost.get('outcome')
        if which is None:
            def pick(k):
                def f(s): s.ghost['outcome'] = k
                return f
            raise Split([pick(k) for k in ('error', 'eof', 'some')], 'stream outcome')
        st.ghost['asked'] = n
        if which == 'error': return K(-1)
        if which == 'eof': return ZERO
        c = st.ghost['count']
        if not E.decide(st, 'ge', n - c): raise Infeasible()
        src = st.regions[st.ghost['streamdata']]
        r, off = E.resolve(st, buf)
        rr = st.wr(r.id)
        rr.log = rr.log + (('c', off, c, Snap(src), ZERO),)
        return c

    def data(self, st, name, n):
        return self.E.new_region(st, name, n, 'heap', Unknown(name[0] + name[-1]), ro=True)

    def check(self, st, arr, M, ctx):
        """all observers agree with the model"""
        h, E = self.h, self.E
        for s, sz in h.call(st, 'byte_array_size', arr):
            h.oblige(s, 'size() is the number of bytes held', lambda s: h.eq(s, E.canon(s, sz, 64), M.size) or '%s: size() is %r, not %r' % (ctx, s.num.norm(sz), s.num.norm(M.size)), fn=self.op)
            h.oblige(s, 'size() stays below max_size', lambda s: h.ge(s, self.m, M.size + 1) or ctx, fn=self.op)
            for t, d in h.call(s, 'byte_array_data', arr):
                def nul(s):
                    try: R, off = E.access(s, d + M.size, 1, False)
                    except Stop: return '%s: data()[size()] lies outside the block' % ctx
                    return h.eq(s, E.canon(s, E.read(s, R, off, 1), 8), 0) or '%s: data()[size()] is not NUL' % ctx
                h.oblige(t, 'data()[size()] is NUL', nul, fn=self.op)
                j = sym('j', 0, SIZE_MAX)
                def byte(s):
                    try: s.num.assume_ge(M.size - j - 1)
                    except Infeasible: return True
                    w = M.at(s, j)
                    R, off = E.resolve(s, d)
                    if R is None or not R.alive: return '%s: data() is not a live block' % ctx
                    g = E.canon(s, E.read(s, R, off + j, 1), 8)
                    return h.eq(s, g, w) or '%s: byte %r of the contents is %r instead of %r' % (ctx, s.num.norm(j), g, w)
                h.oblige(t, 'contents are exactly the bytes written', byte, fn=self.op)

    def make(self):
        h, E = self.h, self.E
        out = []
        st = h.state()
        self.op = 'make_byte_array'
        for s, arr in h.call(st, 'make_byte_array', self.m):
            out.append((s, arr, Model(ZERO, None)))
        return out

    # each op: (state, arr, Model) -> [(state, arr, Model, failed)]
    def append(self, s, arr, M, tag, lo=0, hi=SIZE_MAX, fn='byte_array_append'):
        h, E = self.h, self.E
        self.op = fn
        s = s.copy()
        n = sym('n' + tag, lo, hi)
        if fn.endswith('_string'):
            B = E.new_region(s, 'string ' + tag, n + 1, 'heap', CStr(n, 's' + tag), ro=True); args = (arr, E.ptr(B))
            n0 = n
        else:
            B = self.data(s, 'data ' + tag, n); args = (arr, E.ptr(B), n)
        out = []
        for t, r in h.call(s, fn, *args):
            out.append(self.outcome(t, r, arr, M, M.size + n, lambda s, j, M=M, B=B: E.read(s, s.regions[B.id], j - M.size, 1) if h.ge(s, j, M.size) else M.at(s, j), fn))
        return [x for o in out for x in o]

    def copy(self, s, arr, M, tag, lo=0, hi=SIZE_MAX, fn='byte_array_copy'):
        h, E = self.h, self.E
        self.op = fn
        s = s.copy()
        n = sym('n' + tag, lo, hi); pos = sym('pos' + tag, 0, SIZE_MAX)
        if fn.endswith('_string'):
            B = E.new_region(s, 'string ' + tag, n + 1, 'heap', CStr(n, 's' + tag), ro=True); args = (arr, pos, E.ptr(B))
        else:
            B = self.data(s, 'data ' + tag, n); args = (arr, pos, E.ptr(B), n)
        out = []
        for t, r in h.call(s, fn, *args):
            # split the outcome on the specification's cases
            def case(q):
                if not h.ge(q, M.size, pos): return 'range'
                return 'grow' if h.ge(q, pos + n, M.size + 1) else 'inside'
            for q, c in h.each(t, case):
                if c == 'range':
                    h.oblige(q, 'copy beyond the end fails', lambda s: h.eq(s, E.canon(s, r, 1), 0), fn=fn)
                    out.append((q, arr, M, True)); continue
                at = lambda s, j, M=M, B=B: E.read(s, s.regions[B.id], j - pos, 1) if h.ge(s, j, pos) and h.ge(s, pos + n, j + 1) else M.at(s, j)
                if c == 'inside':
                    h.oblige(q, 'copy within the contents succeeds', lambda s: h.eq(s, E.canon(s, r, 1), 1), fn=fn)
                    out.append((q, arr, Model(M.size, at), False))
                else: out += self.outcome(q, r, arr, M, pos + n, at, fn)
        return out

    def resize(self, s, arr, M, tag, lo=0, hi=SIZE_MAX):
        h, E = self.h, self.E
        self.op = fn = 'byte_array_resize'
        n = sym('n' + tag, lo, hi); c = sym('c' + tag, 0, 255)
        out = []
        for t, r in h.call(s, fn, arr, n, c):
            for q, up in h.each(t, lambda q: h.ge(q, n, M.size + 1)):
                at = lambda s, j, M=M: c if h.ge(s, j, M.size) else M.at(s, j)
                if up: out += self.outcome(q, r, arr, M, n, at, fn)
                else:
                    h.oblige(q, 'shrinking succeeds', lambda s: h.eq(s, E.canon(s, r, 1), 1), fn=fn)
                    out.append((q, arr, Model(n, M.at), False))
        return out

    def clear(self, s, arr, M):
        self.op = 'byte_array_clear'
        return [(t, arr, Model(ZERO, None), False) for t, _ in self.h.call(s, 'byte_array_clear', arr)]

    def stream_op(self, s, arr, M, tag, lo=0, hi=SIZE_MAX):
        h, E = self.h, self.E
        self.op = fn = 'byte_array_append_stream'
        s = s.copy()
        n = sym('len' + tag, lo, hi); c = sym('count' + tag, 1, (1 << 63) - 1)
        obj = sym('obj', 0, SIZE_MAX, tag='user')
        B = self.data(s, 'stream ' + tag, c)
        s.ghost['obj'] = obj; s.ghost['streamdata'] = B.id; s.ghost['count'] = c
        for k in ('asked', 'outcome'): s.ghost.pop(k, None)
        out = []
        for t, r in h.call(s, fn, arr, sym('cb', 4096, SIZE_MAX, tag='stream'), obj, n):
            asked = t.ghost.get('asked')
            if asked is None:
                def full(s):
                    if not h.eq(s, M.size + 1, self.m): return 'fails although there is room'
                    if not h.eq(s, E.canon(s, r, 64, True), -1): return 'does not return -1'
                    return self.errno(s)
                h.oblige(t, 'append_stream fails with ENOSPC exactly when the array is full', full, fn=fn)
                out.append((t, arr, M, True)); continue
            def most(s):
                if not h.ge(s, n, asked): return 'asks for more than the caller wanted'
                if not h.ge(s, self.m - 1, M.size + asked): return 'asks for more than fits'
                if not h.eq(s, asked, n) and not h.eq(s, M.size + asked + 1, self.m): return 'asks for less than wanted although more fits'
                return True
            h.oblige(t, 'append_stream asks for no more than fits', most, fn=fn)
            rv = {'error': K(-1), 'eof': ZERO, 'some': c}[t.ghost['outcome']]
            h.oblige(t, 'append_stream returns the callback\'s result', lambda s: h.eq(s, E.canon(s, r, 64, True), rv), fn=fn)
            if t.ghost['outcome'] == 'some':
                at = lambda s, j, M=M, B=B: E.read(s, s.regions[B.id], j - M.size, 1) if h.ge(s, j, M.size) else M.at(s, j)
                out.append((t, arr, Model(M.size + c, at), False))
            else: out.append((t, arr, M, False))
        return out

    def errno(self, s):
        h, E = self.h, self.E
        rid = s.ghost.get('errno')
        if rid is None: return 'errno is not set to ENOSPC'
        v = E.canon(s, E.read(s, s.regions[rid], ZERO, 4), 32)
        return h.eq(s, v, ENOSPC) or 'errno is not ENOSPC'

    def outcome(self, t, r, arr, M, newsize, at, fn):
        """growth to newsize must succeed iff newsize < max_size"""
        h, E = self.h, self.E
        out = []
        for q, fits in h.each(t, lambda q: h.ge(q, self.m, newsize + 1)):
            if fits:
                h.oblige(q, 'an operation that fits succeeds', lambda s: h.eq(s, E.canon(s, r, 1), 1), fn=fn)
                out.append((q, arr, Model(newsize, at), False))
            else:
                def bad(s):
                    if not h.eq(s, E.canon(s, r, 1), 0): return 'succeeds'
                    return self.errno(s)
                h.oblige(q, 'an operation that does not fit fails with ENOSPC', bad, fn=fn)
                out.append((q, arr, M, True))
        return out

    def owner(self, s, arr):
        """share/destroy: nothing released before the last reference, everything after it"""
        h, E = self.h, self.E
        for s1, a2 in h.call(s, 'share_byte_array', arr):
            h.oblige(s1, 'share returns its argument', lambda s: h.eq(s, a2, arr))
            for s2, _ in h.call(s1, 'share_byte_array', arr):
                cur = [s2]
                for k in range(3):
                    nxt = []
                    for x in cur:
                        for y, _ in h.call(x, 'destroy_byte_array', arr):
                            def ok(s):
                                live = [r for r in s.regions.values() if r.kind == 'heap' and r.name.startswith('block allocated') and r.alive]
                                if k < 2: return len(live) == 2 or 'released while references remain'
                                return not live or 'not everything is released with the last reference'
                            h.oblige(y, 'released exactly with the last reference', ok)
                            nxt.append(y)
                    cur = nxt

    def run(self, res):
        h, E = self.h, self.E
        OPS = [('append', self.append), ('copy', self.copy), ('resize', self.resize), ('stream', self.stream_op)]
        strs = [('append_string', lambda s, a, M, t, lo, hi: self.append(s, a, M, t, lo, hi, fn='byte_array_append_string')),
                ('copy_string', lambda s, a, M, t, lo, hi: self.copy(s, a, M, t, lo, hi, fn='byte_array_copy_string'))]
        bases = []
        for s, arr, M in self.make():
            self.check(s, arr, M, 'new array')
            self.owner(s, arr)
            bases.append(('make', s, arr, M))
            # an arbitrary prefix of contents, shorter and longer than the initial block
            lims = [(0, 126), (127, 129), (130, 5000)]
            for lo, hi in lims:
                for t, a, M2, f in self.append(s, arr, M, '0', lo, hi):
                    self.check(t, a, M2, 'append to a new array')
                    if f: continue
                    bases.append(('make, append', t, a, M2))
        more = []
        for nm, s, arr, M in bases:
            if nm == 'make': continue
            for t, a, M2, f in self.clear(s, arr, M):
                self.check(t, a, M2, 'clear')
                more.append((nm + ', clear', t, a, M2))
            # shrink
            n = sym('shr', 0, 1000)
            for t, a, M2, f in self.resize(s, arr, M, 's', 0, 300):
                self.check(t, a, M2, 'resize')
                more.append((nm + ', resize', t, a, M2))
        self.owner(*bases[-1][1:3])
        res.add(h, 'bytearray')
        jobs = []
        def part(f):
            def job(r):
                h.obl = {}; E.violations = []; E.undecided = []; E._seen = set(); E.stats = {k: (0 if isinstance(v, int) else v) for k, v in E.stats.items()}
                f(); r.add(h, 'bytearray')
            jobs.append(job)

        def small(nm, s, arr, M, on, op):
            for t, a, M2, f in op(s, arr, M, 'x', 0, 600 if not self.thorough else 5000):
                self.check(t, a, M2, '%s, %s%s' % (nm, on, ' (failing)' if f else ''))
                if nm.count(',') < (2 if not self.thorough else 3):
                    for on2, op2 in OPS:
                        for t3, a3, M3, f3 in op2(t, a, M2, 'z', 0, 600):
                            self.check(t3, a3, M3, '%s, %s%s, %s' % (nm, on, ' (failing)' if f else '', on2))

        def huge(nm, s, arr, M, on, op):          # any length whatever
            E.modest = True
            res1 = op(s, arr, M, 'y', 600, 1 << 40)
            E.modest = False
            for t, a, M2, f in res1 + op(s, arr, M, 'y', 1 << 40, SIZE_MAX):
                self.check(t, a, M2, '%s, %s%s' % (nm, on, ' (failing)' if f else ''))
        for nm, s, arr, M in bases + more:
            for on, op in OPS + (strs if nm.count(',') < 2 else []):
                part(lambda x=(nm, s, arr, M, on, op): small(*x))
        for nm, s, arr, M in bases:
            for on, op in OPS: part(lambda x=(nm, s, arr, M, on, op): huge(*x))
        res.par(jobs)


def run(res, tier): BA(tier).run(res)
