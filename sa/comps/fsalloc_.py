"""Allocation primitives (fsalloc.c): exact call protocol towards an arbitrary installed reallocator."""
from harness import *

PUBLIC = ['fs_set_reallocator', 'fs_get_reallocator', 'fs_set_reallocator_counter', 'fs_get_reallocator_counter',
          'fs_reallocator_skew', 'fsalloc', 'fsfree', 'fsrealloc', 'fscalloc']


def run(res, tier):
    h = H(['fsalloc'])
    E = h.E
    for f in PUBLIC: h.fn(f)

    def hook(E, st, args, inst):
        n = E.canon(st, args[1], 64)
        big = E.decide(st, 'ge', n - (1 << 63))       # no object can be that large
        def null(s): s.ghost['oom'] = True
        def fine(s): s.ghost['oom'] = False
        if 'oom' not in st.ghost:
            raise Split([null] if big else [null, fine], 'reallocator outcome')
        st.ghost['calls'] = st.ghost.get('calls', ()) + ((tuple(args)),)
        if st.ghost['oom']: return ZERO
        r = E.new_region(st, 'block from the reallocator', n, 'heap', Unknown('dirty'))
        st.ghost['got'] = r.id
        return E.ptr(r)

    def counter(E, st, args, inst):
        st.ghost['counts'] = st.ghost.get('counts', ()) + (tuple(args),)
        return None
    E.callbacks['realloc'] = hook; E.callbacks['counter'] = counter
    A = sym('F', 4096, SIZE_MAX, tag='realloc'); A2 = sym('F2', 4096, SIZE_MAX, tag='realloc2')
    C = sym('G', 4096, SIZE_MAX, tag='counter')

    def installed(st):
        out = []
        for s, _ in h.call(st, 'fs_set_reallocator', A2):
            for s2, _ in h.call(s, 'fs_set_reallocator', A): out.append(s2)
        return out
    for s in installed(h.state()):
        for t, r in h.call(s, 'fs_get_reallocator'):
            h.oblige(t, 'fs_get_reallocator returns the function last set', lambda s: h.eq(s, r, A))
    for s, _ in h.call(h.state(), 'fs_set_reallocator_counter', C):
        for t, r in h.call(s, 'fs_get_reallocator_counter'):
            h.oblige(t, 'fs_get_reallocator_counter returns the function last set', lambda s: h.eq(s, r, C))
        n = sym('n', -(1 << 31), (1 << 31) - 1)
        for t, r in h.call(s, 'fs_reallocator_skew', n):
            def ok(s):
                c = s.ghost.get('counts', ())
                if len(c) != 1: return 'counter called %d times' % len(c)
                return h.eq(s, E.canon(s, c[0][0], 32, True), n) or 'counter given another count'
            h.oblige(t, 'fs_reallocator_skew(n) calls the counter once with n', ok)
        # the two hooks are independent
        for t in installed(s):
            for u, r in h.call(t, 'fs_get_reallocator_counter'):
                h.oblige(u, 'setting the reallocator leaves the counter alone', lambda s: h.eq(s, r, C))
            for u, _ in h.call(t, 'fs_set_reallocator_counter', C):
                for v, r in h.call(u, 'fs_get_reallocator'):
                    h.oblige(v, 'setting the counter leaves the reallocator alone', lambda s: h.eq(s, r, A))

    def calls(s, want, ret=None, rv=None):
        c = s.ghost.get('calls', ())
        if s.ghost.get('counts'): return 'the counter is called'
        if len(c) != len(want): return 'reallocator called %d times, expected %d' % (len(c), len(want))
        for got, w in zip(c, want):
            if not h.eq(s, got[0], w[0]): return 'reallocator given another pointer'
            if not h.eq(s, E.canon(s, got[1], 64), w[1]): return 'reallocator asked for %r bytes instead of %r' % (s.num.norm(got[1]), s.num.norm(w[1]))
        if ret:
            exp = ZERO if s.ghost['oom'] else E.ptr(s.regions[s.ghost['got']])
            if not h.eq(s, rv, exp): return 'does not return the reallocator\'s result'
        return True
    n = sym('n', 0, SIZE_MAX); p = sym('p', 1, SIZE_MAX, tag='user')
    for s in installed(h.state()):
        for t, r in h.call(s, 'fsalloc', n):
            h.oblige(t, 'fsalloc(n): one call (NULL, n), result returned', lambda s: calls(s, [(ZERO, n)], True, r))
        for q in (p, ZERO):
            for t, r in h.call(s, 'fsrealloc', q, n):
                h.oblige(t, 'fsrealloc(p, n): one call (p, n), result returned', lambda s: calls(s, [(q, n)], True, r))
        for t, r in h.call(s, 'fsfree', p):
            h.oblige(t, 'fsfree(p): one call (p, 0)', lambda s: calls(s, [(p, ZERO)]))
        for t, r in h.call(s, 'fsfree', ZERO):
            h.oblige(t, 'fsfree(NULL): no call', lambda s: calls(s, []))
        sizes = [0, 1, 2, 3, 8, 24, 4096, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, SIZE_MAX]
        for k in sizes:
            for order in (0, 1):
                args = (sym('m', 0, SIZE_MAX), K(k)) if not order else (K(k), sym('m', 0, SIZE_MAX))
                m = args[order]
                for t, r in h.call(s, 'fscalloc', *args):
                    def ok(s):
                        prod = m.scale(k)
                        c = s.ghost.get('calls', ())
                        over = k > 0 and h.ge(s, prod, 1 << 64)
                        if over:
                            # no block of m*n bytes exists: anything but a smaller block is acceptable
                            if h.eq(s, r, 0): return True
                            R, off = E.resolve(s, r)
                            if R is None: return 'returns something else than a block'
                            return 'returns a block of %r bytes for a larger request' % s.num.norm(R.size)
                        x = calls(s, [(ZERO, prod)], True, r)
                        if x is not True: return x
                        if s.ghost['oom']: return True
                        R = s.regions[s.ghost['got']]
                        if h.eq(s, prod, 0): return True
                        j = s.ghost.get('j')
                        if j is None:
                            j = sym('j', 0, SIZE_MAX); s.ghost['j'] = j
                            s.num.assume_ge(prod - j - 1)
                        return h.eq(s, E.read(s, R, j, 1), 0) or 'a byte of the block is not zeroed'
                    h.oblige(t, 'fscalloc(m, n): one call (NULL, m*n), all bytes zeroed, never a smaller block', ok)
    # the default reallocator: never NULL for nonzero sizes
    def sysrealloc(E, st, a, i):
        m = E.canon(st, a[1], 64)
        if 'sysoom' not in st.ghost:
            def y(s): s.ghost['sysoom'] = True
            def z(s): s.ghost['sysoom'] = False
            raise Split([y, z], 'system allocator outcome')
        if E.decide(st, 'eq', m):
            return ZERO
        if st.ghost['sysoom']: return ZERO
        r = E.new_region(st, 'system block', m, 'heap', Unknown('dirty')); st.ghost['got'] = r.id
        return E.ptr(r)
    E.libc['realloc'] = sysrealloc
    E.libc['malloc'] = lambda E, st, a, i: sysrealloc(E, st, [ZERO, a[0]], i)
    m = sym('m', 1, SIZE_MAX)
    for fn, args in (('fsalloc', (m,)), ('fsrealloc', (ZERO, m)), ('fsrealloc', (p, m)), ('fscalloc', (m, K(1)))):
        for s, r in h.call(h.state(), fn, *args):
            def ok(s):
                if h.eq(s, r, 0): return 'returns NULL when the system is out of memory'
                return h.eq(s, r, E.ptr(s.regions[s.ghost['got']])) if 'got' in s.ghost else 'does not allocate'
            h.oblige(s, 'default reallocator never returns NULL for a nonzero size', ok, fn=fn)
    res.add(h, 'fsalloc')
