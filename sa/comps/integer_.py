"""integer.h wrappers, comparison functions and the hash helpers."""
from harness import *


def run(res, tier):
    h = H(['integer', 'hashtable', 'list', 'fsalloc', 'intset'], extra=[os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'support', 'inline_int.c')])
    E = h.E
    M63 = 1 << 63
    for f in ('integer_cmp', 'unsigned_cmp', 'hash_integer', 'hash_unsigned', 'hash_string', 'hash_blob'): h.fn(f)
    # round trips
    v = sym('v', -M63, M63 - 1)
    for s, p in h.call(h.state(), 'w_as_integer', v):
        for t, r in h.call(s, 'w_as_intptr', p):
            h.oblige(t, 'as_intptr(as_integer(v)) == v', lambda s: h.eq(s, E.canon(s, r, 64, True), v), fn='as_integer')
    u = sym('u', 0, SIZE_MAX)
    for s, p in h.call(h.state(), 'w_as_unsigned', u):
        for t, r in h.call(s, 'w_as_uintptr', p):
            h.oblige(t, 'as_uintptr(as_unsigned(u)) == u', lambda s: h.eq(s, E.canon(s, r, 64), u), fn='as_unsigned')
    for fn, back, lo, hi, sg in (('w_as_intptr', 'w_as_integer', -M63, M63 - 1, True), ('w_as_uintptr', 'w_as_unsigned', 0, SIZE_MAX, False)):
        x = sym('x', lo, hi, tag='user')
        for s, p in h.call(h.state(), fn, x):
            for t, r in h.call(s, back, p):
                h.oblige(t, 'pointer survives conversion to a number and back', lambda s: h.eq(s, E.canon(s, r, 64, sg), x), fn=back[2:])
    # comparisons
    for fn, lo, hi, sg in (('integer_cmp', -M63, M63 - 1, True), ('unsigned_cmp', 0, SIZE_MAX, False)):
        a = sym('a', lo, hi, tag='user'); b = sym('b', lo, hi, tag='user')
        for s, r in h.call(h.state(), fn, a, b):
            def ok(s):
                v = E.canon(s, r, 32, True)
                if h.eq(s, a, b): return h.eq(s, v, 0) or 'nonzero for equal values'
                if h.ge(s, a, b): return h.ge(s, v, 1) or 'not positive for a > b'
                return h.ge(s, -v, 1) or 'not negative for a < b'
            h.oblige(s, '%s has the sign of the comparison' % fn, ok)
    # hash_integer/hash_unsigned: a function of the value alone
    for fn in ('hash_integer', 'hash_unsigned'):
        x = sym('x', 0, SIZE_MAX, tag='user')
        for s, r in h.call(h.state(), fn, x):
            def ok(s):
                extra = s.num.support(r) - s.num.support(x)
                return not extra or 'depends on something else than the value'
            h.oblige(s, '%s depends on the value alone' % fn, ok)
    # strings and blobs: two copies of the same contents, at different places, with different surroundings
    maxn = 3 if tier == 'quick' else 5
    h.E.unroll = maxn + 2
    for n in range(0, maxn + 1):
        for fn in ('hash_string', 'hash_blob'):
            st = h.state()
            if fn == 'hash_string':
                A = E.new_region(st, 'first string', n + 1, 'heap', CStr(K(n), 'b'), ro=True)
                B = E.new_region(st, 'second string', n + 5, 'heap', Unknown('junk'), ro=True)
                st.wr(B.id).log = (('c', K(1), K(n + 1), Snap(A), ZERO),)
                args = lambda r, o: (E.ptr(r, o),)
            else:
                A = E.new_region(st, 'first blob', n, 'heap', Unknown('b'), ro=True)
                B = E.new_region(st, 'second blob', n + 5, 'heap', Unknown('junk'), ro=True)
                if n: st.wr(B.id).log = (('c', K(1), K(n), Snap(A), ZERO),)
                args = lambda r, o: (E.ptr(r, o), K(n))
            for s, r1 in h.call(st, fn, *args(A, 0)):
                for t, r2 in h.call(s, fn, *args(B, 1)):
                    def ok(s):
                        j = st.regions[B.id]
                        if any(a.name.startswith('junk') for x in (r1, r2) for a in s.num.support(x)): return 'depends on bytes outside the contents'
                        return s.num.entails_eq(r1 - r2) or 'equal contents at another address hash differently'
                    h.oblige(t, '%s of equal contents is equal (length %d)' % (fn, n), ok)
    # unbounded: never reads past the end
    h.E.unroll = 3
    n = sym('n', 0, 1 << 40)
    st = h.state(); A = E.new_region(st, 'string', n + 1, 'heap', CStr(n, 'b'), ro=True)
    for s, r in h.call(st, 'hash_string', E.ptr(A)): h.oblige(s, 'hash_string stops at the terminator (any length)', lambda s: True)
    st = h.state(); A = E.new_region(st, 'blob', n, 'heap', Unknown('b'), ro=True)
    for s, r in h.call(st, 'hash_blob', E.ptr(A), n): h.oblige(s, 'hash_blob stops at size (any size)', lambda s: True)
    res.add(h, 'integer')
