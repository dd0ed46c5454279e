"""binary64_to_integer/unsigned over all 2^64 bit patterns: symbolic sign, exponent classes and 52-bit mantissa."""
from harness import *


def run(res, tier):
    h = H(['float'])
    E = h.E
    for fn, signed in (('binary64_to_integer', True), ('binary64_to_unsigned', False)):
        h.fn(fn)
        parts = [(0, 0), (1, 1022)] + [(e, e) for e in range(1023, 1023 + 66)] + [(1023 + 66, 2046), (2047, 2047)]
        for sign in (0, 1):
            for lo, hi in parts:
                st = h.state()
                m = sym('mantissa', 0, (1 << 52) - 1)
                e = K(lo) if lo == hi else sym('exponent', lo, hi)
                out = E.new_region(st, 'result variable', 8, 'heap', Unknown('old'))
                val = K(sign << 63) + e.scale(1 << 52) + m
                for s, r in h.call(st, fn, val, E.ptr(out)):
                    def ok(s, lo=lo, hi=hi):
                        # what the IEEE 754 value is
                        n = None
                        if hi == 0:
                            if h.eq(s, m, 0): n = ZERO
                        elif lo == 2047 or hi < 1023 or lo > 1023 + 65: pass
                        else:
                            x = lo - 1023
                            if x >= 52: n = (K(1 << 52) + m).scale(1 << (x - 52))
                            else:
                                k = 52 - x
                                q = E.udiv(s, m, 1 << k, 64)
                                if h.eq(s, m - q.scale(1 << k), 0): n = K(1 << x) + q
                        if n is not None:
                            if sign: n = -n
                            mn, mx = (-(1 << 63), (1 << 63) - 1) if signed else (0, SIZE_MAX)
                            if not (h.ge(s, n, mn) and h.ge(s, K(mx), n)): n = None
                        got = h.boolv(s, r, 1 if False else 8) if False else not h.eq(s, E.canon(s, r, 1), 0)
                        if got != (n is not None): return 'returns %s for a value that is %san integer in range' % (got, '' if n is not None else 'not ')
                        if n is None: return True
                        v = E.canon(s, E.read(s, s.regions[out.id], ZERO, 8), 64, signed)
                        return h.eq(s, v, n) or 'stores %r instead of %r' % (s.num.norm(v), s.num.norm(n))
                    h.oblige(s, '%s is exact (sign %d, biased exponent %d..%d, every mantissa)' % (fn, sign, lo, hi), ok)
    res.add(h, 'float')
