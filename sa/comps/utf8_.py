"""UTF-8 codepoint codec: decoding of every byte sequence, encoding of every code point, every amount of room."""
from harness import *


def bytes_region(h, st, n, name='bytes', lo=0, extra=(), ro=True, size=None):
    """heap region holding n symbolic bytes (and given constants after them)"""
    bs = [sym('%s%d' % (name[0], i), lo, 255) for i in range(n)]
    r = h.E.new_region(st, name, n + len(extra) if size is None else size, 'heap', Uninit(), ro=ro)
    r.log = tuple(('w', K(i), K(1), b) for i, b in enumerate(bs)) + tuple(('w', K(n + i), K(1), K(c)) for i, c in enumerate(extra))
    return r, bs


def spec_decode(h, s, bs):
    """Unicode Table 3-7; bs = available bytes; returns None or (length, code point)"""
    def inr(b, lo, hi): return h.ge(s, b, lo) and h.ge(s, hi, b)
    if not bs: return None
    b0 = bs[0]
    if h.ge(s, 0x7f, b0): return 1, b0
    tail = lambda k, lo=0x80, hi=0xbf: len(bs) > k and inr(bs[k], lo, hi)
    if inr(b0, 0xc2, 0xdf):
        if not tail(1): return None
        return 2, (b0 - 0xc0).scale(64) + bs[1] - 0x80
    if inr(b0, 0xe0, 0xef):
        lo, hi = 0x80, 0xbf
        if h.eq(s, b0, 0xe0): lo = 0xa0
        elif h.eq(s, b0, 0xed): hi = 0x9f
        if not tail(1, lo, hi) or not tail(2): return None
        return 3, (b0 - 0xe0).scale(4096) + (bs[1] - 0x80).scale(64) + bs[2] - 0x80
    if inr(b0, 0xf0, 0xf4):
        lo, hi = 0x80, 0xbf
        if h.eq(s, b0, 0xf0): lo = 0x90
        elif h.eq(s, b0, 0xf4): hi = 0x8f
        if not tail(1, lo, hi) or not tail(2) or not tail(3): return None
        return 4, (b0 - 0xf0).scale(1 << 18) + (bs[1] - 0x80).scale(4096) + (bs[2] - 0x80).scale(64) + bs[3] - 0x80
    return None


def spec_encode(h, s, cp):
    """bytes of the shortest form as functions (value, width-checked linear forms over quotients)"""
    if h.ge(s, 0x7f, cp): return [('lit', cp)]
    n = 2 if h.ge(s, 0x7ff, cp) else 3 if h.ge(s, 0xffff, cp) else 4
    return n


def run(res, tier):
    for flag in ('-fsigned-char', '-funsigned-char'):
        h = H(['charstr', 'list', 'fsalloc'], defs=(flag,))
        E = h.E
        for f in ('charstr_decode_utf8_codepoint', 'charstr_encode_utf8_codepoint'): h.fn(f)
        for n in range(0, 6):
            for mode in ('end', 'nul', 'endnul'):
                for out in (True, False):
                    st = h.state()
                    R, bs = bytes_region(h, st, n, 'input', 0 if mode == 'end' else 1, () if mode == 'end' else (0,))
                    C = E.new_region(st, 'code point variable', 4, 'heap', Unknown('old')) if out else None
                    end = ZERO if mode == 'nul' else E.ptr(R, n)
                    avail = bs + ([ZERO] if mode == 'nul' else [])
                    for s, r in h.call(st, 'charstr_decode_utf8_codepoint', E.ptr(R), end, E.ptr(C) if out else ZERO):
                        def ok(s):
                            w = spec_decode(h, s, avail)
                            if w is None: return h.eq(s, r, 0) or 'accepts bytes that are not well-formed UTF-8'
                            if h.eq(s, r, 0): return 'rejects a well-formed sequence'
                            if not h.eq(s, r, E.ptr(R, w[0])): return 'returned position is not just after the sequence'
                            if out:
                                v = E.canon(s, E.read(s, s.regions[C.id], ZERO, 4), 32, True)
                                if not h.eq(s, v, w[1]): return 'wrong code point (%r instead of %r)' % (s.num.norm(v), s.num.norm(w[1]))
                            return True
                        h.oblige(s, 'decoding accepts exactly the well-formed sequences with their values (%s)' % mode, ok)
        # NULL position
        for s, r in h.call(h.state(), 'charstr_decode_utf8_codepoint', ZERO, ZERO, ZERO):
            h.oblige(s, 'decoding from NULL gives NULL', lambda s: h.eq(s, r, 0))
        st = h.state(); R, _ = bytes_region(h, st, 1)
        for s, r in h.call(st, 'charstr_decode_utf8_codepoint', ZERO, E.ptr(R), ZERO):
            h.oblige(s, 'decoding from NULL gives NULL', lambda s: h.eq(s, r, 0))
        # encoding
        classes = [(0, 0x7f, 1), (0x80, 0x7ff, 2), (0x800, 0xd7ff, 3), (0xe000, 0xffff, 3), (0x10000, 0x10ffff, 4)]
        other = [(-(1 << 31), -1), (0xd800, 0xdfff), (0x110000, (1 << 31) - 1)]
        for n in list(range(0, 6)) + [None]:
            for lo, hi, k in classes:
                st = h.state()
                room = 8 if n is None else n
                R = E.new_region(st, 'output area', room, 'heap', Unknown('old'))
                # code point as its sixtets, so that the byte values are linear
                d = [sym('d%d' % i, 0, 63) for i in range(k - 1)]
                top = sym('top', lo >> (6 * (k - 1)), hi >> (6 * (k - 1)))
                cp = top.scale(1 << (6 * (k - 1)))
                for i, x in enumerate(d): cp = cp + x.scale(1 << (6 * i))
                try: st.num.assume_ge(cp - lo); st.num.assume_ge(K(hi) - cp)
                except Infeasible: continue
                for s, r in h.call(st, 'charstr_encode_utf8_codepoint', cp, E.ptr(R), ZERO if n is None else E.ptr(R, n)):
                    def ok(s):
                        if k > room: return h.eq(s, r, 0) or 'claims to have encoded into too little room'
                        if h.eq(s, r, 0): return 'refuses a code point that fits'
                        if not h.eq(s, r, E.ptr(R, k)): return 'returned position is not just after the %d bytes' % k
                        lead = {1: 0, 2: 0xc0, 3: 0xe0, 4: 0xf0}[k]
                        want = [top + lead] + [x + 0x80 for x in reversed(d)]
                        Q = s.regions[R.id]
                        for i, w in enumerate(want):
                            v = E.canon(s, E.read(s, Q, K(i), 1), 8)
                            if not h.eq(s, v, w): return 'byte %d is wrong' % i
                        for e in Q.log:
                            if not (h.ge(s, k, e[1] + e[2])): return 'writes past the encoding'
                        return True
                    h.oblige(s, 'encoding writes exactly the shortest form or refuses', ok)
                    h.oblige(s, 'encoding is refused exactly if it does not fit', lambda s: h.eq(s, r, 0) == (k > room) or '%d bytes, room for %d' % (k, room), kind='room')
            for lo, hi in other:
                st = h.state()
                R = E.new_region(st, 'output area', 8 if n is None else n, 'heap', Unknown('old'))
                cp = sym('cp', lo, hi)
                for s, r in h.call(st, 'charstr_encode_utf8_codepoint', cp, E.ptr(R), ZERO if n is None else E.ptr(R, n)):
                    h.oblige(s, 'encoding a non-scalar value stays within the area', lambda s: True)
        for s, r in h.call(h.state(), 'charstr_encode_utf8_codepoint', sym('cp', 0, 0x10ffff), ZERO, ZERO):
            h.oblige(s, 'encoding to NULL gives NULL', lambda s: h.eq(s, r, 0))
        st = h.state(); R, _ = bytes_region(h, st, 2)
        for s, r in h.call(st, 'charstr_encode_utf8_codepoint', sym('cp', 0, 0x10ffff), ZERO, E.ptr(R)):
            h.oblige(s, 'encoding to NULL gives NULL', lambda s: h.eq(s, r, 0))
        res.add(h, 'utf8' + flag)
