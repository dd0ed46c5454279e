"""Base64 (base64.c): encoding and decoding with symbolic contents, every amount of room, every terminator."""
from harness import *
from comps.strings_ import region
import itertools

PUBLIC = ['base64_encoding_size', 'base64_encode_buffer', 'base64_encode_simple', 'base64_decode_buffer', 'base64_decode_simple']
ALPHA = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
EILSEQ = 84


class B64:
    def __init__(self):
        self.h = h = H(['base64', 'fsalloc'], extra=[LIBC], unroll=60)
        self.E = h.E; self.E.pieces = 8
        for f in PUBLIC: h.fn(f)

    def reset(self):
        h, E = self.h, self.E
        h.obl = {}; E.violations = []; E.undecided = []; E._seen = set()
        E.stats = {k: (0 if isinstance(v, int) else v) for k, v in E.stats.items()}

    def live(self, s, old): return [r for r in s.regions.values() if r.kind == 'heap' and r.alive and r.id not in old]

    # ---------------------------------------------------------------- tables and sizes
    def tables(self):
        h, E = self.h, self.E
        for name, size in (('base64_bitfield_encoding', 64), ('base64_bitfield_decoding', 256)):
            if name not in h.mod.globals: raise AnchorMissing(name)
        def table(name, n):
            st = h.state(); c = h.mod.global_cells(name)
            out = []
            for i in range(n):
                v = c.get(i)
                out.append(v[1].v & 255 if v else 0)
            return out
        enc = table('base64_bitfield_encoding', 64); dec = table('base64_bitfield_decoding', 256)
        bad = []
        for i in range(64):
            if enc[i] != ord(ALPHA[i]): bad.append('base64_bitfield_encoding[%d] is %d' % (i, enc[i]))
        for c in range(256):
            w = ALPHA.index(chr(c)) if chr(c) in ALPHA else None
            got = dec[c] - 256 if dec[c] > 127 else dec[c]
            if w is not None and got != w: bad.append('base64_bitfield_decoding[%d] is %d instead of %d' % (c, got, w))
            if w is None:
                k = -4 if c == 0 else -3 if c == 61 else -2 if c in (9, 10, 12, 13, 32) else -1
                if got != k: bad.append('base64_bitfield_decoding[%d] is %d instead of %d' % (c, got, k))
        h.oblige(h.state(), 'the public tables are the RFC 4648 alphabet and its inverse', lambda s: not bad or '; '.join(bad[:4]), fn='base64_decode_buffer')

    def sizes(self):
        h, E = self.h, self.E
        T = SIZE_MAX // 3
        for r in range(3):
            q = sym('q', 0, (SIZE_MAX - r) // 3)
            n = q.scale(3) + r
            st = h.state()
            for s, v in h.call(st, 'base64_encoding_size', n):
                full = (q + (1 if r else 0)).scale(4)
                h.oblige(s, 'encoding_size is the length of the text, or -1 on overflow',
                         lambda s: h.eq(s, h.u64(s, v), full if h.ge(s, SIZE_MAX, full) else SIZE_MAX) or 'size %r is given as %r' % (s.num.norm(n), s.num.norm(v)))

    # ---------------------------------------------------------------- encoding
    def source(self, st, n, wild, ro=True):
        """n source bytes; the sextets `wild` are arbitrary, the others below 16; (region, [sextets or None for padding])"""
        bs, sx = [], []
        w = set(wild)
        for g in range((n + 2) // 3):
            k = min(3, n - 3 * g)
            m = [4 * g + j in w for j in range(4)]
            s0 = sym('p', 0, 63 if m[0] else 15)
            a = sym('a', 0, 3 if m[1] else 0); b = sym('b', 0, 15)
            c = sym('c', 0, 15 if m[2] else 3); d = sym('d', 0, 3)
            s3 = sym('t', 0, 63 if m[3] else 15)
            bs.append(s0.scale(4) + a); sx += [s0, a.scale(16) + (b if k > 1 else 0)]
            if k > 1: bs.append(b.scale(16) + c); sx.append(c.scale(4) + (d if k > 2 else 0))
            if k > 2: bs.append(d.scale(64) + s3); sx.append(s3)
            sx += [None] * (3 - k)
        return region(self.h, st, bs, 'source', ro), sx

    def char(self, s, e, p62, p63):
        h = self.h
        if e is None: return K(61)
        if h.ge(s, 25, e): return e + 65
        if h.ge(s, 51, e): return e + 71
        if h.ge(s, 61, e): return e - 4
        return p62 if h.eq(s, e, 62) else p63

    def text_is(self, s, R, sx, room, p62, p63, ctx):
        """R[0..room) holds the text or its truncation, terminated"""
        h, E = self.h, self.E
        n = min(len(sx), room - 1)
        for i in range(n):
            v = E.canon(s, E.read(s, s.regions[R], K(i), 1), 8)
            w = E.canon(s, self.char(s, sx[i], p62, p63), 8)
            if not h.eq(s, v, w): return '%s: character %d is %r instead of %r' % (ctx, i, s.num.norm(v), s.num.norm(w))
        if room > 0 and not h.eq(s, E.canon(s, E.read(s, s.regions[R], K(n), 1), 8), 0): return '%s: the text is not NUL-terminated' % ctx
        return True

    def encode(self, n, wild, rooms, custom=False):
        h, E = self.h, self.E
        for room in rooms:
            st = h.state()
            rs, sx = self.source(st, n, wild)
            rd = E.new_region(st, 'destination', room, 'heap', Unknown('old'))
            a62 = a63 = K(-1); p62, p63 = K(43), K(47)
            if custom:
                p62 = a62 = sym('pos62', -128, 127); p63 = a63 = sym('pos63', -128, 127)
                st.num.assume_ne(a62 + 1); st.num.assume_ne(a63 + 1)
            for s, r in h.call(st, 'base64_encode_buffer', E.ptr(rs), n, E.ptr(rd) if room else ZERO, room, a62, a63):
                ctx = '%d bytes into %d' % (n, room)
                h.oblige(s, 'encoding returns the full length', lambda s: h.eq(s, h.u64(s, r), len(sx)) or '%s: %r instead of %d' % (ctx, s.num.norm(r), len(sx)), kind='room')
                h.oblige(s, 'encoding produces the RFC 4648 text within the destination', lambda s: self.text_is(s, rd.id, sx, room, p62, p63, ctx))

    def encode_simple(self, n, wild):
        h, E = self.h, self.E
        st = h.state(); rs, sx = self.source(st, n, wild); old = set(st.regions)
        for s, r in h.call(st, 'base64_encode_simple', E.ptr(rs), n):
            def ok(s):
                R, off = E.resolve(s, r)
                if R is None or not R.alive: return 'no string is returned'
                if not h.ge(s, R.size - len(sx) - 1): return 'the block is too small'
                if [x.id for x in self.live(s, old)] != [R.id]: return 'other blocks are left allocated'
                return self.text_is(s, R.id, sx, len(sx) + 1, K(43), K(47), '%d bytes' % n)
            h.oblige(s, 'encode_simple gives a fresh string with the text', ok)

    # ---------------------------------------------------------------- decoding
    def text(self, seq):
        """symbolic characters of the given classes; sextets are split so that byte values are linear"""
        cs, k = [], 0
        free = sum(c in 'ULDPQ' for c in seq) - 5      # earlier sextets are concrete: the 32-bit accumulator stays linear
        for c in seq:
            if c in 'ULD':
                lo, hi, base = {'U': (0, 25, 65), 'L': (26, 51, 97), 'D': (52, 61, 48)}[c]
                d = {0: 64, 1: 16, 2: 4, 3: 64}[k % 4]
                if k < free:
                    v = K(lo + 1 + k % 5); top, rest = (v, ZERO) if d == 64 else (K(v.c // d), K(v.c % d))
                elif d == 64: v = sym('v', lo, hi); top, rest = v, ZERO
                else: top, rest = sym('t', lo // d, hi // d), sym('r', 0, d - 1); v = top.scale(d) + rest
                cs.append((c, v - lo + base, v, top, rest, (lo, hi))); k += 1
            elif c in 'PQ':
                v = 62 if c == 'P' else 63
                d = {0: 64, 1: 16, 2: 4, 3: 64}[k % 4]
                cs.append((c, None, K(v), K(v // d) if d < 64 else K(v), K(v % d) if d < 64 else ZERO, None)); k += 1
            elif c == 'W': cs.append((c, K(32) if any(x[0] == 'W' for x in cs) else sym('w', 0, 32), None, None, None, None))
            elif c == 'E': cs.append((c, K(61), None, None, None, None))
            elif c == 'N': cs.append((c, K(0), None, None, None, None))
            else: cs.append((c, sym('x', -128, 127), None, None, None, None))
        return cs

    def spec_decode(self, seq, ignore):
        """(number of sextets, needs check of trailing bits) or None if malformed, or 'any' where whitespace separates padding"""
        i, n = 0, 0
        while i < len(seq) and seq[i] not in 'EN':
            if seq[i] == 'X' or (seq[i] == 'W' and not ignore): return None
            if seq[i] != 'W': n += 1
            i += 1
        need = {0: 0, 1: None, 2: 2, 3: 1}[n % 4]
        rest = seq[i:]
        if 'N' in rest: rest = rest[:rest.index('N')]
        if need is None: return None
        core = rest
        if ignore:
            core = rest.replace('W', '')
            if core == 'E' * need and not rest.startswith('E' * need): return 'any'
        return n if core == 'E' * need else None

    def decode(self, seqs, modes):
        h, E = self.h, self.E
        for seq in seqs:
            if engine.late(): E.undecide('time budget'); return
            for bounded, ignore, custom, rooms in modes:
                w = self.spec_decode(seq, ignore)
                count = 0 if w in (None, 'any') else w * 6 // 8
                for room in sorted({max(0, count + r) if r is not None else 0 for r in rooms}):
                    st = h.state()
                    cs = self.text(seq)
                    p62, p63 = (ord('-'), ord('_')) if custom else (ord('+'), ord('/'))
                    chars = []
                    for c, v, _, _, _, rng in cs:
                        if c == 'P': v = K(p62)
                        if c == 'Q': v = K(p63)
                        if rng: st.num.assume_ge(cs[len(chars)][2] - rng[0]); st.num.assume_ge(K(rng[1]) - cs[len(chars)][2])
                        if c == 'W':
                            if v.t: setdom(st, v.t[0][0], vs_from([9, 10, 12, 13, 32]))
                        if c == 'X':
                            ok = {ord(x) for x in ALPHA[:62]} | {p62, p63, 61, 0, 9, 10, 12, 13, 32}
                            setdom(st, v.t[0][0], vs_from([x for x in range(-128, 128) if x & 255 not in ok]))
                        chars.append(v)
                    rs = region(h, st, [c if c.const or c.t and E is None else c for c in chars] + ([] if bounded else [0]), 'source')
                    rd = E.new_region(st, 'destination', room, 'heap', Unknown('old'))
                    a = (K(-1), K(-1)) if not custom else (K(p62), K(p63))
                    for s, r in h.call(st, 'base64_decode_buffer', E.ptr(rs), len(seq) if bounded else SIZE_MAX, E.ptr(rd) if room else ZERO, room, a[0], a[1], K(int(ignore))):
                        if w == 'any': continue
                        h.oblige(s, 'decoding accepts exactly the canonical texts and gives their bytes', lambda s: self.decoded(s, r, w, cs, rd, room, seq), fn='base64_decode_buffer')

    def decoded(self, s, r, w, cs, rd, room, seq):
        h, E = self.h, self.E
        v = E.canon(s, r, 64, True)
        sx = [c for c in cs[:len(seq)] if c[2] is not None]
        if 'N' in seq or 'E' in seq: sx = [c for c in cs[:min(seq.index(x) for x in 'NE' if x in seq)] if c[2] is not None]
        good = w is not None
        if good and w % 4 in (2, 3):           # unused low bits must be zero
            good = h.eq(s, sx[-1][4], 0)
        if not good:
            if not h.eq(s, v, -1): return 'malformed text (%s) is accepted: %r' % (seq, s.num.norm(v))
            rid = s.ghost.get('errno')
            if rid is None or not h.eq(s, E.read(s, s.regions[rid], ZERO, 4), EILSEQ): return 'errno is not EILSEQ for malformed text (%s)' % seq
            return True
        count = w * 6 // 8
        if not h.eq(s, v, count): return 'text (%s) gives %r instead of %d' % (seq, s.num.norm(v), count)
        for j in range(min(count, room)):
            g, k = divmod(j, 3)
            q = sx[4 * g + k]; p = sx[4 * g + k + 1]
            want = q[2].scale(4) + p[3] if k == 0 else q[4].scale(16) + p[3] if k == 1 else q[4].scale(64) + p[2]
            got = E.canon(s, E.read(s, s.regions[rd.id], K(j), 1), 8)
            if not h.eq(s, got, want): return 'text (%s): byte %d is %r instead of %r' % (seq, j, s.num.norm(got), s.num.norm(want))
        return True

    def decode_simple(self, seqs):
        h, E = self.h, self.E
        for seq in seqs:
            if engine.late(): E.undecide('time budget'); return
            w = self.spec_decode(seq, True)
            if w == 'any': continue
            st = h.state(); cs = self.text(seq); chars = []
            for c, v, x, _, _, rng in cs:
                if c in 'PQ': v = K(43 if c == 'P' else 47)
                if rng: st.num.assume_ge(x - rng[0]); st.num.assume_ge(K(rng[1]) - x)
                if c == 'W' and v.t: setdom(st, v.t[0][0], vs_from([9, 10, 12, 13, 32]))
                if c == 'X': setdom(st, v.t[0][0], vs_from([y for y in range(-128, 128) if chr(y & 255) not in ALPHA + '=\0\t\n\f\r ']))
                chars.append(v)
            rs = region(h, st, chars + [0], 'encoding')
            rn = E.new_region(st, 'binary_size', 8, 'heap', Unknown('old'))
            old = set(st.regions)
            for s, r in h.call(st, 'base64_decode_simple', E.ptr(rs), E.ptr(rn)):
                def ok(s):
                    sx = cs[:min([seq.index(x) for x in 'NE' if x in seq] + [len(seq)])]
                    sx = [c for c in sx if c[2] is not None]
                    good = w is not None and (w % 4 not in (2, 3) or h.eq(s, sx[-1][4], 0))
                    R, off = E.resolve(s, r)
                    if not good:
                        if R is not None or not h.eq(s, r, 0): return 'malformed text (%s) is accepted' % seq
                        if self.live(s, old): return 'a block is left allocated'
                        rid = s.ghost.get('errno')
                        return rid is not None and h.eq(s, E.read(s, s.regions[rid], ZERO, 4), EILSEQ) or 'errno is not EILSEQ'
                    if R is None or not R.alive: return 'text (%s) is rejected' % seq
                    count = w * 6 // 8
                    if not h.eq(s, h.u64(s, E.read(s, s.regions[rn.id], ZERO, 8)), count): return 'wrong binary_size'
                    if not h.ge(s, R.size - count - 1): return 'the block is too small'
                    if not h.eq(s, E.canon(s, E.read(s, R, K(count), 1), 8), 0): return 'no NUL after the decoding'
                    if [x.id for x in self.live(s, old)] != [R.id]: return 'other blocks are left allocated'
                    # the bytes themselves: the same function as base64_decode_buffer
                    return self.decoded(s, K(count), w, cs, R, count, seq)
                h.oblige(s, 'decode_simple gives a fresh block with the bytes, or NULL', ok, fn='base64_decode_simple')


def run(res, tier):
    x = B64()
    jobs = []
    deep = tier == 'thorough'
    def job(f, *a):
        def g(r):
            x.reset(); f(*a); r.add(x.h, 'base64')
        jobs.append(g)
    job(x.tables); job(x.sizes)
    for n in range(8 if not deep else 11):
        L = (n + 2) // 3 * 4
        g = (n * 8 + 5) // 6
        for w in range(max(g, 1)):
            job(x.encode, n, [w], list(range(L + 3)))
            job(x.encode, n, [w], [L + 1], True)
            job(x.encode_simple, n, [w])
        if n in (1, 2, 3): job(x.encode, n, range(4), [L + 1]); job(x.encode_simple, n, range(4))
    M = [(b, i, c, rooms) for b in (True, False) for i in (True, False) for c, rooms in ((False, (0, None)), (True, (1,)))]
    M1 = [(b, i, False, (0, -1, 2)) for b in (True, False) for i in (True, False)] + [(True, False, True, (0,)), (False, True, True, (2,))]
    short = [''.join(p) for n in range(4 if not deep else 5) for p in itertools.product('ULDPQWEXN', repeat=n)]
    short = [s for s in short if 'N' not in s[:-1]]
    for i in range(24): job(x.decode, short[i::24], M)
    mid = [''.join(p) for n in (4, 5) for p in itertools.product('UDWEX' if not deep else 'UDPWEX', repeat=n)]
    for i in range(32): job(x.decode, mid[i::32], M1)
    long = [b + t for b in ('ULDP', 'QDUL', 'UULU', 'WUUWLL', 'U UDD'.replace(' ', 'W')) for t in ('', 'UU', 'LD', 'UDL', 'UUEE', 'LDEE', 'PQE', 'UDUE', 'UUE', 'UUEEW', 'UUEEE', 'UEEE', 'UUUU', 'QPQP', 'UUEEWW', 'UUUEW', 'UUUEX', 'UUEEU', 'UUEN', 'UUEENX', 'U', 'ULLUDD', 'ULLUDDEE', 'ULLUQQPE')]
    for i in range(8): job(x.decode, long[i::8], M1)
    simple = [''.join(p) for n in range(4) for p in itertools.product('UDWEX', repeat=n)] + long + ['UUEE', 'LLLE', 'PQPQ', 'UWUWEE', 'UUEEW']
    for i in range(8): job(x.decode_simple, simple[i::8])
    res.par(jobs)
