"""Character tables (C18, C19): the lookup functions as piecewise functions of the code point, compared interval by
interval with the Unicode data files, parsed independently of the library's generators."""
import os, engine, build
from piecewise import Piecewise, Undecided, Ptr, cstring
import piecewise

N = 0x110000
CATS = 'Cn Cc Cf Co Cs Ll Lm Lo Lt Lu Mc Me Mn Nd Nl No Pc Pd Pe Pf Pi Po Ps Sc Sk Sm So Zl Zp Zs'.split()
FORMS = ('NFC', 'NFD', 'NFKC', 'NFKD')


def lines(name):
    p = os.path.join(build.REPO, name)
    try:
        with open(p, encoding='latin1') as f:
            for l in f:
                l = l.split('#')[0].strip() if 'UnicodeData' not in name else l.strip()
                if l: yield [x.strip() for x in l.split(';')]
    except OSError: raise engine.AnchorMissing(name)


def span(s):
    a, _, b = s.partition('..')
    return int(a, 16), int(b or a, 16)


_ucd = {}


def ucd():
    if _ucd: return _ucd
    cat = ['Cn'] * N; ccc = [0] * N; up = [None] * N; lo = [None] * N; dec = {}
    first = None
    for f in lines('unicode/UnicodeData.txt'):
        cp = int(f[0], 16)
        if f[1].endswith(', First>'): first = cp; continue
        rng = range(first, cp + 1) if f[1].endswith(', Last>') else (cp,)
        first = None
        for c in rng: cat[c] = f[2]; ccc[c] = int(f[3])
        if f[12]: up[cp] = int(f[12], 16)
        if f[13]: lo[cp] = int(f[13], 16)
        if f[5] and f[5][0] != '<': dec[cp] = [int(x, 16) for x in f[5].split()]
    qc = {k: [0] * N for k in FORMS}
    for f in lines('unicode/DerivedNormalizationProps.txt'):
        if len(f) >= 3 and f[1].endswith('_QC'):
            a, b = span(f[0])
            for c in range(a, b + 1): qc[f[1][:-3]][c] = {'N': 1, 'M': 2, 'Y': 0}[f[2]]
    excl = set()
    for f in lines('unicode/CompositionExclusions.txt'):
        a, b = span(f[0].split()[0]); excl |= set(range(a, b + 1))
    comp = {(d[0], d[1]): c for c, d in dec.items() if len(d) == 2 and c not in excl and not ccc[c] and not ccc[d[0]]}
    _ucd.update(cat=cat, ccc=ccc, up=up, lo=lo, dec=dec, qc=qc, comp=comp)
    return _ucd


_idna = {}


def idna():
    if _idna: return _idna
    st = [None] * N; mp = {}
    for f in lines('idna/IdnaMappingTable.txt'):
        if len(f) < 2: continue
        a, b = span(f[0])
        m = ''.join(chr(int(x, 16)) for x in f[2].split()).encode('utf8') if len(f) > 2 and f[2] else b''
        for c in range(a, b + 1):
            st[c] = f[1]
            if m: mp[c] = m
    _idna.update(st=st, mp=mp)
    return _idna


def signed32(v): return v - (1 << 32) if isinstance(v, int) and v >> 31 and v < 1 << 32 else v


class Lookup:
    """one lookup function over one interval of code points"""
    def __init__(self, res, mod, fn, box):
        self.res = res; self.mod = mod; self.fn = fn
        self.p = Piecewise(mod, box); self.pieces = []
        f = mod.functions.get(fn)
        if f is None or f.decl: raise engine.AnchorMissing(fn)
        self.file = f.file; self.line = f.line
        try: self.pieces = self.p.run(fn)
        except Undecided as u: res.undecided.append(('tables', fn, str(u), 0)); self.pieces = []
        for b, bad in self.p.bad:
            res.viol(bad.kind, '%s: %s for %s' % (fn, bad.msg, ', '.join('U+%04X' % v[0] for v in b.values())), bad.inst.file or self.file, bad.inst.line, fn)
        res.functions |= self.p.functions; res.roots.add(fn)
        res.stats['pieces'] = res.stats.get('pieces', 0) + len(self.pieces)
        res.stats['steps'] = res.stats.get('steps', 0) + self.p.count

    def check(self, name, good, show):
        """good(cp, value) -> bool for each piece and each of its code points; value is constant or an affine function"""
        n = 0; bad = None
        for b, v in self.pieces:
            (lo, hi), = b.values()
            if isinstance(v, piecewise.Aff):
                for c in range(lo, hi + 1):
                    if not good(c, v.a * c + v.b): bad = (c, v.a * c + v.b); break
            else:
                for c in range(lo, hi + 1):
                    if not good(c, v): bad = (c, v); break
            if bad: break
            n += 1
        o = self.res.obl.setdefault(name, [0, 0]); o[0] += n
        if bad:
            o[1] += 1
            self.res.viol('post', '%s(0x%X) %s' % (self.fn, bad[0], show(*bad)), self.file, self.line, self.fn)


def run18(res, tier):
    U = ucd()
    gen = build.generate(['unicode_categories', 'unicode_lower_case', 'unicode_upper_case', 'unicode_canonical_combining_classes',
                          'unicode_allowed_in_normal_form', 'unicode_decomposition', 'unicode_recomposition'])
    e = build.probe(['charstr.h'], ['UNICODE_CATEGORY_' + c for c in CATS] + ['UNICODE_%s_%s' % (f, k) for f in FORMS for k in ('DISALLOWED', 'MAYBE')])
    catval = dict(zip(CATS, e)); flag = {(f, k): e[len(CATS) + 2 * i + j] for i, f in enumerate(FORMS) for j, k in enumerate((1, 2))}
    name = {v: k for k, v in catval.items()}
    if len(name) != len(CATS): res.viol('post', 'two general categories have the same value', 'charstr.h', 0)
    if len(set(flag.values())) != 8 or any(v <= 0 or v & (v - 1) for v in flag.values()): res.viol('post', 'normalization flags are not distinct bits', 'charstr.h', 0)
    mod = None
    mods = {}
    def load(i): return build.module([], extra=[gen[i]], cname='t%d' % i)
    def whole(i, fn, nm, good, show):
        def job(r):
            m = load(i)
            Lookup(r, m, fn, {'cp': (0, N - 1)}).check(nm, good, show)
        return job
    cat, ccc, up, lo, dec, qc, comp = (U[k] for k in ('cat', 'ccc', 'up', 'lo', 'dec', 'qc', 'comp'))
    def flags(c):
        v = 0
        for f in FORMS:
            if qc[f][c]: v |= flag[f, qc[f][c]]
        return v
    jobs = [
        whole(0, 'charstr_unicode_category', 'general category', lambda c, v: v == catval[cat[c]], lambda c, v: 'is %s, not %s' % (name.get(v, v), cat[c])),
        whole(1, 'charstr_naive_lcase_unicode', 'simple lower-case mapping', lambda c, v: v == (lo[c] if cat[c] == 'Lu' and lo[c] else c) or cat[c] not in ('Lu', 'Ll') and v == lo[c],
              lambda c, v: 'is 0x%X, not 0x%X' % (v, lo[c] if cat[c] == 'Lu' and lo[c] else c)),
        whole(2, 'charstr_naive_ucase_unicode', 'simple upper-case mapping', lambda c, v: v == (up[c] if cat[c] == 'Ll' and up[c] else c) or cat[c] not in ('Lu', 'Ll') and v == up[c],
              lambda c, v: 'is 0x%X, not 0x%X' % (v, up[c] if cat[c] == 'Ll' and up[c] else c)),
        whole(3, 'charstr_unicode_canonical_combining_class', 'canonical combining class', lambda c, v: v == ccc[c], lambda c, v: 'is %s, not %d' % (v, ccc[c])),
        whole(4, 'charstr_allowed_unicode_normal_forms', 'normalization quick-check flags', lambda c, v: v == flags(c), lambda c, v: 'is 0x%X, not 0x%X' % (v, flags(c))),
    ]
    def decomp(r):
        m = load(5); memo = {}
        def seq(p):
            if p == 0: return None
            if not isinstance(p, Ptr): return 'an invalid address'
            if p in memo: return memo[p]
            out = []; g = m.globals.get(p.g)
            cells = m.global_cells(p.g); o = p.off
            while True:
                if o + 4 > g.type.size: out = 'an unterminated sequence'; break
                c = cells.get(o); v = c[1].v if c else 0
                if not v: break
                out.append(v); o += 4
            memo[p] = out
            return out
        def sh(x): return 'nothing' if x is None else x if isinstance(x, str) else ' '.join('%04X' % y for y in x)
        Lookup(r, m, '_charstr_unicode_decomposition', {'cp': (0, N - 1)}).check('canonical decomposition', lambda c, v: seq(v) == dec.get(c), lambda c, v: 'is %s, not %s' % (sh(seq(v)), sh(dec.get(c))))
    def primary(r):
        m = load(6); fn = '_charstr_unicode_primary_composite'
        L = Lookup(r, m, fn, {'0starter': (0, N - 1), '1mark': (0, N - 1)})
        if not L.pieces: return
        left = dict(comp); bad = None; n = 0
        none = {}
        for b, v in L.pieces:
            s, k = b['0starter'], b['1mark']; n += 1
            v = signed32(v)
            if v == -1: none.setdefault(k, []).append(s); continue
            for c in range(k[0], k[1] + 1):
                for a in range(s[0], s[1] + 1):
                    x = v.a * (a if v.v == '0starter' else c) + v.b if isinstance(v, piecewise.Aff) else v
                    if ccc[a]: continue            # never asked: only starters compose
                    if comp.get((a, c)) != x: bad = bad or ((a, c), x); break
                    left.pop((a, c), None)
                if bad: break
            if bad: break
        if not bad:
            for (a, c), x in sorted(left.items()): bad = ((a, c), -1); break
        o = r.obl.setdefault('primary composites', [0, 0]); o[0] += n
        if bad:
            o[1] += 1; (a, c), x = bad
            r.viol('post', '%s(0x%X, 0x%X) is %s, not %s' % (fn, a, c, 'none' if x == -1 else '0x%X' % x, '0x%X' % comp[a, c] if (a, c) in comp else 'none'), L.file, L.line, fn)
    res.par(jobs + [decomp, primary])


def run19(res, tier):
    I = idna(); st, mp = I['st'], I['mp']
    if None in st: res.undecided.append(('tables', 'IdnaMappingTable.txt', 'code point U+%04X has no status' % st.index(None), 0))
    gen = build.generate(['idna_table'])
    m = build.module(['charstr_puny'], extra=gen, cname='idna')
    names = ['deviation', 'disallowed', 'disallowed_STD3_valid', 'disallowed_STD3_mapped', 'ignored', 'mapped', 'valid']
    def pred(nm, box):
        def job(r):
            Lookup(r, m, 'charstr_idna_status_is_' + nm, {'cp': box}).check('status is ' + nm, lambda c, v: v == (st[c] == nm), lambda c, v: 'is %s although the status is %s' % ('true' if v else 'false', st[c]))
        return job
    def text(memo, v):
        if v == 0: return None
        if not isinstance(v, Ptr): return b'(invalid address)'
        if v not in memo: memo[v] = cstring(m, v)
        return memo[v]
    def status(box):
        def job(r):
            memo = {}
            Lookup(r, m, 'charstr_idna_status', {'cp': box}).check('status name', lambda c, v: text(memo, v) == (st[c] or '').encode(), lambda c, v: 'is %r, not %r' % (text(memo, v), st[c]))
        return job
    def mapping(box):
        def job(r):
            memo = {}
            Lookup(r, m, 'charstr_idna_mapping', {'cp': box}).check('mapping', lambda c, v: text(memo, v) == mp.get(c), lambda c, v: 'is %r, not %r' % (text(memo, v), mp.get(c)))
        return job
    cut = [0, 0x3000, 0x8000, 0x10000, 0x1d000, 0x20000, 0x2c000, 0x38000, 0x80000, N]
    jobs = []
    for a, b in zip(cut[:-1], cut[1:]):
        jobs.append(status((a, b - 1)))
        for nm in names: jobs.append(pred(nm, (a, b - 1)))
        jobs.append(mapping((a, b - 1)))
    res.par(jobs)


def run(res, tier):
    if res.pid == 'C18': run18(res, tier)
    else: run19(res, tier)
