"""Shape abstraction of doubly linked chains.

A chain is a sequence of materialised nodes and segments of unknown length; segments are unfolded on demand when
a boundary pointer is read, and nodes that the program has finished with are folded back at loop headers."""
from dom import *
from engine import *
import join


class Seg:
    """a run of nodes: length (Lin), flags valid for every node in it"""
    __slots__ = ('id', 'n', 'freed', 'done', 'preds', 'seq', 'elem')
    _c = [0]

    def __init__(self, n, freed=False, done=False, preds=frozenset(), seq=None, id=None, elem=None):
        if id is None:
            Seg._c[0] += 1; id = Seg._c[0]
        self.id = id; self.n = n; self.freed = freed; self.done = done; self.preds = preds; self.seq = seq or (('q', 's%d' % id),); self.elem = elem

    def with_(self, **kw):
        d = dict(n=self.n, freed=self.freed, done=self.done, preds=self.preds, seq=self.seq, id=self.id, elem=self.elem); d.update(kw)
        return Seg(**d)

    def __repr__(self): return 'Seg%d(%r%s)' % (self.id, self.n, ' done' if self.done else '')


class Chain:
    """items: tuple of region ids (int) and Seg"""
    def __init__(self, name, items): self.name = name; self.items = tuple(items)
    def copy(self): return Chain(self.name, self.items)
    def __repr__(self): return 'Chain(%s %r)' % (self.name, self.items)
    def index(self, rid):
        for i, x in enumerate(self.items):
            if x == rid: return i
        raise Undecided('node %d not in chain %s' % (rid, self.name))
    def walk(self, w):
        out = []
        w.key.append(('chain', self.name))
        for x in self.items:
            if isinstance(x, Seg):
                w.key.append(('seg', x.freed, x.done, tuple(sorted(p for p in x.preds)), tuple(e if e[0] == 'q' else 'v' for e in x.seq) if x.done else None))
                out.append(x.with_(n=w.lin(x.n)))
            else:
                w.key.append(w.rnum(x)); out.append(x)
        return Chain(self.name, out)
    def length(self):
        n = ZERO
        for x in self.items: n = n + (x.n if isinstance(x, Seg) else 1)
        return n


class NodeBase(Lazy):
    """node of chain `cname`; class-level identity so that loop keys match"""
    def __init__(self, shape, cname): self.shape = shape; self.cname = cname; self.name = shape.name + ' element'
    def key(self): return ('node', self.cname)
    @property
    def fields(self):
        sh = self.shape
        return {sh.o_next: (8, lambda E, st, r: sh.neighbour(E, st, self.cname, r.id, +1)),
                sh.o_prev: (8, lambda E, st, r: sh.neighbour(E, st, self.cname, r.id, -1)),
                sh.o_value: (8, lambda E, st, r: sh.node_value(E, st, self.cname, r))}


class HdrBase(Lazy):
    def __init__(self, shape, cname): self.shape = shape; self.cname = cname; self.name = shape.name
    def key(self): return ('hdr', self.cname)
    @property
    def fields(self):
        sh = self.shape
        return {sh.o_first: (8, lambda E, st, r: sh.end(E, st, self.cname, 0)),
                sh.o_last: (8, lambda E, st, r: sh.end(E, st, self.cname, -1)),
                sh.o_size: (8, lambda E, st, r: st.ghost['chains'][self.cname].length())}


class DLL:
    def __init__(self, hdr, node, name='list'):
        self.name = name
        self.o_first, self.o_last, self.o_size, self.hdr_size = hdr['first'], hdr['last'], hdr['size'], hdr['__size']
        self.o_next, self.o_prev, self.o_value, self.node_size = node['next'], node['previous'], node['value'], node['__size']
        self.valuehook = None       # fn(E, st, cname, region) -> Lin
        self.visit = {}; self.maxlen = 1 << 28

    # ---- construction
    def make(self, E, st, cname, spec):
        """spec: list of 'seg' / 'node' -> (hdr region, [rids/Seg])"""
        items = []
        ch = st.ghost.setdefault('chains', {})
        hdr = E.new_region(st, self.name, self.hdr_size, 'heap', HdrBase(self, cname))
        ch[cname] = Chain(cname, ())
        for x in spec:
            if x == 'seg': items.append(Seg(sym('len', 0, self.maxlen)))
            else: items.append(self.new_node(E, st, cname).id)
        ch[cname] = Chain(cname, items)
        return hdr

    def new_node(self, E, st, cname):
        return E.new_region(st, self.name + ' element', self.node_size, 'heap', NodeBase(self, cname))

    def node_value(self, E, st, cname, r):
        if self.valuehook: return self.valuehook(E, st, cname, r)
        return sym('v%d' % r.id, 0, SIZE_MAX, tag='user')

    # ---- on-demand unfolding
    def unfold(self, st, E, cname, i, side):
        """choice: segment i is empty, or has a node at the given end"""
        seg = st.ghost['chains'][cname].items[i]
        def upd(s, items):
            s.ghost['chains'][cname] = Chain(cname, items)
        def empty(s):
            s.num.assume_eq(seg.n)
            it = s.ghost['chains'][cname].items
            upd(s, it[:i] + it[i + 1:])
        def node(s):
            s.num.assume_ge(seg.n - 1)
            it = s.ghost['chains'][cname].items
            r = self.new_node(E, s, cname)
            if seg.freed: s.wr(r.id).alive = False
            if seg.preds:
                v = self.node_value(E, s, cname, r)
                rr = s.wr(r.id); rr.memo = rr.memo + ((K(self.o_value), 8, v),)
                for p in seg.preds: s.num.assume_ne(v - s.ghost['predtab'][p])
            sg = seg.with_(n=seg.n - 1)
            if seg.done:
                q = seg.seq[0] if len(seg.seq) == 1 else ('q', '?')
                if q[1] != '?' and q[0] in ('q', 'sl'):
                    qi, qj = (q[2], q[3]) if q[0] == 'sl' else (0, 0)
                    v = self.node_value(E, s, cname, r)
                    rr = s.wr(r.id); rr.memo = tuple(m for m in rr.memo if m[0].c != self.o_value) + ((K(self.o_value), 8, v),)
                    s.ghost['lastof'] = s.ghost.get('lastof', ()) + ((v, q[1], qi if side < 0 else -qj - 1),)
                    sg = sg.with_(seq=(('sl', q[1], qi + (side < 0), qj + (side > 0)),))
                else: sg = sg.with_(seq=(('q', '?'),))
            new = (r.id, sg) if side < 0 else (sg, r.id)
            upd(s, it[:i] + new + it[i + 1:])
        if st.num.entails_ge(seg.n - 1): alts = [node]
        else: alts = [empty, node]
        raise Split(alts, 'segment')

    def neighbour(self, E, st, cname, rid, d):
        c = st.ghost['chains'][cname]
        i = c.index(rid) + d
        if i < 0 or i >= len(c.items): return ZERO
        x = c.items[i]
        if isinstance(x, Seg): self.unfold(st, E, cname, i, -1 if d > 0 else +1)
        return E.ptr(st.regions[x])

    def end(self, E, st, cname, which):
        c = st.ghost['chains'][cname]
        if not c.items: return ZERO
        i = 0 if which == 0 else len(c.items) - 1
        x = c.items[i]
        if isinstance(x, Seg): self.unfold(st, E, cname, i, -1 if which == 0 else +1)
        return E.ptr(st.regions[x])

    # ---- reading back the final heap
    def field(self, E, st, r, off):
        """value if explicitly present (written or already read), else None = as in the initial heap"""
        for e in reversed(r.log):
            if e[1].const and e[1].c == off: return st.num.norm(e[3])
            if not e[1].const or e[0] != 'w': raise Undecided('odd write to ' + r.name)
        if not isinstance(r.base, Lazy): raise BadShape('uninitialised field of %s' % r.name)
        for o, s, v in r.memo:
            if o.c == off: return st.num.norm(v)
        return None

    def follow(self, E, st, v, chain, idx_if_none):
        """-> None | rid | (chain, i) for a segment"""
        if v is not None:
            if v.const and v.c == 0: return None
            r, off = E.resolve(st, v)
            if r is None or not st.num.entails_eq(off): raise BadShape('link %r does not point to an element' % v)
            return r.id
        cname, i = chain, idx_if_none
        c = st.ghost['chains'][cname]
        if i < 0 or i >= len(c.items): return None
        x = c.items[i]
        return (cname, i) if isinstance(x, Seg) else x

    def readback(self, E, st, hrid, d=+1, limit=64):
        """sequence of rids / Seg found by following next (d=+1) or previous (d=-1) pointers"""
        h = st.regions[hrid]
        if not h.alive: raise BadShape('header released')
        out = []
        v = self.field(E, st, h, self.o_first if d > 0 else self.o_last)
        cn = h.base.cname if isinstance(h.base, HdrBase) else None
        cur = self.follow(E, st, v, cn, 0 if d > 0 else (len(st.ghost['chains'][cn].items) - 1 if cn else 0))
        while cur is not None:
            if len(out) > limit: raise BadShape('links form a cycle')
            if isinstance(cur, tuple):
                cn, i = cur
                c = st.ghost['chains'][cn]
                out.append(c.items[i])
                cur = self.follow(E, st, None, cn, i + d)
                # the first node after a segment is an initial node
                continue
            r = st.regions[cur]
            if r.id in out: raise BadShape('links form a cycle')
            if not r.alive: raise BadShape('a released element is still linked')
            out.append(cur)
            v = self.field(E, st, r, self.o_next if d > 0 else self.o_prev)
            if isinstance(r.base, NodeBase):
                cn = r.base.cname
                i = st.ghost['chains'][cn].index(cur) + d if v is None else 0
            else: cn = None; i = 0
            cur = self.follow(E, st, v, cn, i)
        return out

    def value_of(self, E, st, rid):
        return E.read(st, st.regions[rid], K(self.o_value), 8)

    # ---- folding at loop headers
    def fold(self, E, st, f, nb, inst, wm, wma):
        st.ghost.setdefault('predtab', {})
        refs = self.references(E, st)
        qmap = []
        names = sorted(st.ghost.get('chains', {}), key=lambda n: (0 if not n.startswith('new') else 1, n))
        for cname in names:
            if not cname.startswith('new'): self.fold_chain(E, st, cname, refs, qmap)
        # freshly built lists
        for rid in sorted(st.regions):
            r = st.regions.get(rid)
            if r is not None and r.kind == 'heap' and r.alive and r.size == K(self.hdr_size) and r.log and \
                    (not isinstance(r.base, Lazy) or (isinstance(r.base, HdrBase) and r.base.cname.startswith('new'))):
                self.adopt(E, st, rid, refs, qmap)

        st.ghost.pop('lastof', None)

    def references(self, E, st):
        """region ids referenced from live registers, ghosts and non-chain memory"""
        refs = {}
        def add(v, who):
            if isinstance(v, Lin):
                for a, _ in st.num.norm(v).t:
                    if a.kind == 'base': refs.setdefault(a.rid, set()).add(who)
        for f in st.frames:
            la = join.live_args(f.fn)
            for i, a in enumerate(f.args):
                if i in la: add(a, 'reg')
            idx = f.idx if f is st.frames[-1] else f.idx + 1
            for r in join.live_at(f.fn, f.block, idx):
                if r in f.regs: add(f.regs[r], 'reg')
        for k, v in st.ghost.items():
            if isinstance(v, (tuple, list)):
                for x in v: add(x, 'ghost')
        for r in st.regions.values():
            if not r.alive: continue
            for e in r.log:
                if e[0] in ('w', 'f'): add(e[3], r.id)
        return refs

    def fold_chain(self, E, st, cname, refs, qmap):
        c = st.ghost['chains'][cname]
        items = []
        ch = False
        vis = st.ghost.get('visited')
        for x in c.items:
            if not isinstance(x, Seg):
                r = st.regions[x]
                ok = x not in refs and (not r.log or not r.alive)
                if ok:
                    val = None
                    for o, s, v in r.memo:
                        if o.c == self.o_value: val = v
                    preds = set()
                    if val is not None:
                        for ne in st.num.nes:
                            e = st.num.norm(ne)
                            for sg in (1, -1):
                                t = val - e.scale(sg)
                                # e = +-(val - t)
                                if not any(a.tag == 'user' and a in [z for z, _ in val.t] for a, _ in t.t) and t.t:
                                    k = 'p%s' % repr(t)
                                    st.ghost['predtab'][k] = t; preds.add(k)
                    vok = True
                    if vis is not None and cname == self.visit.get('chain'):
                        # visited values are consumed in order
                        if vis and val is not None and st.num.entails_eq(vis[0] - val):
                            vis = vis[1:]
                        else: vok = False
                    if vok:
                        seg = Seg(ONE, freed=not r.alive, done=True, preds=frozenset(preds), seq=(('v', val),) if val is not None else (('q', '?'),))
                        if items and isinstance(items[-1], Seg) and items[-1].done and items[-1].freed == seg.freed:
                            o = items[-1]
                            items[-1] = o.with_(n=o.n + 1, preds=o.preds & seg.preds, seq=o.seq + seg.seq)
                        else: items.append(seg)
                        ch = True
                        self.drop(st, x)
                        continue
                items.append(x)
            else:
                if items and isinstance(items[-1], Seg) and items[-1].done and x.done and items[-1].freed == x.freed:
                    o = items[-1]
                    items[-1] = o.with_(n=o.n + x.n, preds=o.preds & x.preds, seq=o.seq + x.seq)
                else: items.append(x)
        if vis is not None and cname == self.visit.get('chain'): st.ghost['visited'] = vis
        if ch:
            st.ghost['chains'][cname] = Chain(cname, items)
        # name the contents of done segments by position
        it = list(st.ghost['chains'][cname].items)
        if not cname.startswith('new'):
            for k, x in enumerate(it):
                if isinstance(x, Seg) and x.done:
                    q = (('q', '%s.%d' % (cname, k)),)
                    if x.seq != q: qmap.append((x.seq, q))
                    it[k] = x.with_(seq=q)
            st.ghost['chains'][cname] = Chain(cname, it)
        else: self.rename(st, cname, qmap)

    def rename(self, st, cname, qmap):
        it = list(st.ghost['chains'][cname].items)
        for k, x in enumerate(it):
            if isinstance(x, Seg) and x.done:
                seq = self.canon_seq(st, x.seq, qmap)
                it[k] = x.with_(seq=seq)
        st.ghost['chains'][cname] = Chain(cname, it)

    def canon_seq(self, st, seq, qmap):
        seq = list(seq)
        def isat(e, q, pos):
            return e[0] == 'v' and any(qq == q and p == pos and st.num.entails_eq(v - e[1]) for v, qq, p in st.ghost.get('lastof', ()))
        for m, e in enumerate(seq):
            if e[0] == 'sl':
                q, i, j = e[1:]
                if m >= i and m + j < len(seq) and all(isat(seq[m - i + t], q, t) for t in range(i)) and all(isat(seq[m + 1 + t], q, t - j) for t in range(j)):
                    seq[m - i:m + j + 1] = [('q', q)]
                break
        seq = tuple(seq)
        for old, new in qmap:
            if len(old) == len(seq) and all(a == b or (a[0] == 'v' and b[0] == 'v' and st.num.entails_eq(a[1] - b[1])) for a, b in zip(old, seq)):
                return new
        if len(seq) == 1 and seq[0][0] == 'q' and not any(seq == new for _, new in qmap): return seq
        return (('q', '?'),)

    def drop(self, st, rid):
        """forget node rid: its neighbours' cached links go back to the lazy form"""
        r = st.regions.pop(rid); st.own.discard(rid)
        a = r.atom
        for o in list(st.regions.values()):
            if any(x is a for _, _, v in o.memo if isinstance(v, Lin) for x, _ in v.t):
                rr = st.wr(o.id)
                rr.memo = tuple(m for m in rr.memo if not any(x is a for x, _ in m[2].t))

    def adopt(self, E, st, rid, refs, qmap):
        """a list built during the analysis becomes a chain of its own"""
        try:
            fw = self.readback(E, st, rid, +1); bw = self.readback(E, st, rid, -1)
        except (BadShape, Undecided): return
        if fw != list(reversed(bw)) or not fw: return
        # nodes must be referenced only from within the list
        ok = set(x for x in fw if not isinstance(x, Seg)) | {rid}
        n = ZERO; seq = ()
        for x in fw:
            if isinstance(x, Seg):
                n = n + x.n; seq = seq + x.seq; continue
            if any(w == 'reg' or w == 'ghost' or w not in ok for w in refs.get(x, ())): return
            r = st.regions[x]
            if r.size != K(self.node_size): return
            seq = seq + (('v', self.value_of(E, st, x)),); n = n + 1
        h = st.wr(rid)
        if isinstance(h.base, HdrBase): cname = h.base.cname
        else: cname = 'new%d' % len([c for c in st.ghost['chains'] if c.startswith('new')])
        seg = Seg(n, done=True, seq=self.canon_seq(st, seq, qmap))
        st.ghost['chains'][cname] = Chain(cname, (seg,))
        h.log = tuple(e for e in h.log if not (e[1].const and e[1].c in (self.o_first, self.o_last)))
        h.base = HdrBase(self, cname); h.memo = ()
        for x in ok:
            if x != rid: self.drop(st, x)


class BadShape(Exception): pass
