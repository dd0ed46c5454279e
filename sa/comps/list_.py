"""Linked lists (list.c): shape analysis of every public operation on a list of arbitrary length."""
from harness import *
from shapes import *

PUBLIC = ['make_list', 'destroy_list', 'list_elem_get_value', 'list_get_first', 'list_get_last', 'list_get', 'list_get_by_index',
          'list_next', 'list_previous', 'list_append', 'list_prepend', 'list_insert_before', 'list_remove', 'list_pop_first',
          'list_pop_last', 'list_empty', 'list_size', 'list_foreach', 'list_copy']


def layout():
    return DLL(build.layout(['list.h', 'list_imp.h'], 'list', ['first', 'last', 'size']),
               build.layout(['list.h', 'list_imp.h'], 'list_elem', ['value', 'previous', 'next']))


class ListHarness:
    def __init__(self, h):
        self.h = h; self.E = h.E; self.sh = layout()
        self.E.joiner.fold = self.sh.fold
        self.E.callbacks['visitor'] = self.visitor

    def visitor(self, E, st, args, inst):
        if len(args) != 2 or not st.num.entails_eq(args[1] - st.ghost['arg']):
            E.violation('post', 'callback is not given the caller\'s argument', st)
        if 'visited' in st.ghost: st.ghost['visited'] = st.ghost['visited'] + (args[0],)
        return None

    def fresh(self, spec):
        st = self.h.state()
        hdr = self.sh.make(self.E, st, 'L', spec)
        return st, hdr

    def items(self, s): return list(s.ghost['chains']['L'].items)

    def seq_is(self, s, hdr, expect, ctx):
        """final list must be exactly `expect` (rids / Seg), by next and by previous links, with the right size"""
        sh, E = self.sh, self.E
        try:
            fw = sh.readback(E, s, hdr, +1)
        except BadShape as b: return '%s: %s' % (ctx, b)
        try:
            bw = sh.readback(E, s, hdr, -1)
        except BadShape as b: return '%s (backwards): %s' % (ctx, b)
        ids = lambda l: [x.id if isinstance(x, Seg) else x for x in l if not (isinstance(x, Seg) and s.num.entails_eq(x.n))]
        if [str(type(x)) for x in fw] and False: pass
        e = [('S', x.id) if isinstance(x, Seg) else ('N', x) for x in expect]
        f = [('S', x.id) if isinstance(x, Seg) else ('N', x) for x in fw]
        b = [('S', x.id) if isinstance(x, Seg) else ('N', x) for x in reversed(bw)]
        if f != e: return '%s: element sequence by next links is %s, expected %s' % (ctx, self.show(fw), self.show(expect))
        if b != e: return '%s: element sequence by previous links is %s, expected %s' % (ctx, self.show(reversed(bw)), self.show(expect))
        n = ZERO
        for x in expect: n = n + (x.n if isinstance(x, Seg) else 1)
        sz = E.read(s, s.regions[hdr], K(sh.o_size), 8)
        if not s.num.entails_eq(E.canon(s, sz, 64) - n): return '%s: size field is %r, but the list has %r elements' % (ctx, s.num.norm(sz), s.num.norm(n))
        return True

    def show(self, l): return '[' + ', '.join('...' if isinstance(x, Seg) else 'e%d' % x for x in l) + ']'

    def values_kept(self, s, skip=()):
        for x in self.items(s):
            if isinstance(x, Seg) or x in skip: continue
            r = s.regions[x]
            if any(e[1].const and e[1].c == self.sh.o_value for e in r.log): return 'value of an untouched element was overwritten'
        return True

    def leak(self, s, keep):
        for r in s.regions.values():
            if r.kind == 'heap' and r.alive and r.id not in keep and not (isinstance(r.base, NodeBase) and r.base.cname == 'L' and r.id in s.ghost['chains']['L'].items and not s.ghost.get('removed') == r.id):
                return 'heap block (%s) neither released nor reachable' % r.name
        return True

    def run(self):
        for f in PUBLIC: self.h.fn(f)
        self.constructors(); self.readers(); self.mutators(); self.loops()

    def constructors(self):
        h, E = self.h, self.E
        for s, r in h.call(h.state(), 'make_list'):
            def ok(s):
                R, off = E.resolve(s, r)
                if R is None: return 'does not return a new object'
                s.ghost.setdefault('chains', {})['L'] = Chain('L', ())
                return self.seq_is(s, R.id, [], 'new list')
            h.oblige(s, 'make_list returns an empty list', ok)

    def readers(self):
        h, E, sh = self.h, self.E, self.sh
        for fn, which in (('list_get_first', 0), ('list_get_last', -1), ('list_empty', None), ('list_size', None)):
            st, hdr = self.fresh(['seg'])
            for s, r in h.call(st, fn, E.ptr(hdr)):
                def ok(s, r=r):
                    it = self.items(s)
                    if fn == 'list_size':
                        if not s.num.entails_eq(E.canon(s, r, 64) - s.ghost['chains']['L'].length()): return 'returns %r' % r
                    elif fn == 'list_empty':
                        e = h.eq(s, s.ghost['chains']['L'].length(), 0)
                        if h.boolv(s, r) != e: return 'wrong answer for a%s list' % ('n empty' if e else ' nonempty')
                    else:
                        want = sh.end(E, s, 'L', which)
                        if not s.num.entails_eq(r - want): return 'returns %r' % r
                    return self.seq_is(s, hdr.id, self.items(s), 'list unchanged')
                h.oblige(s, '%s is exact' % fn, ok)
        st, hdr = self.fresh(['seg', 'node', 'seg'])
        e = self.items(st)[1]
        for fn, d in (('list_next', 1), ('list_previous', -1), ('list_elem_get_value', 0)):
            for s, r in h.call(st, fn, E.ptr(st.regions[e])):
                def ok(s, r=r):
                    if d == 0: want = sh.value_of(E, s, e)
                    else: want = sh.neighbour(E, s, 'L', e, d)
                    if not s.num.entails_eq(r - want): return 'returns %r' % r
                    return self.seq_is(s, hdr.id, self.items(s), 'list unchanged')
                h.oblige(s, '%s is exact' % fn, ok)

    def mutators(self):
        h, E, sh = self.h, self.E, self.sh
        V = sym('V', 0, SIZE_MAX, tag='user')
        def added(s, r, want_at, before, ctx, hdr):
            R, off = E.resolve(s, r)
            if R is None or R.id in [x for x in before if not isinstance(x, Seg)] or not h.eq(s, off, 0): return 'does not return the new element'
            if want_at is None: exp = before + [R.id]
            else: exp = before[:want_at] + [R.id] + before[want_at:]
            ok = self.seq_is(s, hdr.id, exp, ctx)
            if ok is not True: return ok
            if not s.num.entails_eq(sh.value_of(E, s, R.id) - V): return 'the new element does not hold the given value'
            return self.values_kept(s)
        for fn in ('list_append', 'list_prepend'):
            st, hdr = self.fresh(['seg'])
            for s, r in h.call(st, fn, E.ptr(hdr), V):
                h.oblige(s, '%s adds exactly one element at the right end' % fn,
                         lambda s: added(s, r, None if fn == 'list_append' else 0, self.items(s), fn, hdr))
                h.oblige(s, '%s leaks nothing' % fn, lambda s: self.leak(s, {hdr.id, E.resolve(s, r)[0].id if E.resolve(s, r)[0] else 0}), kind='leak')
        st, hdr = self.fresh(['seg', 'node', 'seg'])
        e = self.items(st)[1]
        for s, r in h.call(st, 'list_insert_before', E.ptr(hdr), V, E.ptr(st.regions[e])):
            h.oblige(s, 'list_insert_before inserts exactly there',
                     lambda s: added(s, r, self.items(s).index(e), self.items(s), 'list_insert_before', hdr))
            h.oblige(s, 'list_insert_before leaks nothing', lambda s: self.leak(s, {hdr.id, E.resolve(s, r)[0].id if E.resolve(s, r)[0] else 0}), kind='leak')
        def removed(s, e, hdr, ctx):
            it = [x for x in self.items(s) if x != e]
            ok = self.seq_is(s, hdr.id, it, ctx)
            if ok is not True: return ok
            return self.values_kept(s)
        st, hdr = self.fresh(['seg', 'node', 'seg'])
        e = self.items(st)[1]
        for s, r in h.call(st, 'list_remove', E.ptr(hdr), E.ptr(st.regions[e])):
            h.oblige(s, 'list_remove takes out exactly that element', lambda s: removed(s, e, hdr, 'list_remove'))
            h.oblige(s, 'list_remove releases the element', lambda s: not s.regions[e].alive or 'element not released', kind='leak')
            h.oblige(s, 'list_remove leaks nothing', lambda s: self.leak(s, {hdr.id}), kind='leak')
        for fn, which in (('list_pop_first', 0), ('list_pop_last', -1)):
            st, hdr = self.fresh(['seg'])
            v0 = sym('x')
            for s, r in h.call(st, fn, E.ptr(hdr)):
                def ok(s, r=r):
                    it = self.items(s)
                    if not it:
                        if not h.eq(s, r, 0): return 'returns %r for an empty list' % r
                        return self.seq_is(s, hdr.id, [], fn)
                    e = it[which]
                    if isinstance(e, Seg):
                        if not s.num.entails_ge(e.n - 1): sh.unfold(s, E, 'L', 0 if which == 0 else len(it) - 1, -1 if which == 0 else 1)
                        return 'nothing was taken out'
                    val = self.initial_value(s, e)
                    if val is None or not s.num.entails_eq(r - val): return 'does not return the value of the element at that end'
                    ok = removed(s, e, hdr, fn)
                    if ok is not True: return ok
                    return True
                h.oblige(s, '%s takes out the element at that end and returns its value' % fn, ok)
                def rel(s):
                    it = self.items(s)
                    if it and not isinstance(it[which], Seg) and s.regions[it[which]].alive: return 'element not released'
                    return self.leak(s, {hdr.id})
                h.oblige(s, '%s releases the element' % fn, rel, kind='leak')

    def initial_value(self, s, e):
        for o, sz, v in s.regions[e].memo:
            if o.c == self.sh.o_value: return v
        return None

    def loops(self):
        h, E, sh = self.h, self.E, self.sh
        V = sym('V', 0, SIZE_MAX, tag='user')
        st, hdr = self.fresh(['seg'])
        for s, r in h.call(st, 'list_get', E.ptr(hdr), V):
            def ok(s, r=r):
                it = self.items(s)
                R, off = E.resolve(s, r)
                pk = 'p%s' % repr(V)
                if R is not None and R.id not in it: return 'returns something that is not an element'
                for i, x in enumerate(it):
                    if R is not None and x == R.id:
                        if not s.num.entails_eq(off): return 'returns a bad pointer'
                        v = sh.value_of(E, s, x)
                        if not h.eq(s, v, V): return 'returns an element holding another value'
                        return self.seq_is(s, hdr.id, it, 'list unchanged')
                    if isinstance(x, Seg):
                        if pk in x.preds: continue
                        if s.num.entails_eq(x.n): continue
                        if not x.done: sh.unfold(s, E, 'L', i, -1)     # elements skipped without looking
                        raise Undecided('skipped elements')
                    v = sh.value_of(E, s, x)
                    if h.eq(s, v, V): return 'skips an element holding the value'
                if R is None and not h.eq(s, r, 0): return 'returns %r' % r
                return self.seq_is(s, hdr.id, it, 'list unchanged')
            h.oblige(s, 'list_get returns the first element with that value, or NULL', ok)
        for idx in (sym('idx', -(1 << 31), -1), sym('idx', 0, (1 << 31) - 1)):
            st, hdr = self.fresh(['seg'])
            for s, r in h.call(st, 'list_get_by_index', E.ptr(hdr), idx):
                def ok(s, r=r):
                    it = self.items(s)
                    R, off = E.resolve(s, r)
                    if R is None:
                        if not h.eq(s, r, 0): return 'returns %r' % r
                        if not h.ge(s, idx): return True
                        if h.ge(s, idx - s.ghost['chains']['L'].length()): return True
                        return 'returns NULL for an index in range'
                    if R.id not in it or not s.num.entails_eq(off): return 'returns something that is not an element'
                    pos = ZERO
                    for x in it:
                        if x == R.id: break
                        pos = pos + (x.n if isinstance(x, Seg) else 1)
                    if not h.ge(s, idx): return 'returns an element for a negative index'
                    if not h.eq(s, pos, idx): return 'returns the element at position %r instead' % s.num.norm(pos)
                    return self.seq_is(s, hdr.id, it, 'list unchanged')
                h.oblige(s, 'list_get_by_index returns the element at that position, or NULL', ok)
        arg = sym('arg', 0, SIZE_MAX, tag='user')
        st, hdr = self.fresh(['seg'])
        st.ghost['visited'] = (); st.ghost['arg'] = arg; sh.visit = {'chain': 'L'}
        for s, r in h.call(st, 'list_foreach', E.ptr(hdr), sym('f', 4096, SIZE_MAX, tag='visitor'), arg):
            def ok(s, r=r):
                vis = list(s.ghost['visited'])
                for i, x in enumerate(self.items(s)):
                    if isinstance(x, Seg):
                        if x.done or s.num.entails_eq(x.n): continue
                        sh.unfold(s, E, 'L', i, -1)
                    v = self.initial_value(s, x)
                    if not vis or v is None or not s.num.entails_eq(vis[0] - v): return 'an element is not visited in turn'
                    vis.pop(0)
                if vis: return 'visits something twice or out of order'
                return self.seq_is(s, hdr.id, self.items(s), 'list unchanged')
            h.oblige(s, 'list_foreach visits each value once, in order', ok)
        sh.visit = {}
        st, hdr = self.fresh(['seg'])
        for s, r in h.call(st, 'list_copy', E.ptr(hdr)):
            def ok(s, r=r):
                R, off = E.resolve(s, r)
                if R is None or R.id == hdr.id or not s.num.entails_eq(off): return 'does not return a new list'
                it = self.items(s)
                ok = self.seq_is(s, hdr.id, it, 'original list unchanged')
                if ok is not True: return ok
                try:
                    fw = sh.readback(E, s, R.id, +1); bw = sh.readback(E, s, R.id, -1)
                except BadShape as b: return 'copy: %s' % b
                ids = lambda l: [('S', x.id) if isinstance(x, Seg) else x for x in l]
                if ids(fw) != ids(list(reversed(bw))): return 'copy: links inconsistent'
                if set(x for x in fw if not isinstance(x, Seg)) & set(x for x in it if not isinstance(x, Seg)): return 'copy shares an element with the original'
                def flat(l):
                    out = []
                    for x in l:
                        if isinstance(x, Seg):
                            if s.num.entails_eq(x.n): continue
                            if not x.done: out.append(('q', 'raw%d' % x.id))
                            else: out.extend(x.seq)
                        else: out.append(('v', sh.value_of(E, s, x)))
                    return out
                a, b = flat(it), flat(fw)
                if any(x == ('q', '?') for x in a + b): raise Undecided('copy contents')
                if len(a) != len(b) or not all(x == y or (x[0] == y[0] == 'v' and s.num.entails_eq(x[1] - y[1])) for x, y in zip(a, b)):
                    return 'copy holds other values than the original'
                n = ZERO
                for x in fw: n = n + (x.n if isinstance(x, Seg) else 1)
                sz = E.canon(s, E.read(s, s.regions[R.id], K(sh.o_size), 8), 64)
                if not s.num.entails_eq(sz - n): return 'copy has the wrong size'
                return True
            h.oblige(s, 'list_copy gives an independent list with the same values', ok)
        st, hdr = self.fresh(['seg'])
        for s, r in h.call(st, 'destroy_list', E.ptr(hdr)):
            def ok(s, r=r):
                if s.regions[hdr.id].alive: return 'list header not released'
                for i, x in enumerate(self.items(s)):
                    if isinstance(x, Seg):
                        if x.freed or s.num.entails_eq(x.n): continue
                        if not x.done: sh.unfold(s, E, 'L', i, -1)
                        return 'an element is not released'
                    elif s.regions[x].alive: return 'an element is not released'
                return True
            h.oblige(s, 'destroy_list releases every element and the list', ok, kind='leak')


def run(res, tier):
    h = H(['fsalloc', 'list'], unroll=3 if tier == 'quick' else 5)
    h.ownership = False          # lists are summarised; leaks have obligations of their own
    ListHarness(h).run()
    res.add(h, 'list')
