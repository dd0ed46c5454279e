"""charstr_printf, charstr_vprintf: the protocol with the C library's formatting functions, for texts of every length."""
from harness import *
from comps.strings_ import region

PUBLIC = ['charstr_printf', 'charstr_vprintf']
INT_MAX = (1 << 31) - 1
EILSEQ = 84


class Printf:
    """va_lists are tracked as typestates: absent -> fresh -> consumed; ghost['va']: {(region, offset): (token, state)}"""

    def __init__(self):
        self.h = h = H(['charstr', 'list', 'fsalloc'], extra=[LIBC])
        self.E = E = h.E
        for f in PUBLIC: h.fn(f)
        for pre, m in (('llvm.va_start', self.va_start), ('llvm.va_copy', self.va_copy), ('llvm.va_end', self.va_end)):
            for sfx in ('', '.p0'): E.libc[pre + sfx] = m
        E.libc['vsnprintf'] = self.vsnprintf; E.libc['vsprintf'] = self.vsprintf
        E.callbacks['realloc'] = self.hook

    def hook(self, E, st, args, inst):
        n = E.canon(st, args[1], 64)
        p = st.num.norm(args[0])
        if not (p.const and p.c == 0):
            if E.decide(st, 'eq', n): E.heap_free(st, p); return ZERO
            raise Undecided('resize in a formatting function')
        if E.decide(st, 'ge', n - (1 << 63)):
            E.violation('post', 'asks for %r bytes, more than there can be' % st.num.norm(n), st); raise Stop()
        if 'oom' not in st.ghost:
            def null(s): s.ghost['oom'] = True
            def fine(s): s.ghost['oom'] = False
            raise Split([null, fine], 'reallocator outcome')
        return ZERO if st.ghost['oom'] else E.heap_alloc(st, n)

    def place(self, st, p, what):
        r, off = self.E.resolve(st, p)
        if r is None: raise Undecided('va_list pointer')
        off = st.num.norm(off)
        if not off.const: raise Undecided('va_list pointer')
        if not r.alive: self.E.violation('uaf', '%s a va_list whose scope has ended' % what, st); raise Stop()
        return (r.id, off.c)

    def lists(self, st): return dict(st.ghost.get('va', ()))
    def keep(self, st, va): st.ghost['va'] = tuple(sorted(va.items()))

    def fresh(self, st, p, what):
        k = self.place(st, p, what)
        v = self.lists(st).get(k)
        if v is None: self.E.violation('post', '%s a va_list that is not initialised' % what, st); raise Stop()
        if v[1] != 'fresh': self.E.violation('post', '%s a va_list that has already been consumed' % what, st); raise Stop()
        return k, v

    def va_start(self, E, st, a, i):
        k = self.place(st, a[0], 'va_start of'); va = self.lists(st)
        va[k] = ('arguments', 'fresh'); self.keep(st, va)

    def va_copy(self, E, st, a, i):
        _, v = self.fresh(st, a[1], 'va_copy reads'); k = self.place(st, a[0], 'va_copy to'); va = self.lists(st)
        va[k] = v; self.keep(st, va)

    def va_end(self, E, st, a, i):
        k = self.place(st, a[0], 'va_end of'); va = self.lists(st)
        if k not in va: E.violation('post', 'va_end of a va_list that is not initialised', st); raise Stop()
        del va[k]; self.keep(st, va)

    def format(self, st, fmt, ap):
        """common part: consumes the list, returns the text's length or None on failure; decisions only"""
        E = self.E
        k, v = self.fresh(st, ap, 'formatting with')
        if v[0] != 'arguments': raise Undecided('va_list')
        if not st.num.entails_eq(st.num.norm(fmt - E.ptr(st.regions[st.ghost['fmt']]))):
            E.violation('post', 'formats with another format string', st); raise Stop()
        return k

    def used(self, st, k):
        va = self.lists(st); va[k] = ('arguments', 'consumed'); self.keep(st, va)

    def vsnprintf(self, E, st, a, i):
        k = self.format(st, a[2], a[3])
        size = E.canon(st, a[1], 64)
        if self.bad:
            e = m_errno(E, st, a, i)
            if not E.decide(st, 'eq', size): E.access(st, a[0], 1, True)
            E.store(st, e, 4, sym('e', 1, 133)); self.used(st, k)
            return sym('r', -INT_MAX - 1, -1)
        n = self.n
        if not E.decide(st, 'eq', size):
            m = n if E.decide(st, 'ge', size - 1 - n) else size - 1
            if not E.decide(st, 'eq', m): E.copymem(st, a[0], E.ptr(st.regions[st.ghost['text']]), m)
            E.store(st, a[0] + m, 1, ZERO)
        self.used(st, k)
        return n

    def vsprintf(self, E, st, a, i):
        k = self.format(st, a[1], a[2])
        if self.bad:
            E.access(st, a[0], 1, True)
            E.store(st, m_errno(E, st, a, i), 4, sym('e', 1, 133)); self.used(st, k)
            return sym('r', -INT_MAX - 1, -1)
        E.copymem(st, a[0], E.ptr(st.regions[st.ghost['text']]), self.n + 1)
        self.used(st, k)
        return self.n

    def check(self, fn, bad, custom):
        h, E = self.h, self.E
        self.bad = bad
        self.n = n = sym('n', 0, INT_MAX)
        j = sym('j', 0, INT_MAX)
        states = [h.state()]
        if custom: states = [s for s, _ in h.call(states[0], 'fs_set_reallocator', sym('F', 4096, SIZE_MAX, tag='realloc'))]
        for st in states:
            text = E.new_region(st, 'formatted text', n + 1, 'heap', CStr(n, 'text'), ro=True)
            fmt = region(h, st, [sym('f', 1, 255), 0], 'format string')
            st.ghost['text'] = text.id; st.ghost['fmt'] = fmt.id
            args = [E.ptr(fmt)]
            if fn == 'charstr_vprintf':
                ap = E.new_region(st, "caller's va_list", 24, 'heap', Unknown('ap'))
                self.keep(st, {(ap.id, 0): ('arguments', 'fresh')})
                args.append(E.ptr(ap))
                mine = {(ap.id, 0)}
            else: mine = set()
            old = set(st.regions)
            for s, p in h.call(st, fn, *args):
                def ok(s):
                    live = [r.id for r in s.regions.values() if r.kind == 'heap' and r.alive and r.id not in old]
                    if set(self.lists(s)) != mine: return 'a va_list is left open' if set(self.lists(s)) - mine else "the caller's va_list is closed"
                    if not bad and custom and s.ghost.get('oom'):
                        if not h.eq(s, p, 0): return 'does not return NULL although no memory was available'
                        return not live or 'blocks are left allocated'
                    if bad:
                        if not h.eq(s, p, 0): return 'formatting fails but the result is not NULL'
                        if live: return 'formatting fails and a block is left allocated'
                        e = E.canon(s, E.load(s, m_errno(E, s, (), None), 4), 32, True)
                        return h.eq(s, e, EILSEQ) or 'formatting fails and errno is %r, not EILSEQ' % e
                    R, off = E.resolve(s, p)
                    if R is None: return 'the result is not the formatted text'
                    if R.kind != 'heap' or not R.alive or R.id in old or not h.eq(s, off, 0): return 'the result is not a fresh block'
                    if live != [R.id]: return 'other blocks are left allocated'
                    if not h.ge(s, R.size - n - 1): return 'the block is too small'
                    z = E.canon(s, E.read(s, R, n, 1), 8)
                    if not h.eq(s, z, 0): return 'the text is not NUL-terminated'
                    if not h.ge(s, n - 1, j): return True
                    a = E.canon(s, E.read(s, R, j, 1), 8); b = E.canon(s, E.read(s, s.regions[text.id], j, 1), 8)
                    return h.eq(s, a, b) or 'byte %r of the result is not that of the formatted text' % j
                h.oblige(s, '%s returns the whole text, or NULL with EILSEQ' % fn, ok)


def run(res, tier):
    x = Printf()
    for fn in PUBLIC:
        for bad in (False, True):
            for custom in (False, True): x.check(fn, bad, custom)
    res.add(x.h, 'printf')
