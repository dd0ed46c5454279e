"""Opaque caller values: keys whose only accessible property is their place in a total (pre)order.

Keys and values are symbolic words tagged as the caller's own (a dereference or release is reported).  The comparison
and hash callbacks decide, case by case, how the ranks of two keys relate; equal ranks have equal hashes."""
from dom import *
from engine import *

INT_MAX = (1 << 31) - 1


class Opaque:
    def __init__(self, h):
        self.h = h; self.E = h.E
        self.rank = {}           # key atom -> rank symbol
        self.order = []          # key atoms in order of introduction
        self.CMP = sym('cmp', 4096, SIZE_MAX, tag='cmp'); self.HASH = sym('hash', 4096, SIZE_MAX, tag='hash')
        self.E.callbacks['cmp'] = self.cmp; self.E.callbacks['hash'] = self.hash
        self.ctx = None          # context argument expected by the comparison function
        self.probe = None        # if set: the search key that has to come first
        self.hashvals = None     # the hash values to consider (None: every one)
        self.pick = {}

    def key(self, name):
        k = sym('key_' + name, 0, SIZE_MAX, tag='user')
        self.rank[k.t[0][0]] = sym('rank_' + name, 0, (1 << 62))
        self.order.append(k.t[0][0])
        return k

    def value(self, name): return sym('value_' + name, 0, SIZE_MAX, tag='user')

    def rank_of(self, st, v):
        v0 = v
        if len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1 and v.t[0][0] in self.rank: return self.rank[v.t[0][0]]
        v = st.num.norm(v)
        if len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1 and v.t[0][0] in self.rank: return self.rank[v.t[0][0]]
        for a in self.order:
            if st.num.entails_eq(v - L(a)): return self.rank[a]
        return None

    def eq(self, st, a, b):
        """are the two keys equal to the caller?"""
        return self.E.decide(st, 'eq', self.rank_of(st, a) - self.rank_of(st, b))

    def cmpkeys(self, st, args):
        a, b = (self.rank_of(st, x) for x in args)
        if a is None or b is None:
            i = 0 if a is None else 1
            self.E.violation('post', 'the comparison function is given %r as its %s key, which is no key' % (st.num.norm(args[i]), ('first', 'second')[i]), st)
            raise Stop()
        d = b - a
        if self.E.decide(st, 'eq', d): return ZERO
        if self.E.decide(st, 'ge', -d - 1): return sym('cmpresult', 1, INT_MAX)
        return -sym('cmpresult', 1, INT_MAX + 1)

    def cmp(self, E, st, args, inst):
        if self.ctx is not None:
            if len(args) != 3 or not st.num.entails_eq(args[2] - self.ctx):
                E.violation('post', 'the comparison function is not given the context object', st)
        r = self.cmpkeys(st, args[:2])
        p = st.ghost.get('probe')
        if p is not None and not st.num.entails_eq(args[0] - p):
            E.violation('post', 'the comparison function is not given the search key first', st)
        return r

    def hash(self, E, st, args, inst):
        r = self.rank_of(st, args[0])
        if r is None:
            E.violation('post', 'the hash function is given %r, which is no key' % st.num.norm(args[0]), st); raise Stop()
        hs = st.ghost.get('hashes', ())
        for q, v in hs:
            if st.num.entails_eq(q - r): return v
        for q, v in hs:
            if E.decide(st, 'eq', q - r): return v
        if self.hashvals is None: v = sym('hash', 0, SIZE_MAX)
        else:
            a = r.t[0][0]
            if a not in self.pick: self.pick[a] = sym('pick', 0, len(self.hashvals) - 1)
            for i, c in enumerate(self.hashvals):
                if i == len(self.hashvals) - 1 or E.decide(st, 'eq', self.pick[a] - i): v = K(c); break
        st.ghost['hashes'] = hs + ((r, v),)
        return v
