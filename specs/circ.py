"""Contracts of circular_buffer.c

A buffer at address b stores the byte string  content(b) = [ M[buffer + wrap(start+j)] | 0 <= j < in_use ].
"""
import z3
from vcg import *

MAXSIZE = 1 << 31


class CB:
    """view of a circular buffer in one heap"""

    def __init__(self, S, b):
        self.S, self.b = S, b
        f = S.f
        self.size, self.start, self.stop, self.buf = (f('circ_buf.size', b), f('circ_buf.start_ind', b),
                                                      f('circ_buf.stop_ind', b), f('circ_buf.buffer', b))

    def in_use(self):
        return ite(self.stop >= self.start, self.stop - self.start, self.size - self.start + self.stop)

    def wrap(self, x):
        return ite(x >= self.size, x - self.size, x)

    def addr(self, j):
        """address of the j-th stored byte"""
        return self.buf + self.wrap(self.start + j)

    def at(self, j):
        return self.S.byte(self.addr(j))

    def wf(self):
        return And(self.size >= 1, self.size <= MAXSIZE, self.start >= 0, self.start < self.size,
                   self.stop >= 0, self.stop < self.size, self.buf > 0)

    def same(self, o):
        return And(self.size == o.size, self.start == o.start, self.stop == o.stop, self.buf == o.buf)


def in_region(st, a, n):
    alts = [And(b <= a, a + n <= b + sz) for b, sz in st.regions]
    return Or(n <= 0, *alts)


IND = ('circ_buf.start_ind', 'circ_buf.stop_ind')


class CircSpec(Spec):
    props = ('C01', 'C02')

    def pre(self, c):
        b = CB(c.S0, c.a0)
        return [('buffer well formed', And(c.a0 != 0, b.wf()))]

    def regions(self, c):
        b = CB(c.S0, c.a0)
        return [(b.buf, b.size)]

    def o(self, c):
        return CB(c.S0, c.a0)

    def n(self, c):
        return CB(c.S1, c.a0)

    def keep(self, c):
        """the memory and size stay"""
        o, n = self.o(c), self.n(c)
        return And(n.size == o.size, n.buf == o.buf, n.wf())

    def kept_content(self, c, upto):
        """the first `upto` bytes of the new content are those of the old one, and nothing moved
        (start unchanged, or nothing kept)"""
        o, n = self.o(c), self.n(c)
        return Or(upto == 0, n.start == o.start)


class Init(CircSpec):
    key = 'circ_buf_init'

    def pre(self, c):
        return [('arguments', And(c.a0 != 0, c.a1 > 0, c.a2 >= 1, c.a2 <= MAXSIZE))]

    def regions(self, c):
        return []

    def post(self, c):
        n = self.n(c)
        return [('empty buffer over the given memory', And(n.wf(), n.size == c.a2, n.buf == c.a1, n.in_use() == 0))]

    def mods(self, c):
        return [('at', f, c.a0) for f in IND + ('circ_buf.size', 'circ_buf.buffer')]


class InUse(CircSpec):
    key = 'circ_buf_in_use'

    def post(self, c):
        return [('[C01,C23] result is the number of stored bytes', c.r == self.o(c).in_use())]


class Available(CircSpec):
    key = 'circ_buf_available'

    def post(self, c):
        o = self.o(c)
        return [('[C01,C02] used plus free is one less than the size', c.r == o.size - 1 - o.in_use())]


def out_ok(c, *ps):
    """output pointers given and distinct"""
    r = []
    for i, p in enumerate(ps):
        if isinstance(p, Ref):
            continue
        r.append(p != 0)
    return And(*r)


def cell(S, p, w):
    if isinstance(p, Ref):
        return S.eng.load(S.eng._vst(S), p.lv)
    return S.f('cell.' + w, p)


def distinct(a, b):
    if isinstance(a, Ref) or isinstance(b, Ref):
        return TRUE
    return a != b


class Alloc(CircSpec):
    key = 'circ_buf_alloc'

    def pre(self, c):
        return CircSpec.pre(self, c) + [('output pointers', And(out_ok(c, *c.a[2:6]), distinct(c.a[2], c.a[4]), distinct(c.a[3], c.a[5])))]

    def post(self, c):
        o, n, len_ = self.o(c), self.n(c), c.a1
        s1, s1l, s2, s2l = cell(c.S1, c.a2, 'ptr'), cell(c.S1, c.a3, '32'), cell(c.S1, c.a4, 'ptr'), cell(c.S1, c.a5, '32')
        I0 = o.in_use()
        fits = I0 + len_ <= o.size - 1
        ok = c.r == 0
        p1 = n.wrap(n.start + I0)
        return [
            ('memory and size unchanged', self.keep(c)),
            ('[C02] succeeds exactly if it fits', ok == fits),
            ('[C02] out of memory otherwise', Implies(Not(fits), c.r == ENOMEM)),
            ('[C02] failed reservation changes nothing', Implies(Not(fits), n.same(o))),
            ('[C02] appended to the stored data', Implies(ok, And(n.in_use() == I0 + len_, self.kept_content(c, I0)))),
            ('[C02] first segment follows the stored data', Implies(And(ok, len_ > 0), And(s1 == n.buf + p1, s1l > 0))),
            ('[C02] lengths add up', Implies(ok, And(s1l + s2l == len_, s1l >= 0, s2l >= 0))),
            ('[C02] first segment in bounds', Implies(And(ok, s1l > 0), And(s1 >= n.buf, s1 + s1l <= n.buf + n.size))),
            ('[C02] second segment continues at the start of the memory',
             Implies(And(ok, s2l > 0), And(s2 == n.buf, s1 + s1l == n.buf + n.size))),
        ]

    def mods(self, c):
        m = [('at', f, c.a0) for f in IND]
        m += [('at', 'cell.ptr', c.a[2]), ('at', 'cell.32', c.a[3]), ('at', 'cell.ptr', c.a[4]), ('at', 'cell.32', c.a[5])]
        return m


class Trim(CircSpec):
    key = 'circ_buf_trim'

    def post(self, c):
        o, n = self.o(c), self.n(c)
        keep = ite(o.in_use() <= c.a1, o.in_use(), c.a1)
        return [('memory and size unchanged', self.keep(c)),
                ('[C01] exactly the first bytes are kept', And(n.in_use() == keep, self.kept_content(c, keep)))]

    def mods(self, c):
        return [('at', f, c.a0) for f in IND]


class Free(CircSpec):
    key = 'circ_buf_free'

    def post(self, c):
        o, n = self.o(c), self.n(c)
        k = ite(o.in_use() <= c.a1, o.in_use(), c.a1)
        left = o.in_use() - k
        p = [('memory and size unchanged', self.keep(c)),
             ('[C01] exactly the remaining bytes are left, in order',
              And(n.in_use() == left, Or(left == 0, n.start == o.wrap(o.start + k)))),
             ('returns 0', c.r == 0)]
        if num(c.a2) != 0:
            p.append(('[C01,C14] reports the number of bytes left', Implies(c.a2 != 0 if not isinstance(c.a2, Ref) else TRUE,
                                                                  cell(c.S1, c.a2, '32') == left)))
        return p

    def mods(self, c):
        m = [('at', f, c.a0) for f in IND]
        if num(c.a2) != 0:
            m.append(('at', 'cell.32', c.a2))
        return m


class ReadOffset(CircSpec):
    key = 'circ_buf_read_offset'
    OFF, TGT, SIZE, OUT = 1, 2, 3, 4

    def off(self, c):
        return c.a[self.OFF]

    def pre(self, c):
        o = self.o(c)
        t, n = c.a[self.TGT], c.a[self.SIZE]
        p = super().pre(c) + [('target disjoint from the buffer', Or(t + n <= o.buf, t >= o.buf + o.size))]
        if not getattr(c, 'entry', False):
            p.append(('backing memory known', in_region(c.st, o.buf, o.size)))
            p.append(('target writable', in_region(c.st, t, n)))
        return p

    def regions(self, c):
        return super().regions(c) + [(c.a[self.TGT], c.a[self.SIZE])]

    def setup(self, c):
        o = self.o(c)
        off = self.off(c)
        room = o.in_use() - off
        c.vals['n'] = ite(room <= c.a[self.SIZE], room, c.a[self.SIZE])

    def bad(self, c):
        return Or(c.a[self.TGT] == 0, self.off(c) > self.o(c).in_use())

    def post(self, c):
        o, n = self.o(c), self.n(c)
        t, N = c.a[self.TGT], c.vals['n']
        x = z3.Int('x')
        M0, M1 = c.S0.h('M'), c.S1.h('M')
        inside = And(x >= t, x < t + N)
        v = z3.Select(M0, o.addr(self.off(c) + (x - t)))
        ok = Not(self.bad(c))
        out = c.a[self.OUT]
        # concrete small sizes: spelled out byte by byte for the callers
        sz = num(c.a[self.SIZE])
        p = [('[C01] fails only for bad arguments', (c.r == 0) == ok),
             ('[C01] the requested bytes are copied to the target, nothing else is written',
              Implies(ok, forall([x], z3.Select(M1, x) == z3.If(inside, v, z3.Select(M0, x)), [z3.Select(M1, x)]))),
             ('nothing is written on failure', Implies(Not(ok), forall([x], z3.Select(M1, x) == z3.Select(M0, x), [z3.Select(M1, x)])))]
        if num(out) != 0:
            g = ok if isinstance(out, Ref) else And(ok, out != 0)
            p.append(('[C01] reports the number of bytes copied', Implies(g, cell(c.S1, out, '32') == N)))
        return p

    def mods(self, c):
        m = [('bytes', c.a[self.TGT], c.a[self.SIZE])]
        if num(c.a[self.OUT]) != 0:
            m.append(('at', 'cell.32', c.a[self.OUT]))
        return m


class Read(ReadOffset):
    key = 'circ_buf_read'
    TGT, SIZE, OUT = 1, 2, 3

    def off(self, c):
        return IV(0)


class ReadSegment(CircSpec):
    key = 'circ_buf_read_segment'

    pre = Alloc.pre

    def post(self, c):
        o = self.o(c)
        s1, s1l, s2, s2l = cell(c.S1, c.a2, 'ptr'), cell(c.S1, c.a3, '32'), cell(c.S1, c.a4, 'ptr'), cell(c.S1, c.a5, '32')
        N = ite(o.in_use() <= c.a1, o.in_use(), c.a1)
        return [('returns 0', c.r == 0),
                ('[C01,C14] lengths add up to the readable amount', And(s1l + s2l == N, s1l >= 0, s2l >= 0)),
                ('[C01,C14] first segment is the oldest data', Implies(s1l > 0, And(s1 == o.addr(IV(0)), s1 + s1l <= o.buf + o.size))),
                ('[C01,C14] first segment only empty if there is nothing to read', Implies(N > 0, s1l > 0)),
                ('[C01,C14] second segment continues the first', Implies(s2l > 0, And(s2 == o.buf, s1 + s1l == o.buf + o.size)))]

    def mods(self, c):
        return [('at', 'cell.ptr', c.a[2]), ('at', 'cell.32', c.a[3]), ('at', 'cell.ptr', c.a[4]), ('at', 'cell.32', c.a[5])]


ENOMEM = 12
SPECS = [Init(), InUse(), Available(), Alloc(), Trim(), Free(), ReadOffset(), Read(), ReadSegment()]
