"""Contracts of rmc_connection.c and of the transport part of rmc_protocol.c.

Ghost state
   g:open[i]   1 if slot i of the connection table has a connection (being set up or established)
   g:poll[i]   what the owner of the poll callbacks knows: 0 slot i not registered, 1+action registered
   g:fd[d]     1 if descriptor d is an open socket of a connection
   g:fdo[d]    slot that descriptor d belongs to
"""
import z3
from vcg import *
import circ
from circ import CB, cell

s_ = z3.Select
CN, CV = 'rmc_connection', 'rmc_connection_vector'
NIL, MCAST, LISTEN = 0x7FFF, 0x7FFE, 0x7FFD
MAXCONN = 0x7FFC
READ, WRITE = 1, 2
CLOSED, CONNECTING, CONNECTED = 0, 1, 2

EINVAL, ENOTCONN, ENOMEM, EAGAIN, EPIPE, EPROTO, ENODATA, EBUSY, EMSGSIZE, EINPROGRESS = 22, 107, 12, 11, 32, 71, 61, 16, 90, 115

CI = z3.Function('cardi', AI, I)
FINI = z3.Function('finitei', AI, z3.BoolSort())
FLD = ('action', 'connection_index', 'descriptor', 'node_id', 'mode', 'remote_port', 'remote_address')
CF = tuple(CN + '.' + f for f in FLD)
CBF = ('circ_buf.size', 'circ_buf.start_ind', 'circ_buf.stop_ind', 'circ_buf.buffer')


def bufsize(eng):
    return eng.P.fieldty(CN, 'write_buf_data')[2]


def ci_axioms(eng):
    """finite cardinality: the number of entries of m that are not 0"""
    if 'cardi' in eng._ax:
        return
    eng._ax.add('cardi')
    m = z3.Const('m', AI)
    L, v = z3.Ints('L v')
    st = z3.Store(m, L, v)
    eng.axioms += [
        forall([m, L, v], FINI(st) == FINI(m), [FINI(st)]),
        forall([m], Implies(FINI(m), CI(m) >= 0), [CI(m)]),
        forall([m, L], Implies(And(FINI(m), s_(m, L) != 0), CI(m) >= 1), [(CI(m), s_(m, L))]),
        forall([m, L, v], Implies(FINI(m), CI(st) == CI(m) - z3.If(s_(m, L) != 0, 1, 0) + z3.If(v != 0, 1, 0)), [CI(st)]),
        And(FINI(z3.K(I, IV(0))), CI(z3.K(I, IV(0))) == 0),
    ]


def buf_axioms(eng):
    """the data areas of the buffers of different connections do not overlap"""
    if 'bufax' in eng._ax:
        return
    eng._ax.add('bufax')
    p, q = z3.Ints('p q')
    R = lambda x: eng.embed(CN, 'read_buf_data', x)
    W = lambda x: eng.embed(CN, 'write_buf_data', x)
    n = bufsize(eng)
    dis = lambda a, b: Or(a + n <= b, b + n <= a)
    eng.axioms += [forall([p, q], dis(R(p), W(q)), [(R(p), W(q))]),
                   forall([p, q], Or(p == q, dis(R(p), R(q))), [(R(p), R(q))]),
                   forall([p, q], Or(p == q, dis(W(p), W(q))), [(W(p), W(q))])]


class VX:
    """view of a connection table in one heap"""

    def __init__(self, S, V):
        self.S, self.V, self.eng = S, V, S.eng
        f = lambda n: S.f(CV + '.' + n, V)
        self.size, self.max, self.act, self.B = f('size'), f('max_connection_ind'), f('active_connection_count'), f('connections')
        self.cbs = [f('poll_add'), f('poll_modify'), f('poll_remove')]

    def c(self, i):
        return self.eng.elt(CN, self.B, i)

    def f(self, n, i):
        return self.S.f(CN + '.' + n, self.c(i))

    def mode(self, i):
        return self.f('mode', i)

    def is_open(self, i):
        return self.mode(i) != CLOSED

    def desc(self, i):
        return self.f('descriptor', i)

    def rb(self, i):
        return CB(self.S, self.eng.embed(CN, 'read_buf', self.c(i)))

    def wb(self, i):
        return CB(self.S, self.eng.embed(CN, 'write_buf', self.c(i)))

    def rd(self, i):
        return self.eng.embed(CN, 'read_buf_data', self.c(i))

    def wd(self, i):
        return self.eng.embed(CN, 'write_buf_data', self.c(i))

    def given(self):
        return And(*[x != 0 for x in self.cbs])

    def inr(self, i):
        return And(i >= 0, i < self.size)

    def slot(self, p):
        """p is one of the connections of the table"""
        i = self.eng.elt_idx(CN, p)
        return And(p == self.c(i), self.inr(i))

    def bufs(self, i):
        n = bufsize(self.eng)
        r, w = self.rb(i), self.wb(i)
        return And(r.wf(), w.wf(), r.size == n, w.size == n, r.buf == self.rd(i), w.buf == self.wd(i))

    def empty(self, i):
        return And(self.rb(i).in_use() == 0, self.wb(i).in_use() == 0)


class CVI:
    """the invariant of a connection table"""

    def __init__(self, V):
        self.V = V

    def conj(self, S):
        v = VX(S, self.V)
        eng = S.eng
        ci_axioms(eng)
        buf_axioms(eng)
        i, d = z3.Ints('i d')
        op, poll = S.h('g:open'), S.h('g:poll')
        pat = [v.c(i)]
        every = lambda g: forall([i], Implies(v.inr(i), g), pat)
        return [
            ('table: size', And(self.V != 0, v.size >= 0, v.size <= MAXCONN, v.B > 0)),
            ('table: every connection knows its index', every(v.f('connection_index', i) == i)),
            ('table: a slot is free if and only if it has no descriptor', every(And(v.mode(i) >= 0, v.mode(i) <= 2, (v.desc(i) == -1) == (v.mode(i) == CLOSED), v.f('action', i) >= 0, v.f('action', i) <= 3))),
            ('table: buffers', every(v.bufs(i))),
            ('table: free slots are empty', every(Implies(v.mode(i) == CLOSED, v.empty(i)))),
            ('[C17] table: highest index in use', And(Or(v.max == NIL, And(v.inr(v.max), v.is_open(v.max))),
                                                     every(Implies(v.is_open(i), And(v.max != NIL, i <= v.max))))),
            ('table: set of connections', forall([i], And(Or(s_(op, i) == 0, s_(op, i) == 1), (s_(op, i) == 1) == And(v.inr(i), v.is_open(i))), [s_(op, i), v.c(i)])),
            ('[C17] table: active connections are counted', And(FINI(op), v.act == CI(op))),
            ('[C17] table: poll callbacks', Implies(v.given(), every(s_(poll, i) == ite(v.is_open(i), 1 + v.f('action', i), 0)))),
            ('table: descriptors', every(Implies(v.is_open(i), And(s_(S.h('g:fd'), v.desc(i)) == 1, s_(S.h('g:fdo'), v.desc(i)) == i)))),
        ]


class ConnSpec(Spec):
    props = ('C17',)
    entry_inv = True

    def V(self, c):
        return c.a0

    def setup(self, c):
        if getattr(c, 'entry', False):
            c.eng.curV = self.V(c)

    def v0(self, c):
        return VX(c.S0, self.V(c))

    def v1(self, c):
        return VX(c.S1, self.V(c))

    def invs(self, c):
        return [CVI(self.V(c))]

    def axioms(self, c):
        ci_axioms(c.eng)
        buf_axioms(c.eng)
        return [CI(c.S0.h('g:open')) <= c.S0.f(CV + '.size', self.V(c))]

    def loop_candidates(self, eng, c, st, E, modenv, wset, vars_):
        return conn_candidates(self, eng, c, st, E, modenv, wset, vars_)

    def loop_measures(self, eng, c, s, vars_):
        V = self.V(c)
        return [(nm, (lambda k, g: lambda S, env: g(VX(S, V)) - term(env[k]) + 1)(k, g)) for k, t, v in vars_ if t[0] == 'int'
                for nm, g in (('size-v', lambda v: v.size), ('max-v', lambda v: v.max))]

    def same(self, c, ms):
        return And(*[c.S1.f(m[1], m[2]) == c.S0.f(m[1], m[2]) for m in ms if m[0] == 'at'])


def conn_candidates(sp, eng, c, st, E, modenv, wset, vars_):
    """scans of the connection table: what holds of all slots before / from / after an index"""
    out = []
    V = sp.V(c)
    ints = [k for k, t, v in vars_ if t[0] == 'int' and k in modenv]
    j = z3.Int('j')
    preds = [('free', lambda v, j: v.desc(j) == -1), ('not free', lambda v, j: v.desc(j) != -1)]
    preds += sp.scan_preds(c) if hasattr(sp, 'scan_preds') else []
    for k in ints:
        for nm, P in preds:
            for rn, rg in (('<v', lambda v, x: And(j >= 0, j < x)), ('<=v', lambda v, x: And(j >= 0, j <= x)), ('>=v', lambda v, x: And(j >= x, j < v.size)),
                           ('>v', lambda v, x: And(j > x, j < v.size))):
                def f(S, env, P=P, rg=rg, k=k):
                    v = VX(S, V)
                    return forall([j], Implies(And(j >= 0, j < v.size, rg(v, term(env[k]))), P(v, j)), [v.c(j)])
                out.append(('slots %s are %s' % (rn, nm), f))
        out.append(('v<=size', (lambda k: lambda S, env: term(env[k]) <= VX(S, V).size)(k)))
        out.append(('v<size', (lambda k: lambda S, env: term(env[k]) < VX(S, V).size)(k)))
        out.append(('v<=max+1', (lambda k: lambda S, env: term(env[k]) <= VX(S, V).max + 1)(k)))
        out.append(('v<=max', (lambda k: lambda S, env: term(env[k]) <= VX(S, V).max)(k)))
    return out


def at(F, p):
    return [('at', f, p) for f in F]


class FindByIndex(ConnSpec):
    key = 'rmc_conn_find_by_index'

    def invs(self, c):
        return [] if num(c.a0) == 0 else [CVI(c.a0)]

    def pre(self, c):
        return [('table given', c.a0 != 0)]

    def post(self, c):
        v = self.v0(c)
        return [('[C17] finds the connection if and only if there is one',
                 c.r == ite(And(v.inr(c.a1), v.is_open(c.a1)), v.c(c.a1), 0))]


class FindBy(ConnSpec):
    def match(self, c, v, i):
        pass

    def pre(self, c):
        return [('table given', c.a0 != 0)]

    def scan_preds(self, c):
        return [('not looked for', lambda v, j: Not(self.match(c, v, j)))]

    def post(self, c):
        v = self.v0(c)
        i = z3.Int('i')
        k = c.eng.elt_idx(CN, c.r)
        return [('[C17] what is found is a connection looked for', Implies(c.r != 0, And(v.slot(c.r), self.match(c, v, k)))),
                ('[C17] nothing is found only if there is none', Implies(c.r == 0, forall([i], Implies(v.inr(i), Not(self.match(c, v, i))), [v.c(i)])))]


class FindByAddress(FindBy):
    key = 'rmc_conn_find_by_address'

    def match(self, c, v, i):
        return And(v.is_open(i), v.f('remote_address', i) == c.a1, v.f('remote_port', i) == c.a2)


class FindByNode(FindBy):
    key = 'rmc_conn_find_by_node_id'

    def match(self, c, v, i):
        return And(v.is_open(i), v.f('node_id', i) == c.a1)


class Getter(ConnSpec):
    field = None

    def pre(self, c):
        return [('arguments', And(c.a0 != 0, c.a1 != 0 if not isinstance(c.a1, Ref) else TRUE))]

    def post(self, c):
        return [('[C17,C23] reports the value', And(c.r == 0, cell(c.S1, c.a1, '16') == c.S0.f(CV + '.' + self.field, c.a0)))]

    def mods(self, c):
        return [('at', 'cell.16', c.a1)]


class GetMax(Getter):
    key, field = 'rmc_conn_get_max_index_in_use', 'max_connection_ind'


class GetActive(Getter):
    key, field = 'rmc_conn_get_active_connection_count', 'active_connection_count'


class GetSize(Getter):
    key, field = 'rmc_conn_get_vector_size', 'size'


class PendingLen(Spec):
    key = 'rmc_conn_get_pending_send_length'
    props = ('C23',)

    def wb(self, c):
        return CB(c.S0, c.eng.embed(CN, 'write_buf', c.a0))

    def pre(self, c):
        return [('arguments', And(c.a0 > 0, c.a1 != 0 if not isinstance(c.a1, Ref) else TRUE)), ('buffer', And(self.wb(c).wf(), self.wb(c).size <= 65536))]

    def post(self, c):
        return [('[C23] reports the number of bytes waiting to be sent', And(c.r == 0, cell(c.S1, c.a1, '16') == self.wb(c).in_use()))]

    def mods(self, c):
        return [('at', 'cell.16', c.a1)]


class InitVector(ConnSpec):
    key = 'rmc_conn_init_connection_vector'
    ghosts = ('g:open',)

    def pre(self, c):
        return [('arguments', And(c.a0 > 0, c.a1 > 0, c.a2 >= 0, c.a2 <= MAXCONN)),
                ('nothing is registered', forall([z3.Int('i')], s_(c.S0.h('g:poll'), z3.Int('i')) == 0, [s_(c.S0.h('g:poll'), z3.Int('i'))]))]

    def axioms(self, c):
        ci_axioms(c.eng)
        buf_axioms(c.eng)
        return []

    def invs(self, c):
        return []

    def ghost(self, c):
        c.S1.set('g:open', z3.K(I, IV(0)))

    def scan_preds(self, c):
        return [('reset', lambda v, j: And(v.mode(j) == CLOSED, v.desc(j) == -1, v.f('action', j) >= 0, v.f('action', j) <= 3)), ('numbered', lambda v, j: v.f('connection_index', j) == j),
                ('with empty buffers', lambda v, j: And(v.empty(j), v.bufs(j)))]

    def post(self, c):
        v = self.v1(c)
        f = lambda n: c.S1.f(CV + '.' + n, c.a0)
        return [('[C17] no connections', And(v.size == c.a2, v.max == NIL, v.act == 0, v.B == c.a1)),
                ('callbacks', And(f('user_data') == c.a3, f('poll_add') == c.a4, f('poll_modify') == c.a5, f('poll_remove') == c.a6))] + \
               [(l, g) for l, g in CVI(c.a0).conj(c.S1)]

    def mods(self, c):
        return at([CV + '.' + n for n in ('size', 'max_connection_ind', 'active_connection_count', 'connections', 'user_data', 'poll_add', 'poll_modify', 'poll_remove')], c.a0) + \
            [('all', h) for h in CF + CBF]


class Close(ConnSpec):
    key = 'rmc_conn_close_connection'
    ghosts = ('g:open',)

    def ok(self, c):
        v = self.v0(c)
        return And(v.inr(c.a1), v.is_open(c.a1))

    def pre(self, c):
        return [('table given', c.a0 != 0)]

    def ghost(self, c):
        op = c.S0.h('g:open')
        c.S1.set('g:open', ite(self.ok(c), z3.Store(op, c.a1, 0), op))

    def post(self, c):
        v, w = self.v0(c), self.v1(c)
        ok = self.ok(c)
        i = c.a1
        return [('[C17] succeeds for a connection only', And((c.r == 0) == ok, Implies(Not(v.inr(i)), c.r == EINVAL), Implies(And(v.inr(i), Not(ok)), c.r == ENOTCONN))),
                ('[C17] the slot is free again', Implies(ok, And(w.mode(i) == CLOSED, w.desc(i) == -1, w.f('connection_index', i) == i, w.empty(i), w.bufs(i)))),
                ('[C17] the poll owner is told', Implies(And(ok, v.given()), c.S1.f('g:poll', i) == 0)),
                ('the descriptor is closed', Implies(ok, c.S1.f('g:fd', v.desc(i)) == 0)),
                ('[C17] nothing happens without a connection', Implies(Not(ok), self.same(c, self.mods(c)))),
                ('one less', Implies(ok, And(w.act == v.act - 1, Or(w.max == v.max, w.max == NIL, w.max < v.max))))]

    def mods(self, c):
        v = self.v0(c)
        p = v.c(c.a1)
        return at(CF, p) + at(CBF, c.eng.embed(CN, 'read_buf', p)) + at(CBF, c.eng.embed(CN, 'write_buf', p)) + \
            at([CV + '.max_connection_ind', CV + '.active_connection_count'], c.a0) + \
            [('at', 'g:poll', c.a1), ('at', 'g:fd', v.desc(c.a1)), ('at', 'cell.32', ERRNO)]


class NewConn(ConnSpec):
    """shared by connect and accept"""
    ghosts = ('g:open', 'g:fdo')
    RES = 4

    def res(self, c):
        return c.a[self.RES]

    def pre(self, c):
        p = self.res(c)
        return [('table given', c.a0 > 0 if self.RES == 4 else c.a1 > 0), ('result pointer', TRUE if isinstance(p, Ref) else And(p != 0, p != ERRNO))]

    def new(self, c):
        return self.v1(c).act != self.v0(c).act

    def j(self, c):
        return cell(c.S1, self.res(c), '16')

    def ghost(self, c):
        j, new = self.j(c), self.new(c)
        op, fo = c.S0.h('g:open'), c.S0.h('g:fdo')
        c.S1.set('g:open', ite(new, z3.Store(op, j, 1), op))
        c.S1.set('g:fdo', ite(new, z3.Store(fo, self.v1(c).desc(j), j), fo))

    def slot(self, c, w, j):
        return TRUE

    def post(self, c):
        v, w = self.v0(c), self.v1(c)
        new, j = self.new(c), self.j(c)
        i, x = z3.Ints('i x')
        full = forall([i], Implies(v.inr(i), v.is_open(i)), [v.c(i)])
        p = [('[C17] fails with an out-of-memory error when no slot is free', Implies(And(full), And(c.r == ENOMEM, Not(new)))),
             ('[C17] a new connection takes a free slot', Implies(new, And(v.inr(j), Not(v.is_open(j)), w.is_open(j), c.r == 0, w.act == v.act + 1))),
             ('[C17,C16] the new connection is as asked for', Implies(new, And(self.slot(c, w, j), w.rb(j).in_use() == 0, w.wb(j).in_use() == 0))),
             ('[C17] failing returns the slot', Implies(Not(new), And(w.max == v.max, cell(c.S1, self.res(c), '16') == cell(c.S0, self.res(c), '16'))))]
        for h in CF + ('g:poll',):
            a = s_(c.S1.h(h), x)
            k = c.eng.elt_idx(CN, x)
            mine = Or(Not(v.inr(x)), And(new, x == j)) if h == 'g:poll' else And(v.slot(x), Not(v.is_open(k)))
            g = forall([x], Or(x < 0, mine, a == s_(c.S0.h(h), x)), [a])
            p.append(('[C17] no other connection is disturbed (%s)' % h, g))
        d = z3.Int('d')
        f1 = s_(c.S1.h('g:fd'), d)
        p.append(('no descriptor is leaked, or closed for another connection', forall([d], Or(And(new, d == w.desc(j)), f1 == s_(c.S0.h('g:fd'), d)), [f1])))
        return p

    def mods(self, c):
        V = self.V(c)
        return [('all', h) for h in CF + ('g:poll', 'g:fd')] + at([CV + '.max_connection_ind', CV + '.active_connection_count'], V) + \
            [('at', 'cell.16', self.res(c)), ('at', 'cell.32', ERRNO)]


class Connect(NewConn):
    key = 'rmc_conn_connect_tcp_by_address'

    def slot(self, c, w, j):
        return And(w.mode(j) == CONNECTING, w.f('action', j) == WRITE, w.f('remote_address', j) == c.a1, w.f('remote_port', j) == c.a2, w.f('node_id', j) == c.a3)


class Accept(NewConn):
    key = 'rmc_conn_process_accept'
    RES = 2

    def V(self, c):
        return c.a1

    def slot(self, c, w, j):
        return And(w.mode(j) == CONNECTED, w.f('action', j) == READ,
                   w.f('remote_address', j) == c.S1.gi('g:peer.addr'), w.f('remote_port', j) == c.S1.gi('g:peer.port'))

    def post(self, c):
        return super().post(c) + [('[C17] succeeds only with a new connection', (c.r == 0) == self.new(c))]

    def mods(self, c):
        return super().mods(c) + [('at', 'g:peer.addr', IV(0)), ('at', 'g:peer.port', IV(0))]


class Complete(ConnSpec):
    key = 'rmc_conn_complete_connection'
    ghosts = ('g:open',)

    def i(self, c):
        return c.eng.elt_idx(CN, c.a1)

    def pre(self, c):
        v = self.v0(c)
        return [('table given', c.a0 > 0), ('connection being set up', And(c.a1 > 0, v.slot(c.a1), v.mode(self.i(c)) == CONNECTING))]

    def ghost(self, c):
        op = c.S0.h('g:open')
        c.S1.set('g:open', ite(c.r == 0, op, z3.Store(op, self.i(c), 0)))

    def ghost_skipped(self, c):
        pass

    def ghost_post(self, c):
        return [('set of connections', c.S1.h('g:open') == ite(c.r == 0, c.S0.h('g:open'), z3.Store(c.S0.h('g:open'), self.i(c), 0)))]

    def post(self, c):
        v, w = self.v0(c), self.v1(c)
        i = self.i(c)
        ok = c.r == 0
        keep = [CN + '.' + f for f in ('connection_index', 'descriptor', 'node_id', 'remote_port', 'remote_address')]
        return [('[C17] established with its address and descriptor kept',
                 Implies(ok, And(w.mode(i) == CONNECTED, w.f('action', i) == READ, *[c.S1.f(f, c.a1) == c.S0.f(f, c.a1) for f in keep]))),
                ('its buffers are kept', Implies(ok, And(*[c.S1.f(m[1], m[2]) == c.S0.f(m[1], m[2]) for m in self.bmods(c)]))),
                ('table unchanged', Implies(ok, And(w.max == v.max, w.act == v.act))),
                ('[C17] a failed connection returns its slot', Implies(Not(ok), And(w.mode(i) == CLOSED, w.desc(i) == -1, w.empty(i), w.act == v.act - 1)))]

    def bmods(self, c):
        return at(CBF, c.eng.embed(CN, 'read_buf', c.a1)) + at(CBF, c.eng.embed(CN, 'write_buf', c.a1))

    def mods(self, c):
        return at(CF, c.a1) + self.bmods(c) + at([CV + '.max_connection_ind', CV + '.active_connection_count'], c.a0) + \
            [('at', 'g:poll', self.i(c)), ('at', 'g:fd', c.S0.f(CN + '.descriptor', c.a1)), ('at', 'cell.32', ERRNO)]


# ---------------------------------------------------------------- writing
class TcpWrite(Spec):
    key = 'rmc_conn_process_tcp_write'
    props = ('C14',)

    def setup(self, c):
        if getattr(c, 'entry', False):
            c.eng.curConn = c.a0

    def wb(self, S, c):
        return CB(S, c.eng.embed(CN, 'write_buf', c.a0))

    def pre(self, c):
        b = self.wb(c.S0, c)
        n = bufsize(c.eng)
        return [('arguments', And(c.a0 > 0, TRUE if isinstance(c.a1, Ref) else And(c.a1 != 0, c.a1 != ERRNO))),
                ('send buffer', And(b.wf(), b.size == n, b.buf == c.eng.embed(CN, 'write_buf_data', c.a0)))]

    def post(self, c):
        o, n = self.wb(c.S0, c), self.wb(c.S1, c)
        I0 = o.in_use()
        acc = c.S1.gi('g:accepted')
        left = cell(c.S1, c.a1, '32')
        return [('[C14] nothing to send is an error', Implies(I0 == 0, And(c.r == ENODATA, n.same(o)))),
                ('[C14] exactly the bytes accepted are removed',
                 Implies(I0 > 0, And(acc >= 0, acc <= I0, n.in_use() == I0 - acc, Or(n.in_use() == 0, n.start == o.wrap(o.start + acc))))),
                ('[C14] an error is returned and removes nothing', Implies(c.r != 0, n.same(o))),
                ('[C14] reports the number of bytes left', left == n.in_use()),
                ('buffer kept', And(n.wf(), n.size == o.size, n.buf == o.buf))]

    def mods(self, c):
        return at(circ.IND, c.eng.embed(CN, 'write_buf', c.a0)) + [('at', 'cell.32', c.a1), ('at', 'cell.32', ERRNO), ('at', 'g:accepted', IV(0))]


def le(S, addr, n):
    """little endian value of n bytes; addr(k) is the address of byte k"""
    t = IV(0)
    for k in range(n):
        b = S.byte(addr(k))
        t = b * (1 << (8 * k)) + t if k else b
    return t


class Encoder(ConnSpec):
    """appends a command to the send buffer of connection a1"""
    props = ('C12',)
    CMD = None
    HDR = 0
    slack = 0
    ctx = None          # struct of the context (first argument)
    opts = {}

    def V(self, c):
        return c.eng.embed(self.ctx, 'conn_vec', c.a0)

    def i(self, c):
        return c.eng.elt_idx(CN, c.a1)

    def fields(self, c):
        """(offset in header, width, value)"""
        return []

    def payload(self, c):
        return None, IV(0)

    def need(self, c):
        return 1 + self.HDR + self.payload(c)[1]

    def refuses(self, c):
        """error that is returned whatever the buffer holds (0 if none)"""
        return IV(0)

    def wb(self, S, c):
        return CB(S, c.eng.embed(CN, 'write_buf', c.a1))

    def pre(self, c):
        v = self.v0(c)
        p = [('arguments', And(c.a0 > 0, c.a1 > 0)), ('connection of the table', And(v.slot(c.a1), v.is_open(self.i(c))))]
        if getattr(c, 'entry', False):
            pl, n = self.payload(c)
            if pl is not None:
                wd = c.eng.embed(CN, 'write_buf_data', c.a1)
                p.append(('payload memory', Implies(n > 0, And(pl > 0, Or(pl + n <= wd, wd + bufsize(c.eng) <= pl)))))
        return p

    def regions(self, c):
        r = [(c.eng.embed(CN, 'write_buf_data', c.a1), IV(bufsize(c.eng)))]
        pl, n = self.payload(c)
        if pl is not None:
            r.append((pl, n))
        return r

    def post(self, c):
        o, n = self.wb(c.S0, c), self.wb(c.S1, c)
        I0, need = o.in_use(), self.need(c)
        ok = c.r == 0
        i = self.i(c)
        x = z3.Int('x')
        M0, M1 = c.S0.h('M'), c.S1.h('M')
        rel = ite(x - o.buf >= n.start, x - o.buf - n.start, x - o.buf - n.start + o.size)
        inb = And(x >= o.buf, x < o.buf + o.size)
        v, w = self.v0(c), self.v1(c)
        ref = self.refuses(c)
        posn = lambda k: n.buf + n.wrap(n.start + I0 + k)
        p = [('[C12] refused if it cannot be sent now', Implies(ref != 0, c.r == ref)),
             ('[C12] an encoding that does not fit is refused', Implies(And(ref == 0, I0 + need > o.size - 1), Not(ok))),
             ('[C12] an encoding that fits is accepted', Implies(And(ref == 0, I0 + need + self.slack <= o.size - 1), ok)),
             ('[C12] not a single byte is appended on an error', Implies(Not(ok), n.same(o))),
             ('[C12] the encoding is appended', Implies(ok, And(n.in_use() == I0 + need, Or(I0 == 0, n.start == o.start), n.buf == o.buf, n.size == o.size))),
             ('[C12] bytes waiting to be sent are kept', forall([x], Implies(And(inb, rel < I0), s_(M1, x) == s_(M0, x)), [s_(M1, x)])),
             ('[C12] command byte', Implies(ok, c.S1.byte(posn(0)) == self.CMD))]
        for nm, off, wd, val in self.fields(c):
            p.append(('[C12] encoded field %s' % nm, Implies(ok, le(c.S1, lambda k: posn(1 + off + k), wd) == val)))
        pl, ln = self.payload(c)
        if pl is not None:
            k = rel - I0 - 1 - self.HDR
            p.append(('[C12] payload bytes', Implies(ok, forall([x], Implies(And(inb, k >= 0, k < ln), s_(M1, x) == s_(M0, pl + k)), [s_(M1, x)]))))
        p.append(('[C12] write polling is asked for', Implies(ok, And(w.f('action', i) >= WRITE, w.f('action', i) == ite(v.f('action', i) >= WRITE, v.f('action', i), v.f('action', i) + WRITE)))))
        return p

    def mods(self, c):
        wd = c.eng.embed(CN, 'write_buf_data', c.a1)
        return [('bytes', wd, IV(bufsize(c.eng)))] + at(circ.IND, c.eng.embed(CN, 'write_buf', c.a1)) + \
            [('at', CN + '.action', c.a1), ('at', 'g:poll', self.i(c)), ('at', 'cell.32', ERRNO)]


class Resend(Encoder):
    key = 'rmc_pub_resend_packet'
    ctx = 'rmc_pub_context'
    CMD, HDR = 1, 20

    def pre(self, c):
        return super().pre(c) + [('packet given', c.a2 > 0)]

    def payload(self, c):
        return c.S0.f('pub_packet.payload', c.a2), c.S0.f('pub_packet.payload_len', c.a2)

    def fields(self, c):
        g = lambda f: c.S0.f('rmc_pub_context.' + f, c.a0)
        return header_fields(c.S0.f('pub_packet.pid', c.a2), g('node_id'), self.payload(c)[1], g('control_listen_if_addr'), g('control_listen_port'))

    # g:rs.n, g:rs.d[k], g:rs.c[k]: log of the packets encoded: number, packet and connection of each
    ghosts = ('g:rs.n', 'g:rs.d', 'g:rs.c')

    def ghost(self, c):
        k = c.S0.gi('g:rs.n')
        ok = c.r == 0
        c.S1.setat('g:rs.d', k, ite(ok, c.a2, s_(c.S0.h('g:rs.d'), k)))
        c.S1.setat('g:rs.c', k, ite(ok, c.a1, s_(c.S0.h('g:rs.c'), k)))
        c.S1.setat('g:rs.n', IV(0), k + ite(ok, 1, 0))

    def post(self, c):
        return super().post(c) + [('[C12] refused for lack of space only', Or(c.r == 0, c.r == EAGAIN)),
                                  ('write polling is asked for in any case', self.v1(c).f('action', self.i(c)) >= WRITE)]


def header_fields(pid, node, ln, ip, port):
    return [('packet id', 0, 8, pid), ('node id', 8, 4, node), ('payload length', 12, 2, ln), ('listen address', 14, 4, ip), ('listen port', 18, 2, low(port, 65536))]


def low(v, m):
    return ite(And(v >= 0, v < m), v, v % m)


class WriteAck(Encoder):
    key = 'rmc_sub_write_interval_acknowledgement'
    ctx = 'rmc_sub_context'
    CMD, HDR = 2, 16
    props = ('C12', 'C11')

    def pre(self, c):
        return super().pre(c) + [('interval given', c.a2 != 0)]

    def refuses(self, c):
        return ite(self.v0(c).mode(self.i(c)) != CONNECTED, ENOTCONN, 0)

    def fields(self, c):
        return [('first packet id', 0, 8, c.S0.f('sub_pid_interval.first_pid', c.a2)), ('last packet id', 8, 8, c.S0.f('sub_pid_interval.last_pid', c.a2))]


class WriteControl(Encoder):
    key = 'rmc_sub_write_control_message'
    ctx = 'rmc_sub_context'
    CMD, HDR, slack = 3, 2, 1

    def pre(self, c):
        v = self.v0(c)
        p = super().pre(c)
        return p

    def refuses(self, c):
        return ite(Or(c.a2 == 0, c.a3 == 0), EINVAL, ite(self.v0(c).mode(self.i(c)) != CONNECTED, ENOTCONN, 0))

    def payload(self, c):
        return c.a2, c.a3

    def fields(self, c):
        return [('payload length', 0, 2, c.a3)]


# ---------------------------------------------------------------- externals
def x_writev(eng, st, args, n):
    fd, iov, cnt = args
    S = View(eng, st.H)
    conn = eng.curConn
    b = CB(S, eng.embed(CN, 'write_buf', conn))
    e = lambda k: eng.elt('iovec', iov, k)
    base = lambda k: S.f('iovec.iov_base', e(k))
    ln = lambda k: S.f('iovec.iov_len', e(k))
    two = And(cnt == 2, ln(1) > 0)
    tot = ln(0) + ite(two, ln(1), 0)
    eng.oblige(st, fd == S.f(CN + '.descriptor', conn), '[C14] written to the descriptor of the connection', n, kind='post')
    eng.oblige(st, And(ln(0) > 0, base(0) == b.addr(IV(0)), ln(0) >= 0, Or(cnt == 1, cnt == 2), tot <= b.in_use(), base(0) + ln(0) <= b.buf + b.size),
               '[C14] the bytes offered are pending ones starting with the oldest', n, kind='post')
    eng.oblige(st, Implies(two, And(base(1) == b.buf, base(0) + ln(0) == b.buf + b.size)), '[C14] the bytes offered are in order', n, kind='post')
    r = fresh('writev')
    st.facts.append(And(r >= -1, r <= tot))
    seterr(eng, st, r == -1)
    wr(st, 'g:accepted', IV(0), ite(r > 0, r, 0), eng)
    return [(st, r)]


def x_strcpy(eng, st, args, n):
    """the source is a dotted quad"""
    eng.access(st, args[0], IV(16), n, True)
    eng.havoc(st, ('bytes', args[0], IV(16)))
    return [(st, args[0])]


def wr(st, h, a, v, eng):
    st.H[h] = store(eng.hget(st, h), a, v)
    st.written.append((h, a))


def cur(eng, st):
    return VX(View(eng, st.H), eng.curV)


def has_poll(eng):
    return getattr(eng, 'curV', None) is not None


def x_poll_add(eng, st, args, n):
    f, ud, d, i, act = args
    v = cur(eng, st)
    g = v.given()
    p = eng.hget(st, 'g:poll')
    eng.oblige(st, Implies(g, s_(p, i) == 0), '[C17] poll-add is made once per connection', n, kind='post')
    eng.oblige(st, Implies(v.inr(i), And(d == v.desc(i), act == v.f('action', i))), '[C17] poll-add names the descriptor and action of the connection', n, kind='post')
    wr(st, 'g:poll', i, 1 + act, eng)
    return [(st, IV(0))]


def x_poll_modify(eng, st, args, n):
    f, ud, d, i, old, new = args
    v = cur(eng, st)
    p = eng.hget(st, 'g:poll')
    if num(i) is None or num(i) < LISTEN:
        eng.oblige(st, Implies(And(v.given(), v.inr(i)), s_(p, i) == 1 + old), '[C14] poll-modify is told the action so far', n, kind='post')
        eng.oblige(st, Implies(v.inr(i), d == v.desc(i)), '[C14] poll-modify names the descriptor of the connection', n, kind='post')
    wr(st, 'g:poll', i, 1 + new, eng)
    return [(st, IV(0))]


def x_poll_remove(eng, st, args, n):
    f, ud, d, i = args
    v = cur(eng, st)
    p = eng.hget(st, 'g:poll')
    eng.oblige(st, Implies(v.given(), s_(p, i) != 0), '[C17] poll-remove is made once per connection', n, kind='post')
    eng.oblige(st, Implies(v.inr(i), d == v.desc(i)), '[C17] poll-remove names the descriptor of the connection', n, kind='post')
    wr(st, 'g:poll', i, IV(0), eng)
    return [(st, IV(0))]


def x_errno(eng, st, args, n):
    return [(st, ERRNO)]


def seterr(eng, st, bad):
    """errno is set if the call failed, and may change anyway"""
    e = fresh('errno')
    st.facts.append(And(e >= 0, e < 4096, Implies(bad, e > 0)))
    wr(st, 'cell.32', ERRNO, e, eng)


def x_newfd(eng, st, args, n):
    r = fresh('fd')
    st.facts.append(And(r >= -1, r < (1 << 31), Implies(r >= 0, s_(eng.hget(st, 'g:fd'), r) == 0)))
    seterr(eng, st, r == -1)
    fd = eng.hget(st, 'g:fd')
    wr(st, 'g:fd', r, z3.If(r >= 0, IV(1), s_(fd, r)), eng)
    return [(st, r)]


def ipf(name, arg, bits, eng):
    f = z3.Function(name, I, I)
    if name not in eng._ax:
        eng._ax.add(name)
        x = z3.Int('x')
        eng.axioms.append(forall([x], And(f(f(x)) == x, f(x) >= 0, f(x) < (1 << bits)), [f(x)]))
    return f(term(arg))


def x_swap(bits):
    return lambda eng, st, args, n: [(st, ipf('swap%d' % bits, args[0], bits, eng))]


def x_accept(eng, st, args, n):
    a, p = fresh('peer'), fresh('peerport')
    st.facts.append(And(a >= 0, a < (1 << 32), p >= 0, p < (1 << 16)))
    sa = args[1]
    wr(st, 'sockaddr_in.sin_port', sa, ipf('swap16', p, 16, eng), eng)
    wr(st, 'in_addr.s_addr', eng.embed('sockaddr_in', 'sin_addr', sa), ipf('swap32', a, 32, eng), eng)
    out = x_newfd(eng, st, args, n)
    wr(st, 'g:peer.addr', IV(0), a, eng)
    wr(st, 'g:peer.port', IV(0), p, eng)
    return out


def x_sys(lo=-1, hi=1 << 31):
    def f(eng, st, args, n):
        r = fresh('sys')
        st.facts.append(And(r >= lo, r < hi))
        seterr(eng, st, r == -1)
        return [(st, r)]
    return f


def x_getsockopt(eng, st, args, n):
    p = args[3]
    e = fresh('sockerr')
    st.facts.append(And(e >= 0, e < 4096))
    wr(st, 'cell.32', p, e, eng)
    return x_sys(-1, 1)(eng, st, args, n)


def x_close(eng, st, args, n):
    wr(st, 'g:fd', args[0], IV(0), eng)
    return x_sys(-1, 1)(eng, st, args, n)


def x_memset(eng, st, args, n):
    d, v, ln = args
    if isinstance(d, Ref):
        if num(v) != 0:
            raise Unsupported('memset of a scalar')
        eng.store(st, d.lv, IV(0), n)
        return [(st, IV(0))]
    eng.access(st, d, ln, n, True)
    M2 = fresh('M', AI)
    x = z3.Int('x')
    st.facts.append(forall([x], z3.Select(M2, x) == z3.If(And(x >= d, x < d + ln), v, z3.Select(eng.hget(st, 'M'), x)), [z3.Select(M2, x)]))
    st.H['M'] = M2
    st.written.append(('M', d, 'n'))
    return [(st, d)]


def x_nothing(eng, st, args, n):
    return [(st, IV(1))]


EXT = {'*poll_add': x_poll_add, '*poll_modify': x_poll_modify, '*poll_remove': x_poll_remove, '__errno_location': x_errno,
       'socket': x_newfd, 'accept': x_accept, 'fcntl': x_sys(0), 'connect': x_sys(-1, 1), 'shutdown': x_sys(-1, 1), 'close': x_close,
       'setsockopt': x_sys(-1, 1), 'getsockopt': x_getsockopt, 'memset': x_memset,
       'writev': x_writev, 'strcpy': x_strcpy, 'inet_ntoa': x_nothing,
       'htons': x_swap(16), 'ntohs': x_swap(16), 'htonl': x_swap(32), 'ntohl': x_swap(32)}

SPECS = [FindByIndex(), FindByAddress(), FindByNode(), GetMax(), GetActive(), GetSize(), PendingLen(), InitVector(), Close(), Connect(), Accept(), Complete(), TcpWrite(), Resend(), WriteAck(), WriteControl()]
