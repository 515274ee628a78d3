"""Contracts of the receiving part of rmc_protocol.c, for any table of command handlers.

Ghost state
   g:h.n[0]     number of handler calls
   g:h.at[0]    number of bytes the handlers removed from the receive buffer
   g:h.r[0]     what the last handler returned
   g:got[0]     what the last readv returned
"""
import z3
from vcg import *
import connspec as cs
from connspec import VX, CVI, CN, CV, at, wr, seterr, ConnSpec, CONNECTED, CLOSED, EAGAIN, EPROTO, ENOMEM, EPIPE
import circ
from circ import CB, cell
from lists import LI

s_ = z3.Select
DT = 'rmc_conn_command_dispatch'
HG = ('g:h.n', 'g:h.at', 'g:h.r')


def tlen(D):
    """number of entries of the dispatch table at D"""
    return z3.Function('tablelen', I, I)(D)


class TcpProcess(ConnSpec):
    key = 'rmc_conn_process_tcp_read'
    props = ('C13',)

    def applies(self, eng, st, args):
        # the callers that know their handlers use the code itself
        return getattr(eng, 'curspec', None) is not None and eng.curspec.key == 'rmc_conn_tcp_read'

    def setup(self, c):
        super().setup(c)
        if getattr(c, 'entry', False):
            c.eng.curD, c.eng.curI, c.eng.cur0 = c.a[3], c.a1, c.S0

    def e(self, c, k):
        return c.eng.elt(DT, c.a[3], k)

    def cmd(self, c, k):
        return c.S0.f(DT + '.command', self.e(c, k))

    def fn(self, c, k):
        return c.S0.f(DT + '.dispatch', self.e(c, k))

    def pre(self, c):
        v = self.v0(c)
        k = z3.Int('k')
        n = tlen(c.a[3])
        return [('table given', c.a0 > 0), ('result byte', self.op_ok(c)),
                ('connection', And(v.inr(c.a1), v.is_open(c.a1))),
                ('dispatch table', And(c.a[3] > 0, self.e(c, 0) == c.a[3], n >= 0, self.fn(c, n) == 0, forall([k], Implies(And(k >= 0, k < n), self.fn(c, k) != 0), [self.e(c, k)])))] + self.start(c)

    def op_ok(self, c):
        v = self.v0(c)
        rd, wd = v.rd(c.a1), v.wd(c.a1)
        n = cs.bufsize(c.eng)
        p = c.a2
        return And(p > 0, Or(p < rd, p >= rd + n))

    def start(self, c):
        return [('there is something to process', self.v0(c).rb(c.a1).in_use() >= 1)]

    def regions(self, c):
        v = self.v0(c)
        return [(c.a2, IV(1)), (v.rd(c.a1), IV(cs.bufsize(c.eng)))]

    def handler(self, c, b):
        """a handler is registered for command byte b"""
        k = z3.Int('k')
        return z3.Exists([k], And(k >= 0, k < tlen(c.a[3]), self.cmd(c, k) == b), patterns=[self.e(c, k)])

    def rel(self, c, S):
        """only the handlers have removed bytes, from the front"""
        o, n = self.v0(c).rb(c.a1), VX(S, self.V(c)).rb(c.a1)
        gone = S.gi('g:h.at') - c.S0.gi('g:h.at')
        x = z3.Int('x')
        rd = o.buf
        return [('[C13] exactly what the handlers processed is removed', And(gone >= 0, gone <= o.in_use(), n.in_use() == o.in_use() - gone, Or(n.in_use() == 0, n.start == o.wrap(o.start + gone)))),
                ('buffer kept', And(n.wf(), n.size == o.size, n.buf == o.buf)),
                ('[C13] bytes received are not changed', forall([x], Implies(And(x >= rd, x < rd + o.size), s_(S.h('M'), x) == s_(c.S0.h('M'), x)), [s_(S.h('M'), x)])),
                ('handler calls', S.gi('g:h.n') >= c.S0.gi('g:h.n'))]

    def loop_candidates(self, eng, c, st, E, modenv, wset, vars_):
        out = super().loop_candidates(eng, c, st, E, modenv, wset, vars_)
        k = len(self.rel(c, E))
        out += [(Own(self.rel(c, E)[i][0]), (lambda i: lambda S, env: self.rel(c, S)[i][1])(i)) for i in range(k)]
        j = z3.Int('j')
        D = c.a[3]
        b = lambda S: VX(S, self.V(c)).rb(c.a1)
        out += [('there is a next command', lambda S, env: b(S).in_use() >= 1),
                ('no handler failed so far', lambda S, env: Or(S.gi('g:h.n') == c.S0.gi('g:h.n'), S.gi('g:h.r') == 0))]
        ints = [(k, t) for k, t, v in vars_ if t[0] == 'int' or k in st.env]
        for a, w in cells(st):
            out.append(('command byte', lambda S, env, a=a: S.byte(a) == b(S).at(IV(0))))
        for k, t, v in vars_:
            if k not in modenv:
                continue
            if t[0] == 'ptr' and t[1][0] == 'struct' and t[1][1] == DT:
                ix = lambda env, k=k: eng.elt_idx(DT, term(env[k]))
                out.append(('entry of the dispatch table', lambda S, env, k=k, ix=ix: And(term(env[k]) == eng.elt(DT, D, ix(env)), ix(env) >= 0, ix(env) <= tlen(D))))
                out.append(('no entry so far is for the command', lambda S, env, ix=ix: forall([j], Implies(And(j >= 0, j < ix(env)), self.cmd(c, j) != b(S).at(IV(0))), [self.e(c, j)])))
        return out

    def loop_measures(self, eng, c, s, vars_):
        out = [('bytes to be processed', lambda S, env: VX(S, self.V(c)).rb(c.a1).in_use())]
        for k, t, v in vars_:
            if t[0] == 'ptr' and t[1][0] == 'struct' and t[1][1] == DT:
                out.append(('entries left', lambda S, env, k=k: tlen(c.a[3]) - eng.elt_idx(DT, term(env[k])) + 1))
        return out

    def result(self, c, n):
        S0, S1 = c.S0, c.S1
        called = S1.gi('g:h.n') > S0.gi('g:h.n')
        return [('[C13] succeeds only if everything was processed', Implies(c.r == 0, n.in_use() == 0)),
                ('[C13] an unknown command is a protocol error, otherwise the handler decides',
                 Implies(c.r != 0, Or(And(called, c.r == S1.gi('g:h.r')), And(c.r == EPROTO, n.in_use() >= 1, Not(self.handler(c, n.at(IV(0)))))))),
                ('[C13] a protocol error is reported for an unknown command, or by a handler', Implies(And(c.r == EPROTO, Not(And(called, S1.gi('g:h.r') == EPROTO))), Not(self.handler(c, n.at(IV(0))))))]

    def post(self, c):
        return self.rel(c, c.S1) + self.result(c, VX(c.S1, self.V(c)).rb(c.a1))

    def mods(self, c):
        v = self.v0(c)
        return at(circ.IND, c.eng.embed(CN, 'read_buf', v.c(c.a1))) + [('at', h, IV(0)) for h in HG] + [('at', 'cell.32', cs.ERRNO), ('bytes', c.a2, IV(1))]


def cells(st):
    """address-taken bytes among the local variables"""
    return [(v[1], v[2]) for v in st.env.values() if isinstance(v, tuple) and v[0] == 'mem' and v[2] == ('int', 8, False)]


class TcpRead(TcpProcess):
    key = 'rmc_conn_tcp_read'
    props = ('C13',)

    def applies(self, eng, st, args):
        return False

    def start(self, c):
        return []

    def post(self, c):
        o, n = self.v0(c).rb(c.a1), VX(c.S1, self.V(c)).rb(c.a1)
        S0, S1 = c.S0, c.S1
        got = S1.gi('g:got')
        full = o.in_use() == o.size - 1
        ok = And(Not(full), got > 0)
        gone = S1.gi('g:h.at') - S0.gi('g:h.at')
        called = S1.gi('g:h.n') > S0.gi('g:h.n')
        x = z3.Int('x')
        p = [('[C13] nothing can be read into a full buffer', Implies(full, And(c.r == ENOMEM, n.same(o), Not(called)))),
             ('[C13] a failed read leaves the buffered bytes as they were', Implies(And(Not(full), got <= 0), And(c.r == EPIPE, n.in_use() == o.in_use(), Or(o.in_use() == 0, n.start == o.start), Not(called)))),
             ('[C13] the bytes received are appended, those processed removed', Implies(ok, And(gone >= 0, gone <= o.in_use() + got, n.in_use() == o.in_use() + got - gone,
                                                                                               Or(o.in_use() == 0, n.in_use() == 0, n.start == o.wrap(o.start + gone))))),
             ('buffer kept', And(n.wf(), n.size == o.size, n.buf == o.buf)),
             ('[C13] bytes not processed yet are kept', forall([x], Implies(And(x >= o.buf, x < o.buf + o.size, pos(o, x) < o.in_use()), s_(S1.h('M'), x) == s_(S0.h('M'), x)), [s_(S1.h('M'), x)]))]
        return p + [(l, Implies(ok, g)) for l, g in self.result(c, n)]

    def mods(self, c):
        v = self.v0(c)
        return super().mods(c) + [('at', 'g:got', IV(0)), ('bytes', v.rd(c.a1), IV(cs.bufsize(c.eng)))]


def pos(b, x):
    """position of address x relative to the oldest byte stored"""
    return ite(x - b.buf >= b.start, x - b.buf - b.start, x - b.buf - b.start + b.size)


def x_dispatch(eng, st, args, n):
    """any command handler: it removes a whole command from the front of the receive buffer, or leaves it untouched and returns an error.
       (process_cmd_ack_interval, process_control_message and process_cmd_packet are proved to do so.)"""
    f, conn, ud = args
    S = View(eng, st.H)
    D, i = eng.curD, eng.curI
    v = VX(S, eng.curV)
    b = v.rb(i)
    S0 = eng.cur0
    k, j = z3.Ints('k j')
    e = lambda k: eng.elt(DT, D, k)
    cmd = lambda k: S0.f(DT + '.command', e(k))
    eng.oblige(st, conn == v.c(i), '[C13] the handler gets the connection', n, kind='post')
    eng.oblige(st, b.in_use() >= 1, '[C13] a handler is called for a command received', n, kind='post')
    eng.oblige(st, z3.Exists([k], And(k >= 0, k < tlen(D), S0.f(DT + '.dispatch', e(k)) == f, cmd(k) == b.at(IV(0)),
                                      forall([j], Implies(And(j >= 0, j < k), cmd(j) != b.at(IV(0))), [e(j)])), patterns=[e(k)]),
               '[C13] the handler is the one registered for the command byte', n, kind='post')
    eng.oblige(st, Or(S.gi('g:h.n') == S0.gi('g:h.n'), S.gi('g:h.r') == 0), '[C13] no command is processed after one that was not', n, kind='post')
    r, ln, start, stop = fresh('handler'), fresh('cmdlen'), fresh('start'), fresh('stop')
    p = eng.embed(CN, 'read_buf', v.c(i))
    I0 = b.in_use()
    st.facts.append(And(r >= 0, r < 4096, ln >= ite(r == 0, 1, 0), ln <= I0, Implies(r != 0, ln == 0)))
    wr(st, 'circ_buf.start_ind', p, start, eng)
    wr(st, 'circ_buf.stop_ind', p, stop, eng)
    w = CB(View(eng, st.H), p)
    st.facts.append(And(w.wf(), w.in_use() == I0 - ln, Or(w.in_use() == 0, w.start == b.wrap(b.start + ln)), Implies(r != 0, And(w.start == b.start, w.stop == b.stop))))
    wr(st, 'g:h.n', IV(0), S.gi('g:h.n') + 1, eng)
    wr(st, 'g:h.at', IV(0), S.gi('g:h.at') + ln, eng)
    wr(st, 'g:h.r', IV(0), r, eng)
    return [(st, r)]


def x_readv(eng, st, args, n):
    """assumed: up to the sum of the lengths is received, in order, and nothing else is written"""
    fd, iov, cnt = args
    S = View(eng, st.H)
    v = VX(S, eng.curV)
    i = eng.curI
    b = v.rb(i)
    e = lambda k: eng.elt('iovec', iov, k)
    base = lambda k: S.f('iovec.iov_base', e(k))
    ln = lambda k: S.f('iovec.iov_len', e(k))
    tot = ln(0) + ite(cnt == 2, ln(1), 0)
    o = VX(eng.cur0, eng.curV).rb(i)
    eng.oblige(st, fd == v.desc(i), '[C13] read from the descriptor of the connection', n, kind='post')
    eng.oblige(st, And(Or(cnt == 1, cnt == 2), ln(0) > 0, tot == b.in_use() - o.in_use(), Or(o.in_use() == 0, b.start == o.start), base(0) == b.addr(o.in_use()), base(0) + ln(0) <= b.buf + b.size),
               '[C13] received into free space behind the bytes stored', n, kind='post')
    eng.oblige(st, Implies(And(cnt == 2, ln(1) > 0), And(base(1) == b.buf, base(0) + ln(0) == b.buf + b.size)), '[C13] the second segment continues the first', n, kind='post')
    r = fresh('readv')
    st.facts.append(And(r >= -1, r <= tot))
    seterr(eng, st, r == -1)
    M2 = fresh('M', AI)
    x = z3.Int('x')
    M = eng.hget(st, 'M')
    k = ite(x >= base(0), x - base(0), x - base(1) + ln(0))
    mine = Or(And(x >= base(0), x < base(0) + ln(0), x - base(0) < r), And(cnt == 2, x >= base(1), x < base(1) + ln(1), x - base(1) + ln(0) < r))
    st.facts.append(forall([x], ite(mine, And(s_(M2, x) >= 0, s_(M2, x) <= 255), s_(M2, x) == s_(M, x)), [s_(M2, x)]))
    st.H['M'] = M2
    st.written.append(('M', v.rd(i), 'n'))
    wr(st, 'g:got', IV(0), r, eng)
    return [(st, r)]


EXT = {'*dispatch': x_dispatch, 'readv': x_readv}
SPECS = [TcpProcess(), TcpRead()]
