"""Contracts of rmc_sub_*.c.

Ghost state (besides that of the other files)
   g:rdy.n[0]   number of calls of the packet ready callback
   g:rx[0]      the packet received last
"""
import z3
from vcg import *
from lists import SPK, SPI, RIX, LI, list_candidates, list_measures, node_vars
import subspec as sb
from subspec import (SubSpec, SIP, SII, rl, il, rec, first, last, its, nd_, pid_, pl_, ln_, ud_, pal_, rdy_, rcv_, KH, IH, IF, PKF, PMAX, PT)
from pubspec import TMAX, frame_lists, given
import connspec as cs
from connspec import (VX, CVI, CN, CV, at, NIL, MCAST, LISTEN, READ, WRITE, CLOSED, CONNECTING, CONNECTED, EINVAL, ENOTCONN, ENOMEM, EAGAIN, EPIPE, EPROTO,
                      ENODATA, EBUSY, EMSGSIZE, seterr, wr, ipf, le, low)
import circ
from circ import CB, cell
import rmcspec
from rmcspec import Cmd, TcpStep, Proxy, havoc_bytes

s_ = z3.Select
RS = 'rmc_sub_context'
SP = 'sub_publisher'
ND = sb.ND
ENOENT = 2
cv_ = lambda eng, x: eng.embed(RS, 'conn_vec', x)
F_ = lambda S, f, x: S.f(RS + '.' + f, x)
dr_ = lambda eng, x: eng.embed(RS, 'dispatch_ready', x)
al_ = lambda eng, x: eng.embed(RS, 'pub_ack_list', x)


def pub_(S, X, i):
    """the publisher of slot i"""
    return S.eng.elt(SP, F_(S, 'publishers', X), i)


class PUBS:
    """the publishers of a subscriber context"""

    def __init__(self, X, between=False):
        # between: a packet was received and not yet processed
        self.X, self.between = X, between

    def conj(self, S):
        eng, X = S.eng, self.X
        v = VX(S, cv_(eng, X))
        i, p, n = z3.Ints('i p n')
        B = F_(S, 'publishers', X)
        P = pub_(S, X, i)
        R = rec(S, il(eng, P), p)
        sb.names(eng)
        out = [('publishers: table', And(X > 0, B > 0, eng.elt(SP, B, 0) == B, SPK.val(S, dr_(eng, X)) == 1)),
                ('publishers: lists', forall([i], Implies(v.inr(i), And(P > 0, SPK.val(S, rl(eng, P)) == 1, SPI.val(S, il(eng, P)) == 1)), [P])),
                ('publishers: nothing is held back before the first packet is ready', forall([i], Implies(And(v.inr(i), S.f(rdy_, P) == 0), SPK.cnt(S, rl(eng, P)) == 0), [P])),
                ('publishers: only packets received are to be acknowledged', forall([i, p], Implies(And(v.inr(i), R != 0), Or(p <= S.f(rdy_, P), z3.Exists([n], And(PT(n), SPK.own(S, n) == rl(eng, P), S.f(pid_, S.f(ND, n)) == p), patterns=[SPK.own(S, n), PT(n)]))), [R])),
                ('[C16] publishers: nothing is recorded unless the connection is established', forall([i], Implies(And(v.inr(i), v.mode(i) != CONNECTED), And(SPK.cnt(S, rl(eng, P)) == 0, SPI.cnt(S, il(eng, P)) == 0)), [P, v.c(i)])),
                ('[C16] publishers: one connection per address', forall([i, p], Implies(And(v.inr(i), v.inr(p), v.is_open(i), v.is_open(p), v.f('remote_address', i) == v.f('remote_address', p), v.f('remote_port', i) == v.f('remote_port', p)), i == p), [(v.c(i), v.c(p))]))]
        return [x for x in out if not (self.between and 'nothing is held back' in x[0])]


class ACKI:
    """the publishers to be acknowledged are scheduled"""

    def __init__(self, X):
        self.X = X

    def conj(self, S):
        eng, X = S.eng, self.X
        v = VX(S, cv_(eng, X))
        A = al_(eng, X)
        i, n, m = z3.Ints('i n m')
        P = lambda i: pub_(S, X, i)
        d = lambda n: S.f(RIX.nt + '.data', n)
        o, o2 = RIX.own(S, n), RIX.own(S, m)
        k = lambda i: SPI.cnt(S, il(eng, P(i)))
        return [('schedule: list', RIX.val(S, A) == 1),
                ('[C11] schedule: publishers with something to acknowledge, once', forall([n], Implies(o == A, And(v.inr(d(n)), k(d(n)) > 0, RIX.memb(S, d(n), A) == n)), [o])),
                ('[C11] schedule: every publisher with something to acknowledge', forall([i], Implies(And(v.inr(i), k(i) > 0), RIX.memb(S, i, A) != 0), [P(i), RIX.memb(S, i, A)])),
                ('[C11] schedule: in the order of the oldest arrival', forall([n, m], Implies(And(o == A, o2 == A, RIX.pos(S, n) < RIX.pos(S, m)), sb.OLD(S, P(d(n))) <= sb.OLD(S, P(d(m)))), [(RIX.pos(S, n), RIX.pos(S, m))]))]


class RmcSub(SubSpec):
    """a function on a subscriber context (first argument)"""
    table = True
    between = False

    def X(self, c):
        return c.a0

    def V(self, c):
        return cv_(c.eng, self.X(c))

    def setup(self, c):
        if getattr(c, 'entry', False):
            c.eng.curV, c.eng.curX = self.V(c), self.X(c)

    def invs(self, c):
        return SubSpec.invs(self, c) + ([CVI(self.V(c))] if self.table else []) + [PUBS(self.X(c), self.between), LI(RIX), ACKI(self.X(c))]

    def axioms(self, c):
        L = z3.Int('L')
        return SubSpec.axioms(self, c) + cs.ConnSpec.axioms(self, c) + [forall([L], RIX.cnt(c.S0, L) < (1 << 32) - 2, [RIX.cnt(c.S0, L)])]

    def pre(self, c):
        return [('context given', self.X(c) > 0)]

    def v0(self, c):
        return VX(c.S0, self.V(c))

    def loop_lists(self, c):
        return [(SPK, dr_(c.eng, self.X(c))), (RIX, al_(c.eng, self.X(c)))]

    def D(self, c):
        return dr_(c.eng, self.X(c))


class OfConn(RmcSub):
    """... about one of its connections"""

    def conn(self, c):
        return c.a1

    def idx(self, c):
        return c.eng.elt_idx(CN, self.conn(c))

    def pub(self, c):
        return pub_(c.S0, self.X(c), self.idx(c))

    def pre(self, c):
        v = self.v0(c)
        return super().pre(c) + [('connection of the table', And(self.conn(c) > 0, v.slot(self.conn(c)), v.mode(self.idx(c)) == CONNECTED))]


def kept(self, c):
    """what was held or recorded still is, or is ready"""
    S0, S1 = c.S0, c.S1
    P = self.pub(c)
    L = rl(c.eng, P)
    n, m, p, i = z3.Ints('n m p i')
    Q = pub_(S0, self.X(c), i)
    pd = lambda S, n: S.f(pid_, S.f(ND, n))
    oth = And(VX(S0, self.V(c)).inr(i), i != self.idx(c), SPK.own(S0, n) == rl(c.eng, Q))
    ex = lambda q, Q: Or(p <= S1.f(rdy_, Q), z3.Exists([m], And(PT(m), SPK.own(S1, m) == rl(c.eng, Q), pd(S1, m) == p), patterns=[SPK.own(S1, m), PT(m)]))
    return [('packets held before are held or ready', forall([n], Implies(SPK.own(S0, n) == L, Or(pd(S0, n) <= S1.f(rdy_, P), And(SPK.own(S1, n) == L, pd(S1, n) == pd(S0, n)))), [SPK.own(S0, n)])),
            ('packets held for other publishers are', forall([n, i], Implies(oth, SPK.own(S1, n) == rl(c.eng, Q)), [(SPK.own(S0, n), Q)])),
            ('in the nodes they were in', forall([n, i], Implies(oth, S1.f(ND, n) == S0.f(ND, n)), [(SPK.own(S0, n), Q)])),
            ('with the packet ids they had', forall([n, i], Implies(oth, pd(S1, n) == pd(S0, n)), [(SPK.own(S0, n), Q)])),
            ('packets held for other publishers', forall([n, i], Implies(oth, And(SPK.own(S1, n) == rl(c.eng, Q), pd(S1, n) == pd(S0, n))), [(SPK.own(S0, n), Q)])),
            ('the last packet ready of other publishers', forall([i], Implies(i != self.idx(c), S1.f(rdy_, Q) == S0.f(rdy_, Q)), [Q])),
            ('the last packet ready', S1.f(rdy_, P) >= S0.f(rdy_, P)),
            ('packets recorded for this publisher', forall([p], Implies(rec(S0, il(c.eng, P), p) != 0, ex(p, P)), [rec(S0, il(c.eng, P), p)])),
            ('packets recorded for other publishers', forall([p, i], Implies(And(i != self.idx(c), VX(S0, self.V(c)).inr(i), rec(S0, il(c.eng, Q), p) != 0), ex(p, Q)), [rec(S0, il(c.eng, Q), p)]))]


class Delivery:
    """what becomes of a packet received and the packets held back (mixin of OfConn)"""

    def dup(self, c, pid):
        return sb.IsDuplicate.dup(DUP, Proxy(c, [self.pub(c), pid]))

    def scratch(self, c, x):
        return z3.BoolVal(False)

    def delivered(self, c, pid, ln, byte, recorded):
        """byte(k): byte k of the payload received"""
        S0, S1, eng = c.S0, c.S1, c.eng
        P, D = self.pub(c), self.D(c)
        L = rl(eng, P)
        dd = S1.gi('g:rx')
        n, j, x, d = z3.Ints('n j x d')
        o0, o1 = SPK.own(S0, n), SPK.own(S1, n)
        c0, c1 = SPK.cnt(S0, D), SPK.cnt(S1, D)
        e = SPK.sq(S1, D, j)
        ready = lambda S, k: S.f(pid_, S.f(ND, SPK.sq(S, D, k)))
        nn = s_(S1.h('g:home'), dd)
        pl = S1.f(pl_, dd)
        cbs = F_(S0, 'packet_ready_cb', self.X(c)) != 0
        out = [('[C08,C13,C15] the packet is added, with the packet id received', And(dd > 0, s_(S0.h(pal_), dd) == 0, S1.f(pal_, dd) == 1, S1.f(pid_, dd) == pid, SPK.own(S0, nn) == 0, S1.f(ND, nn) == dd,
                                                                                   Or(SPK.own(S1, nn) == D, SPK.own(S1, nn) == L))),
               ('[C13,C15] with a copy of the payload received, and its length', And(S1.f(ln_, dd) == ln, pl > 0, forall([x], Implies(And(x >= pl, x < pl + ln), s_(S1.h('M'), x) == byte(x - pl)), [s_(S1.h('M'), x)]))),
               ('[C13,C15] nothing else is written', forall([x], Or(x < 0, And(x >= pl, x < pl + ln), self.scratch(c, x), s_(S1.h('M'), x) == s_(S0.h('M'), x)), [s_(S1.h('M'), x)])),
               ('[C13,C15] for the publisher it comes from', And(S1.f(sb.pb_, dd) == P, S1.f(ud_, dd) == self.idx(c))),
               ('[C08,C21] other packets do not change', forall([d], Implies(d != dd, And(*[S1.f(h, d) == S0.f(h, d) for h in PKF + (pal_,)])), [S1.f(pal_, d), S1.f(pid_, d)])),
               ('[C08,C21] no packet is lost', forall([n], Implies(n != nn, Or(And(o1 == o0, S1.f(ND, n) == S0.f(ND, n)), And(o0 == L, o1 == D, S1.f(ND, n) == S0.f(ND, n)))), [o1])),
               ('[C08,C21] packets that were ready keep their place', And(c1 >= c0, forall([j], Implies(And(j >= 0, j < c0), e == SPK.sq(S0, D, j)), [e]))),
               ('[C08] packets become ready in sequence', forall([j], Implies(And(j >= c0, j < c1), ready(S1, j) == S1.f(rdy_, P) - (c1 - 1 - j)), [e])),
               ('[C08] the sequence is continued', Implies(S0.f(rdy_, P) != 0, S1.f(rdy_, P) == S0.f(rdy_, P) + c1 - c0)),
               ('[C08] a first packet is ready at once', Implies(S0.f(rdy_, P) == 0, And(c1 == c0 + 1, S1.f(rdy_, P) == pid))),
               ('[C08] every packet that continues the sequence is ready', forall([n], Implies(o1 == L, S1.f(pid_, S1.f(ND, n)) > S1.f(rdy_, P) + 1), [o1])),
               ('[C08] the callback is made exactly if there are new ones', S1.gi('g:rdy.n') == S0.gi('g:rdy.n') + ite(And(cbs, c1 > c0), 1, 0)),
               ('clock', S1.gi('g:now') >= S0.gi('g:now'))] + frame_lists(SPK, S0, S1, [L, D])
        return out

    def kept(self, c):
        return kept(self, c)

    def dmods(self, c):
        return [('all', h) for h in KH + [ND, pal_, 'M', 'g:home'] + list(PKF)] + [('at', rdy_, self.pub(c)), ('at', rcv_, self.pub(c)), ('at', 'g:now', IV(0)), ('at', 'g:rx', IV(0)), ('at', 'g:rdy.n', IV(0))]


DUP = sb.IsDuplicate()


class PacketReceived(RmcSub):
    """a packet received by multicast, which is to be acknowledged"""
    key = 'rmc_sub_packet_received'
    props = ('C08', 'C10', 'C11')
    REC = sb.Received()
    between = True
    ghosts = ('g:home', 'g:rx')

    def idx(self, c):
        return c.a1

    def pub(self, c):
        return pub_(c.S0, self.X(c), c.a1)

    def P(self, c):
        p = Proxy(c, [self.pub(c), c.a2, c.a3, c.a4, IV(1), c.a5, c.a1])
        p.__dict__['case'] = 'recorded'
        return p

    def pre(self, c):
        v = self.v0(c)
        return super().pre(c) + [('established connection', And(v.inr(c.a1), v.mode(c.a1) == CONNECTED))] + self.REC.pre(self.P(c))[1:]

    def setup(self, c):
        super().setup(c)
        self.REC.setup(c)

    def exit_setup(self, c):
        c.vals['node'] = s_(c.S1.h('g:home'), c.S1.gi('g:rx'))

    def ghost(self, c):
        self.REC.ghost(c)

    def ghost_skipped(self, c):
        pass

    def ghost_post(self, c):
        S0, S1 = c.S0, c.S1
        nn = c.vals['node']
        dd = s_(S1.h(ND), nn)
        return [('packet received last', And(S1.gi('g:rx') == dd, S1.h('g:home') == z3.Store(S0.h('g:home'), dd, nn)))]

    def lemmas(self, c):
        S0, S1, eng, X = c.S0, c.S1, c.eng, self.X(c)
        v = self.v0(c)
        P, A = self.pub(c), al_(eng, X)
        i, n, m = z3.Ints('i n m')
        Q = lambda i: pub_(S0, X, i)
        d = lambda n: S0.f(RIX.nt + '.data', n)
        IL = il(eng, P)
        pend = SPI.cnt(S0, IL) > 0
        return kept(self, c) + [
            ('the oldest packet of other publishers', forall([i], Implies(And(v.inr(i), i != c.a1), sb.OLD(S1, Q(i)) == sb.OLD(S0, Q(i))), [Q(i)])),
            ('the packet is recorded as received now', rec(S1, IL, c.a2) == S1.gi('g:now') + 1),
            ('other packets of the publisher are recorded as before', forall([n], Implies(n != c.a2, rec(S1, IL, n) == rec(S0, IL, n)), [rec(S1, IL, n)])),
            ('no packet is recorded in the future', forall([n], rec(S0, IL, n) <= S0.gi('g:now') + 1, [rec(S0, IL, n)])),
            ('nothing is recorded if nothing is to be acknowledged', forall([n], Implies(Not(pend), rec(S0, IL, n) <= 0), [rec(S0, IL, n)])),
            ('the first packet is the oldest', Implies(Not(pend), sb.OLD(S1, P) == S1.gi('g:now'))),
            ('the oldest packet is not younger', Implies(pend, sb.OLD(S1, P) <= sb.OLD(S0, P))),
            ('the oldest packet is not older', Implies(pend, sb.OLD(S1, P) >= sb.OLD(S0, P))),
            ('the oldest packet', sb.OLD(S1, P) == ite(pend, sb.OLD(S0, P), S1.gi('g:now'))),
            ('order of those scheduled before', forall([n, m], Implies(And(RIX.own(S0, n) == A, RIX.own(S0, m) == A, RIX.pos(S0, n) < RIX.pos(S0, m)), sb.OLD(S1, Q(d(n))) <= sb.OLD(S1, Q(d(m)))), [(RIX.pos(S0, n), RIX.pos(S0, m))]))]

    def post(self, c):
        return self.REC.post(self.P(c)) + [('succeeds', c.r == 0)]

    def mods(self, c):
        return self.REC.mods(self.P(c)) + [('all', h) for h in RH]


RH = [RIX.nt + '.next', RIX.nt + '.prev', RIX.nt + '.owner', RIX.nt + '.data', RIX.lt + '.head', RIX.lt + '.tail', RIX.lt + '.elem_count'] + [RIX.G[k] for k in ('own', 'pos', 'sq', 'alive', 'memb')]


class CmdPacket(Delivery, Cmd, OfConn):
    key = 'process_cmd_packet'
    props = ('C13', 'C08', 'C09', 'C21')
    HDR = 20
    verify_cases = True
    CASES = ['incomplete', 'duplicate', 'delivered']

    def X(self, c):
        return c.a1

    def conn(self, c):
        return c.a0

    def setup(self, c):
        super().setup(c)
        if getattr(c, 'entry', False):
            c.eng.curLen = self.field(c, 12, 2)

    def total(self, c):
        return 21 + self.field(c, 12, 2)

    def pid(self, c):
        return self.field(c, 0, 8)

    def pre(self, c):
        return super().pre(c) + [('packet id', Implies(self.complete(c), And(self.pid(c) >= 1, self.pid(c) < PMAX)))]

    def cases(self, c):
        return self.CASES

    def exhaustive(self, c):
        return TRUE

    def case_facts(self, c):
        k = self.CASES.index(c.case)
        ok, dup = self.complete(c), self.dup(c, self.pid(c))
        return [Not(ok)] if k == 0 else [ok, dup if k == 1 else Not(dup)]

    def post(self, c):
        out = self.consumed(c)
        if c.case == 'delivered':
            b = self.rb(c.S0, c)
            out += self.delivered(c, self.pid(c), self.field(c, 12, 2), lambda k: s_(c.S0.h('M'), b.addr(21 + k)), False)
        return out

    def lemmas(self, c):
        return self.kept(c) if c.case == 'delivered' else []

    def mods(self, c):
        k = self.CASES.index(c.case)
        return [] if k == 0 else self.bmods(c) + (self.dmods(c) if k == 2 else [])


# ---------------------------------------------------------------- multicast
NOTREADY, MREAD = 4, 1              # RMC_READ_MULTICAST_NOT_READY, RMC_READ_MULTICAST


class Multicast(Delivery, RmcSub):
    """processes one datagram: (context, result byte or null, sender, datagram, its length)"""
    key = 'process_multicast_read'
    merge = True
    split = 6
    props = ('C15', 'C16', 'C08', 'C09', 'C11')
    verify_cases = True
    CASES = ['invalid', 'being set up', 'data, not subscribed', 'announcement, not subscribed', 'announcement, subscribed', 'duplicate', 'delivered']

    def hdr(self, c, off, w):
        return le(c.S0, lambda k: c.a3 + off + k, w)

    def pid(self, c): return self.hdr(c, 0, 8)
    def node(self, c): return self.hdr(c, 8, 4)
    def plen(self, c): return self.hdr(c, 12, 2)
    def port(self, c): return self.hdr(c, 18, 2)
    def ip(self, c): return ite(self.hdr(c, 14, 4) == 0, c.a2, self.hdr(c, 14, 4))

    def cases(self, c):
        return self.CASES

    def exhaustive(self, c):
        return TRUE

    def setup(self, c):
        super().setup(c)
        c.vals['k'] = fresh('match')
        if getattr(c, 'entry', False):
            c.eng.curLen = self.plen(c)
            c.eng.curAnn = (self.ip(c), self.port(c), self.node(c), c.a3 + 20, self.plen(c))

    def exit_setup(self, c):
        pass

    def idx(self, c):
        return c.vals['k']

    def pub(self, c):
        return pub_(c.S0, self.X(c), self.idx(c))

    def match(self, c, i):
        v = self.v0(c)
        return And(v.inr(i), v.is_open(i), v.f('remote_address', i) == self.ip(c), v.f('remote_port', i) == self.port(c))

    def regions(self, c):
        return [(c.a3, ite(c.a4 >= 0, c.a4, IV(0))), (c.a1, ite(c.a1 != 0, IV(1), IV(0)))]

    def pre(self, c):
        return super().pre(c) + [('datagram', And(c.a4 >= 0, c.a3 != 0, c.a2 >= 0, c.a2 < (1 << 32), Or(c.a1 == 0, c.a1 + 1 <= c.a3, c.a1 >= c.a3 + c.a4))),
                                 ('packet id', Implies(c.a4 >= 20, self.pid(c) < PMAX))]

    def valid(self, c):
        return And(c.a4 >= 20, c.a4 >= 20 + self.plen(c))

    def case_facts(self, c):
        # k: the connection to the address of the publisher, if there is one
        k, i, v = c.vals['k'], z3.Int('i'), self.v0(c)
        some = self.match(c, k)
        n = self.CASES.index(c.case)
        out = [forall([i], Implies(self.match(c, i), some), [v.c(i)])]
        if n == 0:
            return out + [Not(self.valid(c))]
        out.append(self.valid(c))
        pid = self.pid(c)
        est = [some, v.mode(k) == CONNECTED]
        return out + [None, [some, v.mode(k) == CONNECTING], [Not(some), pid != 0], [Not(some), pid == 0], est + [pid == 0],
                      est + [pid != 0, self.dup(c, pid)], est + [pid != 0, Not(self.dup(c, pid))]][n]

    def scratch(self, c, x):
        return Or(And(x >= c.a3 + 14, x < c.a3 + 18), And(c.a1 != 0, x == c.a1))

    def accepted(self, c):
        return Or(F_(c.S0, 'announce_cb', self.X(c)) == 0, c.S1.gi('g:an.r') != 0)

    def lemmas(self, c):
        return kept(self, c) if c.case == 'delivered' else []

    def post(self, c):
        n = self.CASES.index(c.case)
        S0, S1, v, w = c.S0, c.S1, self.v0(c), VX(c.S1, self.V(c))
        if n == 0:
            return [('[C15] a datagram that is too short is rejected', c.r == EPROTO)]
        out = [('succeeds', c.r == 0),
               ('[C15,C16] the kind of operation is reported', Implies(c.a1 != 0, S1.byte(c.a1) == (NOTREADY if n < 4 else MREAD))),
               ('clock', S1.gi('g:now') >= S0.gi('g:now'))]
        if n == 3:
            i, x = z3.Ints('i x')
            acc = self.accepted(c)
            out += [('[C16] the callback is asked exactly once', S1.gi('g:an.n') == S0.gi('g:an.n') + ite(F_(S0, 'announce_cb', self.X(c)) != 0, 1, 0)),
                    ('[C16] no subscription is set up unless the announcement is accepted', Implies(Not(acc), And(*[S1.h(h) == S0.h(h) for h in cs.CF + ('g:poll', 'g:fd', 'g:open', 'g:fdo')], w.act == v.act, w.max == v.max))),
                    ('[C16] at most one subscription is set up', Or(w.act == v.act, w.act == v.act + 1)),
                    ('[C16] a subscription is set up with the address, port and node id of the announcement',
                     forall([i], Implies(And(v.inr(i), Not(v.is_open(i)), w.is_open(i)), And(w.mode(i) == CONNECTING, w.f('action', i) == WRITE, w.f('remote_address', i) == self.ip(c), w.f('remote_port', i) == self.port(c),
                                                                                            w.f('node_id', i) == self.node(c), w.act == v.act + 1)), [v.c(i)]))]
            for h in cs.CF + ('g:poll',):
                a = s_(S1.h(h), x)
                k = x if h == 'g:poll' else c.eng.elt_idx(CN, x)
                mine = Or(Not(v.inr(x)), Not(v.is_open(x))) if h == 'g:poll' else And(v.slot(x), Not(v.is_open(k)))
                out.append(('[C16,C17] no other connection is disturbed (%s)' % h, forall([x], Or(x < 0, mine, a == s_(S0.h(h), x)), [a])))
        elif n == 6:
            out += self.delivered(c, self.pid(c), self.plen(c), lambda k: s_(S0.h('M'), c.a3 + 20 + k), True)
            p, L = z3.Ints('p L')
            IL = il(c.eng, self.pub(c))
            h0, h1 = S0.h('gS:rec'), S1.h('gS:rec')
            R = s_(s_(h1, IL), p)
            out += [('[C10,C11,C15] the packet is recorded as received now', And(rec(S1, IL, self.pid(c)) > S0.gi('g:now'), rec(S1, IL, self.pid(c)) <= S1.gi('g:now') + 1)),
                    ('[C10,C11] other packets of the publisher', forall([p], Implies(p != self.pid(c), R == s_(s_(h0, IL), p)), [R])),
                    ('[C10,C11] other publishers', forall([L], Implies(L != IL, s_(h1, L) == s_(h0, L)), [s_(h1, L)]))]
        return out

    def mods(self, c):
        n = self.CASES.index(c.case)
        if n == 0:
            return []
        m = [('bytes', c.a3 + 14, IV(4)), ('bytes', c.a1, ite(c.a1 != 0, IV(1), IV(0)))]
        if n == 3:
            m += [('all', h) for h in cs.CF + ('g:poll', 'g:fd', 'g:open', 'g:fdo')] + at([CV + '.max_connection_ind', CV + '.active_connection_count'], self.V(c)) + \
                [('at', 'cell.32', cs.ERRNO), ('at', 'g:an.n', IV(0)), ('at', 'g:an.r', IV(0))]
        elif n >= 4:
            m += [('at', 'g:now', IV(0))]
        if n == 6:
            m += self.dmods(c) + [('all', h) for h in IH + list(IF) + RH + ['gS:rec']]
        return m


class McastRead(RmcSub):
    key = 'multicast_read'
    props = ('C15', 'C16')
    M = Multicast()

    def regions(self, c):
        return [(c.a1, ite(c.a1 != 0, IV(1), IV(0)))]

    def post(self, c):
        S0, S1 = c.S0, c.S1
        no = F_(S0, 'mcast_recv_descriptor', c.a0) == -1
        return [('[C15] ends with an error only', c.r != 0),
                ('not activated', Implies(no, And(c.r == ENOTCONN, S1.gi('g:dgr.n') == S0.gi('g:dgr.n')))),
                ('[C15] polling goes on', Implies(And(Not(no), S0.f(CV + '.poll_modify', self.V(c)) != 0), S1.f('g:poll', IV(MCAST)) == 1 + READ)),
                ('clock', S1.gi('g:now') >= S0.gi('g:now'))]

    def loop_candidates(self, eng, c, st, E, modenv, wset, vars_):
        return super().loop_candidates(eng, c, st, E, modenv, wset, vars_) + [('clock', lambda S, env: S.gi('g:now') >= c.S0.gi('g:now'))]

    def loop_measures(self, eng, c, s, vars_):
        return [('datagrams', lambda S, env: S.gi('g:dgr.q'))] + super().loop_measures(eng, c, s, vars_)

    def mods(self, c):
        hs = list(cs.CF) + ['g:poll', 'g:fd', 'g:open', 'g:fdo', 'gS:rec', 'M', 'g:home', pal_, ND, rdy_, rcv_] + KH + IH + list(IF) + RH + list(PKF)
        return [('all', h) for h in dict.fromkeys(hs)] + at([CV + '.max_connection_ind', CV + '.active_connection_count'], self.V(c)) + \
            [('at', 'cell.32', cs.ERRNO)] + [('at', h, IV(0)) for h in ('g:an.n', 'g:an.r', 'g:now', 'g:rx', 'g:rdy.n', 'g:dgr.n', 'g:dgr.q')]


def x_recvfrom(eng, st, args, n):
    """assumed: up to the length given is received and nothing else is written; packet ids are below 2^64 - 1"""
    fd, buf, ln, fl, sa, sl = args
    S = View(eng, st.H)
    eng.oblige(st, fd == F_(S, 'mcast_recv_descriptor', eng.curX), '[C15] received on the multicast socket', n, kind='post')
    eng.access(st, buf, ln, n, True)
    r, a = fresh('recvfrom'), fresh('sender')
    st.facts.append(And(r >= -1, r <= ln, a >= 0, a < (1 << 32)))
    seterr(eng, st, r == -1)
    eng.havoc(st, ('bytes', buf, ln))
    wr(st, 'in_addr.s_addr', eng.embed('sockaddr_in', 'sin_addr', sa), ipf('swap32', a, 32, eng), eng)
    wr(st, 'g:dgr.n', IV(0), S.gi('g:dgr.n') + ite(r > 0, 1, 0), eng)
    # assumed: finitely many datagrams are waiting
    q = fresh('waiting')
    st.facts.append(And(q >= 0, Implies(r > 0, S.gi('g:dgr.q') == q + 1)))
    wr(st, 'g:dgr.q', IV(0), q, eng)
    S = View(eng, st.H)
    st.facts.append(le(S, lambda k: buf + k, 8) < PMAX)
    return [(st, r)]


def x_announce_cb(eng, st, args, n):
    """assumed: callbacks do not call back into the library"""
    if len(args) != 7:
        return rmcspec.x_announce_cb(eng, st, args, n)
    eng.oblige(st, And(args[1] == eng.curX, *[a == b for a, b in zip(args[2:], eng.curAnn)]), '[C16] the callback is given address, port, node id and payload of the announcement', n, kind='post')
    r = fresh('announce')
    st.facts.append(And(r >= 0, r <= 255))
    wr(st, 'g:an.n', IV(0), select(eng.hget(st, 'g:an.n'), IV(0)) + 1, eng)
    wr(st, 'g:an.r', IV(0), r, eng)
    return [(st, r)]


# ---------------------------------------------------------------- writing
SC = ('g:sc.n', 'g:sc.addr', 'g:sc.port', 'g:sc.node')
COMPLETE = cs.Complete()
INITP = sb.InitPublisher()


class SubWrite(TcpStep, RmcSub):
    key = 'rmc_sub_write'
    props = ('C14', 'C16')
    verify_cases = True
    CASES = ['being set up', 'connection']
    COMPL = 9                       # RMC_COMPLETE_CONNECTION

    def cases(self, c):
        return self.CASES

    def exhaustive(self, c):
        return TRUE

    def setting_up(self, c):
        v = self.v0(c)
        return And(v.inr(c.a1), v.mode(c.a1) == CONNECTING)

    def case_facts(self, c):
        return [self.setting_up(c) if c.case == 'being set up' else Not(self.setting_up(c))]

    def pub(self, c):
        return pub_(c.S0, self.X(c), c.a1)

    def pre(self, c):
        return super().pre(c) + [('index', c.a1 >= 0)]

    def PC(self, c):
        return Proxy(c, [self.V(c), self.v0(c).c(c.a1)])

    def PI(self, c):
        return Proxy(c, [self.pub(c)])

    def post(self, c):
        if c.case != 'being set up':
            return self.tcp_post(c)
        S0, S1, v, w = c.S0, c.S1, self.v0(c), VX(c.S1, self.V(c))
        i = c.a1
        k0 = S0.gi('g:sc.n')
        k = z3.Int('k')
        told = And(c.r == 0, F_(S0, 'subscription_complete_cb', self.X(c)) != 0)
        log = lambda S, nm, k: s_(S.h('g:sc.' + nm), k)
        return [('[C16] ' + l, b) for l, b in COMPLETE.post(self.PC(c))] + INITP.post(self.PI(c)) + [
            self.opres(c, self.COMPL),
            ('[C16] the application is told exactly of a subscription complete', S1.gi('g:sc.n') == k0 + ite(told, 1, 0)),
            ('[C16] with the address, port and node id of the publisher', Implies(told, And(log(S1, 'addr', k0) == v.f('remote_address', i), log(S1, 'port', k0) == v.f('remote_port', i), log(S1, 'node', k0) == v.f('node_id', i)))),
            ('calls made before', forall([k], Implies(k < k0, And(*[log(S1, nm, k) == log(S0, nm, k) for nm in ('addr', 'port', 'node')])), [log(S1, 'addr', k)]))]

    def mods(self, c):
        if c.case != 'being set up':
            return self.tcp_mods(c)
        k = c.S0.gi('g:sc.n')
        return COMPLETE.mods(self.PC(c)) + INITP.mods(self.PI(c)) + [('at', 'g:open', c.a1), ('at', 'gS:rec', il(c.eng, self.pub(c))), ('bytes', c.a2, ite(c.a2 != 0, IV(1), IV(0))),
                                                                    ('at', SC[0], IV(0))] + [('at', h, k) for h in SC[1:]]


# ---------------------------------------------------------------- callbacks
def x_complete_cb(eng, st, args, n):
    """assumed: callbacks do not call back into the library"""
    f, ctx, addr, port, node = args
    k = select(eng.hget(st, SC[0]), IV(0))
    eng.oblige(st, ctx == eng.curX, '[C16] the callback gets the context', n, kind='post')
    for h, x in zip(SC[1:], (addr, port, node)):
        wr(st, h, k, x, eng)
    wr(st, SC[0], IV(0), k + 1, eng)
    return [(st, IV(0))]


def x_payload_alloc(eng, st, args, n):
    """assumed: returns fresh memory of the size asked for"""
    f, ln, ud = args
    import ext
    eng.oblige(st, ln == eng.curLen, '[C15,C13] memory of exactly the length of the payload is asked for', n, kind='post')
    return ext.x_malloc(eng, st, [ln], n)


def x_packet_ready(eng, st, args, n):
    """assumed: callbacks do not call back into the library"""
    wr(st, 'g:rdy.n', IV(0), select(eng.hget(st, 'g:rdy.n'), IV(0)) + 1, eng)
    eng.oblige(st, args[1] == eng.curX, '[C08] the callback gets the context', n, kind='post')
    return [(st, IV(0))]


EXT = {'recvfrom': x_recvfrom, '*announce_cb': x_announce_cb, '*payload_alloc': x_payload_alloc, '*packet_ready_cb': x_packet_ready, '*subscription_complete_cb': x_complete_cb}
SPECS = [PacketReceived, CmdPacket, SubWrite, Multicast, McastRead]
SPECS = [c() for c in SPECS]
