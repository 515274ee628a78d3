"""Contracts of rmc_pub_*.c and rmc_sub_*.c.

Ghost state (besides that of the other files)
   g:lastq[0]   the packet queued last
   g:dg.n, g:dg.d[k]   log of the datagrams the kernel accepted: number and packet of each
"""
import z3
from vcg import *
from lists import PP, PS, LI, SPK, SPI, list_candidates, list_measures, node_vars
import pubspec as pb
from pubspec import PI, q_, f_, sl_, infl, member, awaits, given, TMAX, LHEAPS, SHEAPS, frame_lists, same_order, old_nodes, removed, card_axioms
import connspec as cs
from connspec import (VX, CVI, CN, CV, at, NIL, MCAST, LISTEN, READ, WRITE, CLOSED, CONNECTING, CONNECTED, EINVAL, ENOTCONN, ENOMEM, EAGAIN, EPIPE, EPROTO,
                      ENODATA, EBUSY, EMSGSIZE, seterr, wr, ipf, le, low, header_fields)
import circ
from circ import CB, cell

s_ = z3.Select
RP = 'rmc_pub_context'
ND = pb.ND
pc_ = lambda eng, x: eng.embed(RP, 'pub_ctx', x)
cv_ = lambda eng, x: eng.embed(RP, 'conn_vec', x)
PF_ = lambda S, f, x: S.f(RP + '.' + f, x)
UDPMAX = 65507              # largest UDP payload over IPv4
susp_ = RP + '.traffic_suspended'


class QI:
    """packets were not sent in the future, and those queued fit a datagram"""

    def __init__(self, x):
        self.x = x

    def conj(self, S):
        n = z3.Int('n')
        f = f_(S.eng, self.x)
        now = S.gi('g:now')
        return [('clock', And(now >= 0, now < TMAX, forall([n], Implies(PP.own(S, n) == f, S.f(pb.ts_, S.f(ND, n)) <= now), [PP.own(S, n)]))),
                ('queued packets fit a datagram', forall([n], Implies(PP.own(S, n) == q_(S.eng, self.x), And(S.f(pb.ln_, S.f(ND, n)) >= 0, S.f(pb.ln_, S.f(ND, n)) <= maxpayload(S.eng))), [PP.own(S, n)]))]


class RmcPub(pb.PubSpec):
    """a function on a publisher context (first argument)"""
    table = False

    def X(self, c):
        """the rmc_pub_context"""
        return c.a0

    def x(self, c):
        return pc_(c.eng, self.X(c))

    def V(self, c):
        return cv_(c.eng, self.X(c))

    def setup(self, c):
        if getattr(c, 'entry', False):
            c.eng.curV = self.V(c)
            c.eng.curX = self.X(c)

    def invs(self, c):
        return [LI(PP), LI(PS), PI(self.x(c)), QI(self.x(c))] + ([CVI(self.V(c))] if self.table else [])

    def axioms(self, c):
        a = super().axioms(c)
        if self.table:
            a += cs.ConnSpec.axioms(self, c)
        return a

    def pre(self, c):
        return [('context given', self.X(c) > 0)]

    def pollm(self, c):
        """poll-modify is given"""
        return c.S0.f(CV + '.poll_modify', self.V(c)) != 0


def maxpayload(eng):
    # the announcement buffer is RMC_MAX_PAYLOAD bytes
    return eng.P.fieldty(RP, 'announce_payload')[2]


class Queue(RmcPub):
    key = 'rmc_pub_queue_packet'
    props = ('C04', 'C18', 'C19')
    ghosts = ('g:lastq',)

    def refused(self, c):
        return ite(Or(c.a0 == 0, c.a1 == 0), EINVAL, ite(c.a2 > maxpayload(c.eng), EMSGSIZE, ite(PF_(c.S0, 'traffic_suspended', c.a0) != 0, EBUSY, 0)))

    def setup(self, c):
        super().setup(c)
        if not getattr(c, 'entry', False):
            c.vals['last'] = fresh('lastq')

    def ghost(self, c):
        if 'last' in c.vals:
            c.S1.setat('g:lastq', IV(0), ite(self.refused(c) == 0, c.vals['last'], c.S0.gi('g:lastq')))

    def ghost_post(self, c):
        return []

    def ghost_skipped(self, c):
        pass

    def pid(self, c):
        return ite(c.a3 != 0, 0, c.S0.f(pb.np_, self.x(c)))

    def post(self, c):
        eng, S0, S1, x = c.eng, c.S0, c.S1, self.x(c)
        q, f = q_(eng, x), f_(eng, x)
        ref = self.refused(c)
        ok = ref == 0
        d, n = z3.Ints('d n')
        dd = S1.gi('g:lastq')
        nn = PP.memb(S1, dd, q)
        p = [('[C19] what is accepted fits a datagram, and the send buffer of a control connection', Implies(c.r == 0, And(20 + c.a2 <= UDPMAX, 21 + c.a2 < cs.bufsize(eng)))),
             ('[C18,C19] refused if too large or suspended', c.r == ref),
             ('[C04,C18,C19] a refused packet has no effect', Implies(Not(ok), self.nothing(c)))]
        return p + [(l, Implies(ok, b)) for l, b in self.effects(c)]

    def effects(self, c):
        """of a packet accepted"""
        eng, S0, S1, x = c.eng, c.S0, c.S1, self.x(c)
        q, f = q_(eng, x), f_(eng, x)
        d, n = z3.Ints('d n')
        dd = S1.gi('g:lastq')
        nn = PP.memb(S1, dd, q)
        return [('[C04] next packet id', S1.f(pb.np_, x) == S0.f(pb.np_, x) + ite(c.a3 != 0, 0, 1)),
             ('[C04,C18] one new packet is queued', And(dd > 0, nn > 0, PP.own(S0, nn) == 0, PP.own(S1, nn) == q, S1.f(ND, nn) == dd, s_(S0.h(pb.pal_), dd) == 0, S1.f(pb.pal_, dd) == 1, PP.alive(S0, nn) == 0,
                                                        eng.tagof(dd) == 0, eng.tagof(nn) == 0, PP.cnt(S1, q) == PP.cnt(S0, q) + 1)),
             ('[C04,C05,C19,C22] the packet carries what was given', And(S1.f(pb.pid_, dd) == self.pid(c), S1.f(pb.pl_, dd) == c.a1, S1.f(pb.ln_, dd) == c.a2, S1.f(pb.rc_, dd) == 0)),
             ('[C04] other nodes keep their list', old_nodes(PP, S0, S1, new=[nn])),
             ('[C04] queued packets keep their order', same_order(PP, S0, S1, q)),
             ('[C04] packets do not change', forall([d], Implies(d != dd, And(*[S1.f(h, d) == S0.f(h, d) for h in pb.PKF + (pb.pal_,)])), [S1.f(pb.pal_, d), S1.f(pb.pid_, d)])),
             ('data of other nodes', forall([n], Implies(n != nn, S1.f(ND, n) == S0.f(ND, n)), [S1.f(ND, n)])),
             ('[C18] traffic is suspended exactly at the threshold',
              (PF_(S1, 'traffic_suspended', c.a0) != 0) == And(PF_(S0, 'traffic_suspend_threshold', c.a0) > 0, PP.cnt(S0, f) >= PF_(S0, 'traffic_suspend_threshold', c.a0))),
             ('[C19] write polling is asked for', Implies(self.pollm(c), S1.f('g:poll', IV(MCAST)) == 1 + WRITE)),
             ('membership', S1.h(PP.G['memb']) == z3.Store(S0.h(PP.G['memb']), dd, z3.Store(s_(S0.h(PP.G['memb']), dd), q, nn)))] + frame_lists(PP, S0, S1, [q])

    def hmods(self, c):
        return [('all', h) for h in LHEAPS + [ND, pb.pal_] + list(pb.PKF)]

    def nothing(self, c):
        return And(*[c.S1.h(m[1]) == c.S0.h(m[1]) for m in self.hmods(c)], *[c.S1.f(m[1], m[2]) == c.S0.f(m[1], m[2]) for m in self.atmods(c)])

    def atmods(self, c):
        return [('at', pb.np_, self.x(c)), ('at', susp_, c.a0), ('at', 'g:poll', IV(MCAST))]

    def mods(self, c):
        return self.hmods(c) + self.atmods(c)

    def pre(self, c):
        # an argument error is reported without looking at the context
        return [('context given', c.a0 > 0)]


def nextq(S, x):
    """the next packet to send: the one at the end of the queue"""
    q = q_(S.eng, x)
    return S.f(ND, PP.sq(S, q, PP.cnt(S, q) - 1))


class SendOne(RmcPub):
    key = 'send_single_multicast_packet'
    props = ('C19', 'C04', 'C05')
    verify_cases = True
    CASES = ['not sent', 'announcement sent', 'sent, nobody subscribed', 'sent']

    def cases(self, c):
        return self.CASES

    def exhaustive(self, c):
        return TRUE

    def axioms(self, c):
        return super().axioms(c) + [pb.card_witness(c.eng)]

    def subs(self, c):
        return PS.cnt(c.S0, sl_(c.eng, self.x(c)))

    def case_facts(self, c):
        p = c.S0.f(pb.pid_, c.a1)
        k = self.CASES.index(c.case)
        if k == 0:
            return [c.r != 0] if c.r is not None else []
        f = [p == 0] if k == 1 else [p != 0, self.subs(c) == 0 if k == 2 else self.subs(c) > 0]
        return f + ([c.r == 0] if c.r is not None else [])

    def pre(self, c):
        x, S, d = self.x(c), c.S0, c.a1
        q = q_(c.eng, x)
        return super().pre(c) + [('packet is the next one queued', And(d > 0, PP.cnt(S, q) > 0, d == nextq(S, x)))]

    def post(self, c):
        eng, S0, S1, x, dd = c.eng, c.S0, c.S1, self.x(c), c.a1
        q, f, sl = q_(eng, x), f_(eng, x), sl_(eng, x)
        n, d, k = z3.Ints('n d k')
        par = S0.f(pb.par_, dd)
        k0 = S0.gi('g:dg.n')
        i = self.CASES.index(c.case)
        rearm = lambda g: Implies(And(self.pollm(c), g), S1.f('g:poll', IV(MCAST)) == ite(PP.cnt(S1, q) > 0, 1 + WRITE, 1))
        if i == 0:
            return [('[C19] a packet that could not be sent stays queued', And(c.r != 0, S1.gi('g:dg.n') == k0, S1.gi('g:now') >= S0.gi('g:now'))),
                    ('[C19] and will be retried', rearm(c.r == EAGAIN))]
        out = [('[C19] sent as exactly one datagram', And(S1.gi('g:dg.n') == k0 + 1, s_(S1.h('g:dg.d'), k0) == dd, forall([k], Implies(k < k0, s_(S1.h('g:dg.d'), k) == s_(S0.h('g:dg.d'), k)), [s_(S1.h('g:dg.d'), k)]))),
               ('[C19] polling while packets are queued', And(c.r == 0, rearm(TRUE))),
               ('clock', S1.gi('g:now') >= S0.gi('g:now')),
               ('[C04,C05] leaves the queue', And(PP.cnt(S1, q) == PP.cnt(S0, q) - 1, same_order(PP, S0, S1, q), PP.own(S1, par) == (f if i == 3 else 0))),
               ('[C04] the rest of the queue stays', forall([n], Implies(And(n >= 0, n < PP.cnt(S1, q)), PP.sq(S1, q, n) == PP.sq(S0, q, n)), [PP.sq(S1, q, n)])),
               ('[C04,C05] other packets do not change', forall([d], Implies(d != dd, And(*[S1.f(h, d) == S0.f(h, d) for h in pb.PKF + (pb.pal_,)])), [S1.f(pb.pal_, d), S1.f(pb.rc_, d)])),
               ('[C05] others are awaited as before', forall([d], Implies(d != dd, s_(S1.h(PP.G['memb']), d) == s_(S0.h(PP.G['memb']), d)), [s_(S1.h(PP.G['memb']), d)])),
               ('[C04] no other node leaves or changes its list', forall([n], Implies(And(PP.own(S0, n) != 0, n != par), And(PP.own(S1, n) == PP.own(S0, n), S1.f(ND, n) == S0.f(ND, n))), [PP.own(S1, n)]))]
        kf = S0.gi('g:pf.n')
        if i == 1:
            out += [('[C05] an announcement is released without handing out its payload', And(S1.gi('g:pf.n') == kf, S1.f(pb.pal_, dd) == 0))]
        elif i == 2:
            out += [('[C05] a packet sent while there is no subscriber is released at once', And(S1.f(pb.pal_, dd) == 0, S1.gi('g:pf.n') == kf + 1, pb.freed_entry(S0, S1, dd, kf), pb.log_same_before(S0, S1)))]
        else:
            out += [('[C05] a packet sent is kept, and its payload is not freed', And(S1.gi('g:pf.n') == kf, S1.f(pb.pal_, dd) == 1, S1.f(ND, par) == dd, *[S1.f(h, dd) == S0.f(h, dd) for h in (pb.pid_, pb.par_, pb.pl_, pb.ln_, pb.ud_)])),
                    ('[C05,C06,C07] sent now', And(S1.f(pb.ts_, dd) >= S0.gi('g:now'), S1.f(pb.ts_, dd) <= S1.gi('g:now'))),
                    ('[C05,C18] one more in flight', And(PP.cnt(S1, f) == PP.cnt(S0, f) + 1, same_order(PP, S0, S1, f))),
                    ('[C05,C06,C20] awaited from every subscriber', forall([n], Implies(PS.own(S1, n) == sl, awaits(S1, dd, S1.f(pb.SD, n))), [PS.own(S1, n)]))]
        if i < 3:
            out += [('[C18] not more in flight', PP.cnt(S1, f) == PP.cnt(S0, f))]
        return out

    def mods(self, c):
        i = self.CASES.index(c.case)
        kf, kd = c.S0.gi('g:pf.n'), c.S0.gi('g:dg.n')
        m = [('at', 'g:poll', IV(MCAST)), ('at', 'cell.32', cs.ERRNO), ('at', 'g:now', IV(0))]
        if i == 0:
            return m
        m += [('all', h) for h in LHEAPS] + [('at', 'g:dg.n', IV(0)), ('at', 'g:dg.d', kd), ('at', pb.ts_, c.a1), ('at', pb.pal_, c.a1)]
        if i >= 2:
            m += [('all', ND), ('at', pb.rc_, c.a1)]
        if i == 2:
            m += [('at', 'g:pf.n', IV(0)), ('at', 'g:pf.at', c.a1)] + [('at', h, kf) for h in pb.PF[1:] + ('g:pf.d',)]
        return m


def x_sendmsg(eng, st, args, n):
    fd, msg, fl = args
    S = View(eng, st.H)
    X = eng.curX
    x = pc_(eng, X)
    d = nextq(S, x)
    m = lambda f: S.f('msghdr.' + f, msg)
    name, iov = m('msg_name'), m('msg_iov')
    e = lambda k: eng.elt('iovec', iov, k)
    base, ln = (lambda k: S.f('iovec.iov_base', e(k))), (lambda k: S.f('iovec.iov_len', e(k)))
    P = lambda f: PF_(S, f, X)
    eng.oblige(st, fd == P('mcast_send_descriptor'), '[C19] sent on the multicast socket', n, kind='post')
    eng.oblige(st, And(S.f('sockaddr_in.sin_port', name) == ipf('swap16', low(P('mcast_port'), 65536), 16, eng),
                       S.f('in_addr.s_addr', eng.embed('sockaddr_in', 'sin_addr', name)) == ipf('swap32', P('mcast_group_addr'), 32, eng),
                       S.f('sockaddr_in.sin_family', name) == 2, m('msg_namelen') == 16), '[C19] addressed to the configured group and port', n, kind='post')
    eng.oblige(st, And(m('msg_iovlen') == 2, ln(0) == 20, ln(1) == S.f(pb.ln_, d)), '[C19] one datagram of header and payload', n, kind='post')
    eng.oblige(st, base(1) == S.f(pb.pl_, d), '[C19] the payload is that of the packet', n, kind='post')
    for nm, off, w, val in header_fields(S.f(pb.pid_, d), P('node_id'), S.f(pb.ln_, d), P('control_listen_if_addr'), P('control_listen_port')):
        eng.oblige(st, le(S, lambda k: base(0) + off + k, w) == val, '[C19] header field %s' % nm, n, kind='post')
    r = fresh('sendmsg')
    st.facts.append(Or(r == -1, r == 20 + ln(1)))
    seterr(eng, st, r == -1)
    k = S.gi('g:dg.n')
    wr(st, 'g:dg.n', IV(0), k + ite(r == -1, 0, 1), eng)
    wr(st, 'g:dg.d', k, ite(r == -1, s_(S.h('g:dg.d'), k), d), eng)
    return [(st, r)]


class WriteAll(RmcPub):
    key = 'process_multicast_write'
    props = ('C19', 'C04')

    def done(self, c, S):
        eng, S0, x = c.eng, c.S0, self.x(c)
        q = q_(eng, x)
        n, k = z3.Ints('n k')
        k0 = S0.gi('g:dg.n')
        m = PP.cnt(S0, q) - PP.cnt(S, q)
        sd = lambda S, k: s_(S.h('g:dg.d'), k)
        return [('[C19] one datagram per packet that left the queue', And(m >= 0, S.gi('g:dg.n') == k0 + m)),
                ('[C04,C19] sent in queueing order', forall([k], Implies(And(k >= k0, k < k0 + m), sd(S, k) == S0.f(ND, PP.sq(S0, q, PP.cnt(S0, q) - 1 - (k - k0)))), [sd(S, k)])),
                ('earlier datagrams', forall([k], Implies(k < k0, sd(S, k) == sd(S0, k)), [sd(S, k)])),
                ('[C04,C19] the rest stays queued', forall([n], Implies(And(n >= 0, n < PP.cnt(S, q)), And(PP.sq(S, q, n) == PP.sq(S0, q, n))), [PP.sq(S, q, n)])),
                ('[C04,C19] packets queued do not change', forall([n], Implies(PP.own(S, n) == q, And(PP.own(S0, n) == q, S.f(ND, n) == S0.f(ND, n), *[S.f(h, S0.f(ND, n)) == S0.f(h, S0.f(ND, n)) for h in (pb.pid_, pb.pl_, pb.ln_)])), [PP.own(S, n)])),
                ('clock', S.gi('g:now') >= S0.gi('g:now'))]

    def extra_candidates(self, eng, c, st, E, modenv, wset, vars_):
        k = len(self.done(c, E))
        out = [(self.done(c, E)[i][0], (lambda i: lambda S, env: self.done(c, S)[i][1])(i)) for i in range(k)]
        q = q_(eng, self.x(c))
        for k, t, v in vars_:
            if k in modenv and t[0] == 'ptr':
                out.append(('the next packet', lambda S, env, k=k: term(env[k]) == ite(PP.cnt(S, q) > 0, nextq(S, self.x(c)), 0)))
            if k in modenv and t[0] == 'int':
                out.append(('packets counted', lambda S, env, k=k: And(term(env[k]) >= 0, term(env[k]) <= PP.cnt(E, q) - PP.cnt(S, q))))
        return out

    def loop_measures(self, eng, c, s, vars_):
        return super().loop_measures(eng, c, s, vars_) + [('queue', lambda S, env: PP.cnt(S, q_(eng, self.x(c))))]

    def axioms(self, c):
        return super().axioms(c) + [PP.cnt(c.S0, q_(c.eng, self.x(c))) < (1 << 31) - 1]

    def post(self, c):
        q = q_(c.eng, self.x(c))
        return self.done(c, c.S1) + [('[C19] everything is sent unless an error is returned', Implies(c.r == 0, PP.cnt(c.S1, q) == 0))]

    def mods(self, c):
        return [('all', h) for h in LHEAPS + [ND, pb.pal_, pb.ts_, pb.rc_, 'g:dg.d'] + list(pb.LOGH)] + \
            [('at', 'g:poll', IV(MCAST)), ('at', 'cell.32', cs.ERRNO), ('at', 'g:now', IV(0)), ('at', 'g:dg.n', IV(0))]


# ---------------------------------------------------------------- subscribers
SUBS = 'pub_subscriber'
sud_ = SUBS + '.user_data'


def sub_(S, X, i):
    """the subscriber of slot i"""
    return S.eng.elt(SUBS, PF_(S, 'subscribers', X), i)


class PCI:
    """the subscribers of a publisher context are those of the connections of its table"""

    def __init__(self, X):
        self.X = X

    def conj(self, S):
        eng, X = S.eng, self.X
        x = pc_(eng, X)
        v = VX(S, cv_(eng, X))
        i, n = z3.Ints('i n')
        B = PF_(S, 'subscribers', X)
        si = sub_(S, X, i)
        own = PS.own(S, n)
        sd = S.f(pb.SD, n)
        k = eng.elt_idx(SUBS, sd)
        return [('subscribers: table', And(X > 0, B > 0)),
                ('[C20] subscribers: exactly the connections are subscribers', forall([i], Implies(v.inr(i), (member(S, x, si) != 0) == v.is_open(i)), [v.c(i), si])),
                ('subscribers: of connections only', forall([n], Implies(own == sl_(eng, x), And(sd == eng.elt(SUBS, B, k), v.inr(k), v.is_open(k))), [own])),
                ('subscribers: know their connection', forall([i], Implies(And(v.inr(i), v.is_open(i)), S.f(sud_, si) == v.c(i)), [v.c(i), si]))]


class Proxy:
    """a contract context with some of its arguments replaced"""

    def __init__(self, c, args):
        self.__dict__['_c'], self.__dict__['a'] = c, args

    def __getattr__(self, k):
        if k[0] == 'a' and k[1:].isdigit():
            return self.a[int(k[1:])]
        return getattr(self._c, k)


class RmcConn(RmcPub):
    """a function on a connection (second argument) of a publisher context"""
    table = True

    def invs(self, c):
        return super().invs(c) + [PCI(self.X(c))]

    def conn(self, c):
        return c.a1

    def idx(self, c):
        return c.eng.elt_idx(CN, self.conn(c))

    def v0(self, c):
        return VX(c.S0, self.V(c))

    def sub(self, c):
        return sub_(c.S0, self.X(c), self.idx(c))

    def pre(self, c):
        v = self.v0(c)
        return super().pre(c) + [('connection of the table', And(self.conn(c) > 0, v.slot(self.conn(c)), v.is_open(self.idx(c))))]

    def resumed(self, c):
        """traffic resumes as soon as few enough packets are unacknowledged"""
        f = f_(c.eng, self.x(c))
        t = PF_(c.S0, 'traffic_suspended', self.X(c))
        return ('[C18] traffic resumes exactly at the threshold', PF_(c.S1, 'traffic_suspended', self.X(c)) == ite(And(t != 0, PP.cnt(c.S1, f) <= PF_(c.S0, 'traffic_resume_threshold', self.X(c))), 0, t))


def proxy_sub(sp, c, *rest):
    return Proxy(c, [sp.sub(c)] + list(rest))


class RmcAck(RmcConn):
    key = 'rmc_pub_packet_ack'
    props = ('C05', 'C24', 'C18')
    verify_cases = True
    A = pb.Ack()
    ghosts = ('g:acks',)

    def ghost(self, c):
        c.S1.setat('g:acks', IV(0), c.S0.gi('g:acks') + 1)

    def P(self, c):
        return proxy_sub(self, c, c.a2, IV(1))

    def cases(self, c):
        return self.A.cases(c)

    def case_facts(self, c):
        return self.A.case_facts(self.P(c))

    def exhaustive(self, c):
        return self.A.exhaustive(self.P(c))

    def post(self, c):
        return self.A.post(self.P(c)) + [self.resumed(c), ('succeeds', c.r == 0)]

    def mods(self, c):
        return self.A.mods(self.P(c)) + [('at', susp_, c.a0)]


class Cmd:
    """processes a command at the front of the receive buffer of a connection: (conn, user data)"""
    HDR = 0

    def rb(self, S, c):
        return CB(S, c.eng.embed(CN, 'read_buf', c.a0))

    def regions(self, c):
        return [(c.eng.embed(CN, 'read_buf_data', c.a0), IV(cs.bufsize(c.eng)))]

    def total(self, c):
        """length of the whole command, if its header is there"""
        return IV(1 + self.HDR)

    def complete(self, c):
        b = self.rb(c.S0, c)
        return And(b.in_use() >= 1 + self.HDR, b.in_use() >= self.total(c))

    def field(self, c, off, w):
        b = self.rb(c.S0, c)
        return le(c.S0, lambda k: b.addr(IV(1 + off + k)), w)

    def consumed(self, c):
        o, n = self.rb(c.S0, c), self.rb(c.S1, c)
        ok = self.complete(c)
        return [('[C13] an incomplete command is left untouched', Implies(Not(ok), And(c.r == EAGAIN, n.same(o)))),
                ('[C13] a complete command is removed from the buffer, exactly', Implies(ok, And(c.r == 0, n.in_use() == o.in_use() - self.total(c), n.size == o.size, n.buf == o.buf, n.wf(),
                                                                                                Or(n.in_use() == 0, n.start == o.wrap(o.start + self.total(c))))))]

    def bmods(self, c):
        return at(circ.IND, c.eng.embed(CN, 'read_buf', c.a0))


class Handler(Cmd, RmcConn):
    props = ('C13',)

    def X(self, c):
        return c.a1

    def conn(self, c):
        return c.a0


class Dropped:
    """what remains true while packets are dropped from the inflight list of one subscriber"""

    def drel(self, c, S):
        return pb.Reset().rel(self.P(c), S)

    def ids(self, c, S, first, ub):
        L = infl(c.eng, self.sub(c))
        d = z3.Int('d')
        m0, m1 = PP.memb(c.S0, d, L), PP.memb(S, d, L)
        p = c.S0.f(pb.pid_, d)
        return forall([d], m1 == ite(And(p >= first, p < ub), 0, m0), [m1])


class AckInterval(Handler, Dropped):
    key = 'process_cmd_ack_interval'
    props = ('C24', 'C13')
    HDR = 16

    def P(self, c):
        return proxy_sub(self, c)

    def first(self, c):
        return self.field(c, 0, 8)

    def last(self, c):
        return self.field(c, 8, 8)

    def lim(self, c):
        """the ids acknowledged are first .. lim - 1"""
        np = c.S0.f(pb.np_, self.x(c))
        return ite(self.last(c) >= np, np, self.last(c) + 1)

    def stepf(self, c, S):
        f = f_(c.eng, self.x(c))
        t0, t1 = PF_(c.S0, 'traffic_suspended', self.X(c)), PF_(S, 'traffic_suspended', self.X(c))
        th = PF_(c.S0, 'traffic_resume_threshold', self.X(c))
        return [('[C18] traffic is not suspended by an acknowledgement', Or(t1 == t0, And(t1 == 0, PP.cnt(S, f) <= th))),
                ]

    def extra_candidates(self, eng, c, st, E, modenv, wset, vars_):
        k = len(self.drel(c, E))
        out = [(self.drel(c, E)[i][0], (lambda i: lambda S, env: self.drel(c, S)[i][1])(i)) for i in range(k)]
        out += [('traffic', lambda S, env: self.stepf(c, S)[0][1])]
        f = f_(eng, self.x(c))
        th = PF_(c.S0, 'traffic_resume_threshold', self.X(c))
        t0 = PF_(c.S0, 'traffic_suspended', self.X(c))
        for k, t, v in vars_:
            if k in modenv and t[0] == 'int':
                out.append(('acknowledged up to here', lambda S, env, k=k: self.ids(c, S, self.first(c), term(env[k]))))
                out.append(('within the ids handed out', lambda S, env, k=k: And(term(env[k]) >= self.first(c), Or(term(env[k]) <= self.lim(c), term(env[k]) == self.first(c)))))
                out.append(('one step per id', lambda S, env, k=k: S.gi('g:acks') - c.S0.gi('g:acks') == term(env[k]) - self.first(c)))
                out.append(('traffic resumed', lambda S, env, k=k: Or(term(env[k]) == self.first(c), (PF_(S, 'traffic_suspended', self.X(c)) != 0) == And(t0 != 0, PP.cnt(S, f) > th))))
        return out

    def loop_measures(self, eng, c, s, vars_):
        return super().loop_measures(eng, c, s, vars_) + [('ids', (lambda k: lambda S, env: ite(self.lim(c) - term(env[k]) >= 0, self.lim(c) - term(env[k]), 0))(k)) for k, t, v in vars_ if t[0] == 'int']

    def post(self, c):
        ok = self.complete(c)
        n = c.S1.gi('g:acks') - c.S0.gi('g:acks')
        f = f_(c.eng, self.x(c))
        t0, t1 = PF_(c.S0, 'traffic_suspended', self.X(c)), PF_(c.S1, 'traffic_suspended', self.X(c))
        th = PF_(c.S0, 'traffic_resume_threshold', self.X(c))
        p = self.consumed(c)
        p += [('[C24,C13] acknowledges exactly the packets in the interval', Implies(ok, self.ids(c, c.S1, self.first(c), self.lim(c)))),
              ('[C24] no more steps than packet ids handed out', And(n >= 0, n <= c.S0.f(pb.np_, self.x(c)))),
              self.stepf(c, c.S1)[0],
              ('[C18] traffic resumes at the threshold', Implies(And(ok, t1 != 0, n > 0), PP.cnt(c.S1, f) > th)),
              ('[C13] nothing is acknowledged by an incomplete command', Implies(Not(ok), n == 0))]
        return p + self.drel(c, c.S1)

    def mods(self, c):
        return [('all', h) for h in LHEAPS + [pb.rc_, pb.pal_] + list(pb.LOGH)] + [('at', susp_, c.a1), ('at', 'g:acks', IV(0))] + self.bmods(c)


class ClosePub(RmcConn, Dropped):
    key = 'rmc_pub_close_connection'
    props = ('C20', 'C18', 'C17')
    ghosts = ('g:open',)
    R = pb.Reset()

    def idx(self, c):
        return c.a1

    def pre(self, c):
        return RmcPub.pre(self, c)

    def P(self, c):
        return proxy_sub(self, c, IV(1))

    def ok(self, c):
        v = self.v0(c)
        return And(v.inr(c.a1), v.is_open(c.a1))

    def ghost(self, c):
        op = c.S0.h('g:open')
        c.S1.set('g:open', ite(self.ok(c), z3.Store(op, c.a1, 0), op))

    def ghost_post(self, c):
        op = c.S0.h('g:open')
        return [('set of connections', c.S1.h('g:open') == ite(self.ok(c), z3.Store(op, c.a1, 0), op))]

    def ghost_skipped(self, c):
        pass

    def post(self, c):
        v, w = self.v0(c), VX(c.S1, self.V(c))
        ok, i = self.ok(c), c.a1
        k = c.S0.gi('g:disc.n')
        cb = PF_(c.S0, 'subscriber_disconnect_cb', c.a0) != 0
        L = lambda h: s_(c.S1.h(h), k)
        p = [('[C17,C20] succeeds exactly for a connection', And((c.r == 0) == ok, Or(ok, c.r == EINVAL, c.r == ENOTCONN))),
             ('[C17,C20] the slot is free again', Implies(ok, And(w.mode(i) == CLOSED, w.desc(i) == -1, w.empty(i), w.act == v.act - 1))),
             ('[C20] the disconnect callback is made once, with the address of the subscriber', And(c.S1.gi('g:disc.n') == k + ite(And(ok, cb), 1, 0),
                                                                                                  Implies(And(ok, cb), And(L('g:disc.addr') == v.f('remote_address', i), L('g:disc.port') == v.f('remote_port', i))))),
             ('the descriptor is closed', Implies(ok, c.S1.f('g:fd', v.desc(i)) == 0)),
             ('[C17] the poll owner is told', Implies(And(ok, v.given()), c.S1.f('g:poll', i) == 0))]
        l, g = self.resumed(c)
        t = PF_(c.S0, 'traffic_suspended', self.X(c))
        p.append((l, Implies(ok, g)))
        p.append(('[C20] nothing happens without a connection', Implies(Not(ok), And(*[c.S1.h(m[1]) == c.S0.h(m[1]) for m in self.R.mods(self.P(c))], PF_(c.S1, 'traffic_suspended', c.a0) == t))))
        return p + [(l, Implies(ok, g)) for l, g in self.R.post(self.P(c))]

    def mods(self, c):
        k = c.S0.gi('g:disc.n')
        return cs.Close.mods(CLOSE, Proxy(c, [self.V(c), c.a1])) + self.R.mods(self.P(c)) + [('at', susp_, c.a0), ('at', 'g:disc.n', IV(0)), ('at', 'g:disc.addr', k), ('at', 'g:disc.port', k)]


class PubAccept(RmcConn):
    """rmc_pub_read on the listening socket"""
    key = 'rmc_pub_read'
    props = ('C16', 'C17', 'C20')
    verify_cases = True
    merge = True
    CASES = ['no connection', 'accepted', 'refused']

    def cases(self, c):
        return self.CASES

    def exhaustive(self, c):
        return TRUE

    def applies(self, eng, st, args):
        return False

    def pre(self, c):
        eng, S, X = c.eng, c.S0, self.X(c)
        i, x = z3.Ints('i x')
        si = sub_(S, X, i)
        return RmcPub.pre(self, c) + [('on the listening socket', c.a1 == LISTEN),
                                      ('subscribers are of this context only', forall([i, x], Implies(x != self.x(c), PS.memb(S, si, sl_(eng, x)) == 0), [(si, sl_(eng, x))])),
                                      no_locals(PP, S), no_locals(PS, S)]

    def regions(self, c):
        return [(c.a2, ite(c.a2 != 0, IV(1), IV(0)))]

    def refused(self, c):
        return And(PF_(c.S0, 'subscriber_connect_cb', self.X(c)) != 0, c.S1.gi('g:cc.r') == 0)

    def case_facts(self, c):
        k = self.CASES.index(c.case)
        r = c.r if c.r is not None else fresh('r')
        return [r != 0] if k == 0 else [r == 0, self.refused(c) if k == 2 else Not(self.refused(c))]

    def post(self, c):
        eng, X, x = c.eng, self.X(c), self.x(c)
        S0, S1, v, w = c.S0, c.S1, self.v0(c), VX(c.S1, self.V(c))
        n = self.CASES.index(c.case)
        i, m = z3.Ints('i m')
        asked = ite(PF_(S0, 'subscriber_connect_cb', X) != 0, 1, 0)
        L = lambda i: infl(eng, sub_(S0, X, i))
        opn = lambda g: forall([i], Implies(v.inr(i), g), [v.c(i)])
        out = [('[C16] the callback is asked exactly once per connection', S1.gi('g:cc.n') == S0.gi('g:cc.n') + (0 if n == 0 else asked)),
               ('[C16,C17] the kind of operation is reported', Implies(c.a2 != 0, S1.byte(c.a2) == (0 if n == 0 else 6))),
               ('[C16,C17] connections there were stay', opn(Implies(v.is_open(i), And(w.is_open(i), w.mode(i) == v.mode(i), w.desc(i) == v.desc(i), w.f('remote_address', i) == v.f('remote_address', i),
                                                                                      w.f('remote_port', i) == v.f('remote_port', i), w.f('action', i) == v.f('action', i)))))]
        if n != 1:
            return out + [('[C16] a connection refused is closed again', And(w.act == v.act, opn(v.is_open(i) == w.is_open(i))))]
        d = z3.Int('d')
        return out + [('[C16,C17] one more connection', w.act == v.act + 1),
                      ('[C16,C17] with the address of the peer, and nothing awaited from it', opn(Implies(And(Not(v.is_open(i)), w.is_open(i)), And(w.mode(i) == CONNECTED, w.f('remote_address', i) == S1.gi('g:peer.addr'),
                                                                                                  w.f('remote_port', i) == S1.gi('g:peer.port'), PP.cnt(S1, L(i)) == 0)))),
                      ('[C05,C20] subscribers there were await what they awaited', forall([i], Implies(And(v.inr(i), v.is_open(i)), And(PP.cnt(S1, L(i)) == PP.cnt(S0, L(i)), PP.Sq(S1, L(i)) == PP.Sq(S0, L(i)))), [L(i)])),
                      ('[C04,C05] packets queued and sent stay', And(PP.Sq(S1, q_(eng, x)) == PP.Sq(S0, q_(eng, x)), PP.cnt(S1, q_(eng, x)) == PP.cnt(S0, q_(eng, x)), PP.cnt(S1, f_(eng, x)) == PP.cnt(S0, f_(eng, x))))]

    def mods(self, c):
        hs = list(cs.CF + cs.CBF) + ['g:poll', 'g:fd', 'g:open', 'g:fdo'] + LHEAPS + SHEAPS + ['rmc_conn_command_dispatch.command', 'rmc_conn_command_dispatch.dispatch'] + [ND, pb.SD, pb.pal_, pb.rc_, pb.ctx_, 'pub_subscriber.user_data', PP.G['val'], 'g:disc.addr', 'g:disc.port'] + list(pb.LOGH) + \
            [PP.lt + '.' + f for f in ('user_data', 'alloc_node', 'free_node')]
        return [('all', h) for h in dict.fromkeys(hs)] + at([CV + '.max_connection_ind', CV + '.active_connection_count'], self.V(c)) + \
            [('at', 'cell.32', cs.ERRNO), ('at', 'g:peer.addr', IV(0)), ('at', 'g:peer.port', IV(0)), ('at', 'g:cc.n', IV(0)), ('at', 'g:cc.r', IV(0)), ('at', 'g:disc.n', IV(0)), ('at', susp_, c.a0),
             ('bytes', c.a2, ite(c.a2 != 0, IV(1), IV(0)))]


def x_connect_cb(eng, st, args, n):
    """assumed: callbacks do not call back into the library"""
    f, ctx, addr, port = args
    S = View(eng, st.H)
    eng.oblige(st, And(ctx == eng.curX, addr == S.gi('g:peer.addr'), port == S.gi('g:peer.port')), '[C16] the callback is given the address of the peer', n, kind='post')
    r = fresh('accept')
    st.facts.append(And(r >= 0, r <= 255))
    wr(st, 'g:cc.n', IV(0), S.gi('g:cc.n') + 1, eng)
    wr(st, 'g:cc.r', IV(0), r, eng)
    return [(st, r)]


class _Close(cs.Close):
    def V(self, c):
        return c.a0


CLOSE = _Close()


def x_disconnect_cb(eng, st, args, n):
    """assumed: callbacks do not call back into the library"""
    f, ctx, addr, port = args
    k = select(eng.hget(st, 'g:disc.n'), IV(0))
    wr(st, 'g:disc.addr', k, addr, eng)
    wr(st, 'g:disc.port', k, port, eng)
    wr(st, 'g:disc.n', IV(0), k + 1, eng)
    return [(st, IV(0))]


class TcpStep:
    """the part of rmc_pub_write and rmc_sub_write about a control connection (mixin; the table is that of V(c), the slot index is a1, a2 an optional result byte)"""
    OK, ERR, MC = 10, 0, 8          # RMC_WRITE_TCP, RMC_ERROR, RMC_WRITE_MULTICAST

    def ref(self, c, wb=None):
        v = self.v0(c)
        return ite(Not(v.inr(c.a1)), EINVAL, ite(v.mode(c.a1) != CONNECTED, ENOTCONN, ite(v.wb(c.a1).in_use() == 0, ENODATA, 0)))

    def opres(self, c, val):
        return ('[C14] the kind of operation is reported', Implies(c.a2 != 0, c.S1.byte(c.a2) == val))

    def tcp_post(self, c):
        v, w = self.v0(c), VX(c.S1, self.V(c))
        i = c.a1
        o, n = v.wb(i), w.wb(i)
        ref = self.ref(c)
        ok = ref == 0
        acc = c.S1.gi('g:accepted')
        act0, act1 = v.f('action', i), w.f('action', i)
        return [('[C14] refused unless there is a connection with pending bytes', Implies(Not(ok), And(c.r != 0, Or(c.r == EINVAL, c.r == ENOTCONN, c.r == ENODATA)))),
                ('[C14] nothing is done if refused', Implies(And(Not(ok), v.inr(i)), And(n.same(o), act1 == act0, c.S1.f('g:poll', i) == c.S0.f('g:poll', i)))),
                ('[C14] exactly the bytes accepted are removed', Implies(ok, And(acc >= 0, acc <= o.in_use(), n.in_use() == o.in_use() - acc, Or(n.in_use() == 0, n.start == o.wrap(o.start + acc))))),
                ('[C14] an error is returned and removes nothing', Implies(And(ok, c.r != 0), n.same(o))),
                ('[C14] write polling is requested if and only if bytes remain', Implies(ok, And((act1 >= WRITE) == (n.in_use() > 0), act1 % 2 == act0 % 2, act1 <= 3))),
                ('[C14] the poll owner knows', Implies(And(ok, v.given()), c.S1.f('g:poll', i) == 1 + act1)),
                self.opres(c, ite(c.r == 0, self.OK, self.ERR))]

    def tcp_mods(self, c):
        v = self.v0(c)
        p = v.c(c.a1)
        return [m for m in at(circ.IND, c.eng.embed(CN, 'write_buf', p))] + [('at', CN + '.action', p), ('at', 'g:poll', c.a1), ('at', 'cell.32', cs.ERRNO), ('at', 'g:accepted', IV(0)),
                                                                            ('bytes', c.a2, ite(c.a2 != 0, IV(1), IV(0)))]

    def regions(self, c):
        return [(c.a2, ite(c.a2 != 0, IV(1), IV(0)))]


class PubWrite(TcpStep, RmcPub):
    key = 'rmc_pub_write'
    props = ('C14', 'C19', 'C04')
    table = True
    verify_cases = True
    CASES = ['multicast', 'connection']
    W = WriteAll()

    def cases(self, c):
        return self.CASES

    def exhaustive(self, c):
        return TRUE

    def case_facts(self, c):
        return [(c.a1 == MCAST) if c.case == 'multicast' else (c.a1 != MCAST)]

    def v0(self, c):
        return VX(c.S0, self.V(c))

    def axioms(self, c):
        return super().axioms(c) + [PP.cnt(c.S0, q_(c.eng, self.x(c))) < (1 << 31) - 1]

    def post(self, c):
        if c.case == 'multicast':
            return self.W.post(c) + [self.opres(c, self.MC)]
        return self.tcp_post(c)

    def mods(self, c):
        if c.case == 'multicast':
            return self.W.mods(c) + [('bytes', c.a2, ite(c.a2 != 0, IV(1), IV(0)))]
        return self.tcp_mods(c)


# ---------------------------------------------------------------- resends
RS = ('g:rs.n', 'g:rs.d', 'g:rs.c')


def conn_bytes(c, p):
    """what queueing a command on connection p may change"""
    return [('bytes', c.eng.embed(CN, 'write_buf_data', p), IV(cs.bufsize(c.eng)))] + at(circ.IND, c.eng.embed(CN, 'write_buf', p)) + \
        [('at', CN + '.action', p), ('at', 'g:poll', c.eng.elt_idx(CN, p)), ('at', 'cell.32', cs.ERRNO)]


class OfSub(RmcConn):
    """(publisher context, subscriber of one of its connections, ...)"""

    def idx(self, c):
        return c.eng.elt_idx(SUBS, c.a1)

    def conn(self, c):
        return self.v0(c).c(self.idx(c))

    def sub(self, c):
        return c.a1

    def L(self, c):
        return infl(c.eng, c.a1)

    def pre(self, c):
        v, i = self.v0(c), self.idx(c)
        return RmcPub.pre(self, c) + [('subscriber of a connection', And(c.a1 > 0, c.a1 == sub_(c.S0, self.X(c), i), v.inr(i), v.is_open(i)))]

    def up(self, c):
        return self.v0(c).mode(self.idx(c)) == CONNECTED

    def room(self, c, S, d):
        """there is room for packet d in the send buffer"""
        b = VX(S, self.V(c)).wb(self.idx(c))
        return b.in_use() + 21 + S.f(pb.ln_, d) <= b.size - 1


class SentTimeout(OfSub):
    key = 'process_sent_packet_timeout'
    props = ('C06', 'C12', 'C05')
    verify_cases = True
    A = pb.Ack()

    def P(self, c):
        return Proxy(c, [self.sub(c), c.S0.f(pb.pid_, c.a2), IV(1)])

    def cases(self, c):
        return ['no room', 'awaited from others', 'last']

    def exhaustive(self, c):
        return TRUE

    def pre(self, c):
        w = PP.memb(c.S0, c.a2, self.L(c))
        return super().pre(c) + [('packet is awaited from the subscriber', And(c.a2 > 0, w != 0, PP.own(c.S0, w) == self.L(c), c.S0.f(ND, w) == c.a2))]

    def case_facts(self, c):
        rc = c.S0.f(pb.rc_, c.a2)
        c.vals['w'] = PP.memb(c.S0, c.a2, self.L(c))
        if c.case == 'no room':
            return [c.r != 0] if c.r is not None else []
        return [rc == 1 if c.case == 'last' else rc != 1] + ([c.r == 0] if c.r is not None else [])

    def post(self, c):
        n, k = c.S0.gi('g:rs.n'), z3.Int('k')
        S0, S1 = c.S0, c.S1
        one = ite(And(c.r == 0, self.up(c)), 1, 0)
        w = VX(S1, self.V(c))
        p = [('[C06] resent exactly once, if it is connected and there is room', And(S1.gi('g:rs.n') == n + one, Implies(one == 1, And(s_(S1.h('g:rs.d'), n) == c.a2, s_(S1.h('g:rs.c'), n) == self.conn(c))),
                                                                                    forall([k], Implies(k < n, And(s_(S1.h('g:rs.d'), k) == s_(S0.h('g:rs.d'), k), s_(S1.h('g:rs.c'), k) == s_(S0.h('g:rs.c'), k))), [s_(S1.h('g:rs.d'), k)])))]
        if c.case == 'no room':
            return p + [('[C06] kept for a later attempt, for lack of room only', And(c.r != 0, self.up(c), Not(self.room(c, S0, c.a2)), Not(self.room(c, S1, c.a2))))]
        return p + self.A.post(self.P(c)) + [self.resumed(c), ('succeeds', c.r == 0)]

    def mods(self, c):
        k = c.S0.gi('g:rs.n')
        m = conn_bytes(c, self.conn(c)) + [('at', 'g:rs.n', IV(0)), ('at', 'g:rs.d', k), ('at', 'g:rs.c', k)]
        if c.case == 'no room':
            return m
        return m + self.A.mods(self.P(c)) + [('at', susp_, self.X(c)), ('at', 'g:acks', IV(0))]


def no_locals(T, S):
    n = z3.Int('n')
    return ('no element is in a local list', forall([n], T.own(S, n) >= 0, [T.own(S, n)]))


class SubTimeout(OfSub, Dropped):
    key = 'process_subscriber_timeout'
    patience = 15000
    fork = 4
    props = ('C06', 'C05', 'C18')

    def P(self, c):
        return proxy_sub(self, c)

    def pre(self, c):
        to = PF_(c.S0, 'resend_timeout', self.X(c))
        return super().pre(c) + [('times are sane', And(c.a2 >= 0, c.a2 < TMAX, to >= 0, to < TMAX)), no_locals(PP, c.S0)]

    def late(self, c, S, d):
        return pb.overdue(c, S, d, c.a2, PF_(c.S0, 'resend_timeout', self.X(c)))

    def done(self, c, S):
        """relative to the state at entry: the oldest packets were dropped, and resent if connected"""
        S0, L = c.S0, self.L(c)
        n0, cn0, cn = S0.gi('g:rs.n'), PP.cnt(S0, L), PP.cnt(S, L)
        m = cn0 - cn
        k, n = z3.Ints('k n')
        e = PP.sq(S0, L, cn0 - 1 - (k - n0))
        rd, rc = (lambda S, k: s_(S.h('g:rs.d'), k)), (lambda S, k: s_(S.h('g:rs.c'), k))
        return [('[C06] one resend for each packet dropped', And(m >= 0, S.gi('g:rs.n') == n0 + ite(self.up(c), m, 0))),
                ('[C06] resent oldest first', forall([k], Implies(And(k >= n0, k < S.gi('g:rs.n')), rd(S, k) == S0.f(ND, e)), [rd(S, k)])),
                ('[C06] resent on the connection of the subscriber', forall([k], Implies(And(k >= n0, k < S.gi('g:rs.n')), rc(S, k) == self.conn(c)), [rd(S, k), rc(S, k)])),
                ('[C06] only overdue ones are resent', forall([k], Implies(And(k >= n0, k < S.gi('g:rs.n')), self.late(c, S0, rd(S, k))), [rd(S, k)])),
                ('earlier resends', forall([k], Implies(k < n0, And(rd(S, k) == rd(S0, k), rc(S, k) == rc(S0, k))), [rd(S, k), rc(S, k)])),
                ('[C06] younger ones stay awaited', forall([k], Implies(And(k >= 0, k < cn), And(PP.sq(S, L, k) == PP.sq(S0, L, k))), [PP.sq(S, L, k)])),
                ('[C06] their packets', forall([n], Implies(PP.own(S, n) == L, And(PP.own(S0, n) == L, PP.pos(S, n) == PP.pos(S0, n), S.f(ND, n) == S0.f(ND, n))), [PP.own(S, n)])),
                ('[C06] dropped ones were overdue', forall([k], Implies(And(k >= cn, k < cn0), self.late(c, S0, S0.f(ND, PP.sq(S0, L, k)))), [PP.sq(S0, L, k)])),
                ('[C06] only awaited ones are resent', forall([k], Implies(And(k >= n0, k < S.gi('g:rs.n')), PP.memb(S0, rd(S, k), L) != 0), [rd(S, k), rc(S, k)])),
                ('traffic', Or(PF_(S, 'traffic_suspended', self.X(c)) == PF_(S0, 'traffic_suspended', self.X(c)),
                               And(PF_(S, 'traffic_suspended', self.X(c)) == 0, PP.cnt(S, f_(c.eng, self.x(c))) <= PF_(S0, 'traffic_resume_threshold', self.X(c)))))]

    def hints(self, c):
        return [self.L(c)]

    def both(self, c, S, local=()):
        return self.done(c, S) + pb.Reset().rel(self.P(c), S, local)

    def extra_candidates(self, eng, c, st, E, modenv, wset, vars_):
        k = len(self.both(c, E))
        loc = self.local_lists(eng, st, PP)
        out = [(self.both(c, E)[i][0], (lambda i: lambda S, env: self.both(c, S, loc)[i][1])(i)) for i in range(k)]
        L = self.L(c)
        n = z3.Int('n')
        for a in self.local_lists(eng, st, PP):
            T = TimedOut
            pc = Proxy(c, [c.a1, c.a2, PF_(c.S0, 'resend_timeout', self.X(c)), a])
            i = z3.Int('i')
            rng = lambda S, a: And(i >= 0, i < PP.cnt(S, a))
            out.append(('the list is valid', lambda S, env, a=a: PP.val(S, a) == 1))
            out.append(('the list is not longer', lambda S, env, a=a: And(PP.cnt(S, a) >= 0, PP.cnt(S, a) <= PP.cnt(S, L))))
            out.append(('the list holds the oldest packets', lambda S, env, a=a: forall([i], Implies(rng(S, a), S.f(ND, PP.sq(S, a, i)) == S.f(ND, PP.sq(S, L, PP.cnt(S, L) - 1 - i))), [PP.sq(S, a, i)])))
            out.append(('the list holds overdue packets', lambda S, env, a=a: forall([i], Implies(rng(S, a), self.late(c, S, S.f(ND, PP.sq(S, a, i)))), [PP.sq(S, a, i)])))
            out.append(('position of the oldest packet', lambda S, env, a=a: Implies(PP.cnt(S, a) > 0, PP.memb(S, S.f(ND, PP.sq(S, a, 0)), L) == PP.sq(S, L, PP.cnt(S, L) - 1))))
            out.append(('the list holds every overdue packet', lambda S, env, a=a: forall([n], Implies(PP.own(S, n) == L, self.late(c, S, S.f(ND, n)) == (PP.pos(S, n) >= PP.cnt(S, L) - PP.cnt(S, a))), [PP.own(S, n)])))
        return out

    def loop_measures(self, eng, c, s, vars_):
        return [('length of a local list', (lambda a: lambda S, env: PP.cnt(S, a))(a)) for a in self.local_lists(eng, s, PP)]

    def local_lists(self, eng, st, T):
        """local variables that are lists"""
        return [v for v in eng.local_structs(st, T.lt)]

    def post(self, c):
        S1, L = c.S1, self.L(c)
        n = z3.Int('n')
        d0 = S1.f(ND, PP.sq(S1, L, PP.cnt(S1, L) - 1))
        return [('[C06] either no overdue packet is left', Implies(c.r == 0, forall([n], Implies(PP.own(S1, n) == L, Not(self.late(c, S1, S1.f(ND, n)))), [PP.own(S1, n)]))),
                ('[C06] or the oldest does not fit the send buffer', Implies(c.r != 0, And(PP.cnt(S1, L) > 0, self.late(c, S1, d0), Not(self.room(c, S1, d0))))), no_locals(PP, S1)] + self.both(c, S1)

    def mods(self, c):
        return [('all', h) for h in LHEAPS + [ND, pb.rc_, pb.pal_] + list(pb.LOGH) + list(RS)] + [('at', susp_, self.X(c)), ('at', 'g:acks', IV(0))] + conn_bytes(c, self.conn(c))


TimedOut = pb.TimedOutPackets()


# ---------------------------------------------------------------- the periodic work of a publisher
def havoc_bytes(eng, st, base, ln):
    """any bytes may be written there"""
    M = eng.hget(st, 'M')
    M2 = fresh('M', AI)
    x = z3.Int('x')
    st.facts.append(forall([x], ite(And(x >= base, x < base + ln), And(s_(M2, x) >= 0, s_(M2, x) <= 255), s_(M2, x) == s_(M, x)), [s_(M2, x)]))
    st.H['M'] = M2
    st.written.append(('M', base, 'n'))


def x_announce_cb(eng, st, args, n):
    """assumed: callbacks write nothing but the buffers they are given, and do not call back into the library"""
    if len(args) != 5:
        raise Unsupported('announcement callback of a subscriber')
    f, ctx, pl, mx, pln = args
    havoc_bytes(eng, st, pl, mx)
    r, ln = fresh('announce'), fresh('announcelen')
    st.facts.append(And(r >= 0, r <= 255, ln >= 0, ln <= 65535))
    wr(st, 'cell.16', pln, ln, eng)
    wr(st, 'g:ann.n', IV(0), select(eng.hget(st, 'g:ann.n'), IV(0)) + 1, eng)
    wr(st, 'g:ann.r', IV(0), r, eng)
    wr(st, 'g:ann.len', IV(0), ln, eng)
    eng.oblige(st, And(ctx == eng.curX, pl == eng.embed(RP, 'announce_payload', eng.curX), mx == maxpayload(eng)), '[C22] the callback is given the whole announcement buffer', n, kind='post')
    return [(st, r)]


class PubTimeout(RmcConn):
    key = 'rmc_pub_timeout_process'
    props = ('C06', 'C22', 'C12')
    patience = 15000
    fork = 4
    Q = Queue()

    def pre(self, c):
        S = c.S0
        g = lambda f: PF_(S, f, c.a0)
        return RmcPub.pre(self, c) + [('times are sane', And(g('resend_timeout') >= 0, g('resend_timeout') < TMAX, g('announce_next_send_ts') >= 0, g('announce_next_send_ts') < TMAX)),
                                     no_locals(PP, S), no_locals(PS, S)]

    def regions(self, c):
        return [(c.eng.embed(RP, 'announce_payload', c.a0), IV(maxpayload(c.eng)))]

    def now(self, c):
        return c.S1.gi('g:now')

    def due(self, c):
        g = lambda f: PF_(c.S0, f, c.a0)
        return And(g('announce_send_interval') != 0, g('announce_next_send_ts') != 0, g('announce_next_send_ts') <= self.now(c))

    def sub(self, c, S, L):
        return And(pb.is_infl(c.eng, L), member(S, self.x(c), pb.inv_infl(c.eng, L)) != 0)

    def late(self, c, S, d):
        return pb.overdue(c, S, d, S.gi('g:now'), PF_(c.S0, 'resend_timeout', self.X(c)))

    def room(self, c, S, L):
        """there is room for the oldest packet of L in the send buffer"""
        b = VX(S, self.V(c)).wb(c.eng.elt_idx(SUBS, pb.inv_infl(c.eng, L)))
        d = c.S0.f(ND, PP.sq(c.S0, L, PP.cnt(S, L) - 1))
        return b.in_use() + 21 + c.S0.f(pb.ln_, d) <= b.size - 1

    def stage(self, c, S, R=None, res=None):
        """while subscribers are served: R lists those still to be served"""
        S0, eng, X = c.S0, c.eng, self.X(c)
        x = self.x(c)
        n, k, L = z3.Ints('n k L')
        q, f = q_(eng, x), f_(eng, x)
        n0, n1 = S0.gi('g:rs.n'), S.gi('g:rs.n')
        o, o0 = PP.own(S, n), PP.own(S0, n)
        todo = (lambda L: FALSE) if R is None else (lambda L: PS.memb(S, pb.inv_infl(eng, L), R) != 0)
        sub = lambda L: self.sub(c, S0, L)
        rd, rc = (lambda S, k: s_(S.h('g:rs.d'), k)), (lambda S, k: s_(S.h('g:rs.c'), k))
        rng = And(k >= n0, k < n1)
        v = self.v0(c)
        j = eng.elt_idx(CN, rc(S, k))
        oldest = lambda L: S0.f(ND, PP.sq(S0, L, PP.cnt(S, L) - 1))
        stuck = lambda L: And(sub(L), Not(todo(L)), PP.cnt(S, L) > 0, self.late(c, S, oldest(L)))
        out = [('[C06] if an overdue packet is kept the oldest does not fit the send buffer', forall([L], Implies(stuck(L), Not(self.room(c, S, L))), [PP.cnt(S, L)])),
               ('[C06] younger ones stay awaited', forall([L, k], Implies(And(sub(L), k >= 0, k < PP.cnt(S, L)), PP.sq(S, L, k) == PP.sq(S0, L, k)), [PP.sq(S, L, k)])),
               ('[C06] no more are awaited', forall([L], Implies(sub(L), And(PP.cnt(S, L) >= 0, PP.cnt(S, L) <= PP.cnt(S0, L))), [PP.cnt(S, L)])),
               ('[C06] their packets', forall([n], Implies(sub(o), And(o0 == o, PP.pos(S, n) == PP.pos(S0, n), S.f(ND, n) == S0.f(ND, n))), [o])),
               ('[C06] only overdue packets are dropped', forall([L, k], Implies(And(sub(L), k >= PP.cnt(S, L), k < PP.cnt(S0, L)), self.late(c, S, S0.f(ND, PP.sq(S0, L, k)))), [PP.sq(S0, L, k)])),
               ('resends are logged', n1 >= n0),
               ('[C06] resent to a connection', forall([k], Implies(rng, And(v.slot(rc(S, k)), v.is_open(j), v.mode(j) == CONNECTED)), [rc(S, k)])),
               ('[C06] only what is awaited there is resent', forall([k], Implies(rng, PP.memb(S0, rd(S, k), infl(eng, sub_(S0, X, j))) != 0), [rc(S, k)])),
               ('[C06] only overdue packets are resent', forall([k], Implies(rng, self.late(c, S, rd(S, k))), [rd(S, k)])),
               ('earlier resends', forall([k], Implies(k < n0, And(rd(S, k) == rd(S0, k), rc(S, k) == rc(S0, k))), [rd(S, k), rc(S, k)])),
               ('the queue stays', And(PP.Sq(S, q) == PP.Sq(S0, q), PP.cnt(S, q) == PP.cnt(S0, q))),
               ('[C18] not more in flight', PP.cnt(S, f) <= PP.cnt(S0, f)),
               ('traffic', Or(PF_(S, 'traffic_suspended', X) == PF_(S0, 'traffic_suspended', X),
                              And(PF_(S, 'traffic_suspended', X) == 0, PP.cnt(S, f) <= PF_(S0, 'traffic_resume_threshold', X))))]
        if res is not None:
            out.append(('[C06] a stalled subscriber is reported', Implies(res == 0, forall([L], Not(stuck(L)), [PP.cnt(S, L)]))))
        if R is not None:
            m = z3.Int('m')
            out += [('subscribers to be served', And(PS.val(S, R) == 1, forall([m], Implies(PS.own(S, m) == R, member(S, x, S.f(pb.SD, m)) != 0), [PS.own(S, m)]))),
                    ('nothing was done for them', forall([L], Implies(And(sub(L), todo(L)), And(PP.Sq(S, L) == PP.Sq(S0, L), PP.cnt(S, L) == PP.cnt(S0, L))), [PP.Sq(S, L)])),
                    ('nothing was done to their packets', forall([n], Implies(And(sub(o0), todo(o0)), And(o == o0, PP.pos(S, n) == PP.pos(S0, n), S.f(ND, n) == S0.f(ND, n))), [o, o0]))]
            out.append(no_locals(PP, S))
        return out

    def extra_candidates(self, eng, c, st, E, modenv, wset, vars_):
        out = []
        for a in eng.local_structs(st, PS.lt):
            k = len(self.stage(c, E, a))
            out += [(self.stage(c, E, a)[i][0], (lambda i, a: lambda S, env: self.stage(c, S, a)[i][1])(i, a)) for i in range(k)]
            for v, t, _ in vars_:
                if v in modenv and t[0] == 'int':
                    out.append(('stalled ones reported', lambda S, env, v=v, a=a: [g for l, g in self.stage(c, S, a, term(env[v])) if 'reported' in l][0]))
        return out

    def loop_measures(self, eng, c, s, vars_):
        return [('length of a local list', (lambda a: lambda S, env: PS.cnt(S, a))(a)) for a in eng.local_structs(s, PS.lt)]

    def post(self, c):
        S0, S1, eng, X = c.S0, c.S1, c.eng, self.X(c)
        x = self.x(c)
        q = q_(eng, x)
        due = self.due(c)
        g = lambda S, f: PF_(S, f, X)
        cb = g(S0, 'announce_cb') != 0
        asked = ite(cb, 1, 0)
        mx = maxpayload(eng)
        ln = ite(cb, ite(S1.gi('g:ann.len') > mx, mx, S1.gi('g:ann.len')), 0)
        sent = And(Or(Not(cb), S1.gi('g:ann.r') != 0), g(S0, 'traffic_suspended') == 0)
        pl = eng.embed(RP, 'announce_payload', X)
        P = Proxy(c, [X, pl, ln, IV(1)])
        out = [('clock', And(S1.gi('g:now') >= S0.gi('g:now'), S1.gi('g:now') < TMAX)),
               ('[C22] the callback is asked exactly if an announcement is due', S1.gi('g:ann.n') == S0.gi('g:ann.n') + ite(due, asked, 0)),
               ('[C22] the next announcement is due an interval later', g(S1, 'announce_next_send_ts') == ite(due, self.now(c) + g(S0, 'announce_send_interval'), g(S0, 'announce_next_send_ts'))),
               ('[C22] nothing is announced unless due, unless vetoed or suspended', Implies(Not(And(due, sent)), And(PP.Sq(S1, q) == PP.Sq(S0, q), PP.cnt(S1, q) == PP.cnt(S0, q)))),
               ('succeeds', Implies(due, c.r == 0))]
        out += [(l.replace('[C04,C18]', '[C22]').replace('[C18]', '[C22]'), Implies(And(due, sent), b)) for l, b in self.Q.effects(P)]
        out += [(l, Implies(Not(due), b)) for l, b in self.stage(c, S1, None, c.r)]
        return out

    def mods(self, c):
        X = c.a0
        m = [('all', h) for h in LHEAPS + SHEAPS + [ND, pb.SD, pb.rc_, pb.pal_, 'g:poll', 'M', CN + '.action'] + list(circ.IND) + list(pb.LOGH) + list(RS) + list(pb.PKF)]
        return m + [('at', h, IV(0)) for h in ('g:now', 'g:acks', 'g:ann.n', 'g:ann.r', 'g:ann.len', 'g:lastq')] + \
            [('at', 'cell.32', cs.ERRNO), ('at', susp_, X), ('at', pb.np_, self.x(c)), ('at', RP + '.announce_next_send_ts', X)]


class PubNext(RmcConn):
    key = 'rmc_pub_timeout_get_next'
    props = ('C07', 'C22')

    def pre(self, c):
        g = lambda f: PF_(c.S0, f, c.a0)
        return RmcPub.pre(self, c) + [('times are sane', And(g('resend_timeout') >= 0, g('resend_timeout') < TMAX, g('announce_next_send_ts') >= 0, g('announce_next_send_ts') < TMAX)), ('result given', c.a1 != 0)]

    def post(self, c):
        S0, S1, eng = c.S0, c.S1, c.eng
        v = S1.f('cell.64', c.a1)
        g = lambda f: PF_(S0, f, c.a0)
        nx, to = g('announce_next_send_ts'), g('resend_timeout')
        n, m = z3.Ints('n m')
        x = self.x(c)
        sl = sl_(eng, x)
        L = infl(eng, S0.f(pb.SD, m))
        awaited = And(PS.own(S0, m) == sl, PP.own(S0, n) == L)
        ts = S0.f(pb.ts_, S0.f(ND, n))
        return [('[C07] succeeds', c.r == 0),
                ('[C07] not later than any packet is due to be resent', forall([m, n], Implies(awaited, And(v != -1, v <= ts + to)), [(PS.own(S0, m), PP.own(S0, n))])),
                ('[C07,C22] not later than the next announcement', Implies(nx != 0, And(v != -1, v <= nx))),
                ('[C07,C22] no earlier than anything is due', Or(v == -1, And(nx != 0, v == nx), z3.Exists([m, n], And(awaited, v == ts + to), patterns=[z3.MultiPattern(PS.own(S0, m), PP.own(S0, n))])))]

    def mods(self, c):
        return [('at', 'cell.64', c.a1)]


# ---------------------------------------------------------------- statistics
class Pending(RmcConn):
    key = 'rmc_pub_context_get_pending'
    merge = True
    patience = 450
    props = ('C23',)

    def pre(self, c):
        a = (c.a1, c.a2, c.a3)
        return RmcPub.pre(self, c) + [('results are different variables', And(*[Or(a[i] == 0, a[i] != a[j]) for i in range(3) for j in range(i)], *[p >= 0 for p in a]))]

    def sums(self, c):
        """SA(k), SB(k): packets awaited and bytes to be sent, over the connections before slot k"""
        return z3.Function('sum.awaited', I, I), z3.Function('sum.bytes', I, I)

    def axioms(self, c):
        SA, SB = self.sums(c)
        v = self.v0(c)
        k = z3.Int('k')
        S0, eng = c.S0, c.eng
        L = infl(eng, sub_(S0, self.X(c), k))
        # definitions by recursion; assumed: fewer than 2^31 packets are awaited
        return super().axioms(c) + [And(SA(0) == 0, SB(0) == 0),
                                    forall([k], Implies(k >= 0, And(SA(k + 1) == SA(k) + ite(v.is_open(k), PP.cnt(S0, L), 0), SB(k + 1) == SB(k) + ite(v.is_open(k), v.wb(k).in_use(), 0))), [v.c(k)]),
                                    forall([k], Implies(And(k >= 0, k <= v.size), SA(k) < 1 << 31), [SA(k)]),
                                    PP.cnt(S0, q_(eng, self.x(c))) < 1 << 31]

    def q(self, c):
        return PP.cnt(c.S0, q_(c.eng, self.x(c)))

    def loop_candidates(self, eng, c, st, E, modenv, wset, vars_):
        SA, SB = self.sums(c)
        out = []
        w = lambda b: [k for k, t, v in vars_ if t[0] == 'int' and k in modenv and t[1] == b] or [k for k, t, v in vars_ if t[0] == 'int' and k in modenv]
        ints, flags = w(16), w(8)
        at_ = lambda S, p: S.f('cell.32', p)
        for k in ints:
            out.append(('within the table', lambda S, env, k=k: And(term(env[k]) >= 0, term(env[k]) <= self.v0(c).max + 1)))
            out += [('awaited so far', lambda S, env, k=k: Implies(c.a3 != 0, at_(S, c.a3) == SA(term(env[k])))),
                    ('bytes so far', lambda S, env, k=k: Implies(c.a2 != 0, at_(S, c.a2) == SB(term(env[k])))),
                    ('sums are not negative', lambda S, env, k=k: And(SA(term(env[k])) >= 0, SB(term(env[k])) >= 0, SB(term(env[k])) <= 65535 * term(env[k])))]
            for b in flags:
                out.append(('busy so far', lambda S, env, k=k, b=b: (term(env[b]) != 0) == Or(self.q(c) > 0, SA(term(env[k])) > 0, SB(term(env[k])) > 0)))
        out.append(('queue length', lambda S, env: Implies(c.a1 != 0, at_(S, c.a1) == self.q(c))))
        return out

    def loop_measures(self, eng, c, s, vars_):
        return cs.ConnSpec.loop_measures(self, eng, c, s, vars_)

    def post(self, c):
        SA, SB = self.sums(c)
        v = self.v0(c)
        ub = ite(v.max == NIL, 0, v.max + 1)
        at_ = lambda p: c.S1.f('cell.32', p)
        return [('[C23] number of queued packets', Implies(c.a1 != 0, at_(c.a1) == self.q(c))),
                ('[C23] number of bytes to be sent, over all connections', Implies(c.a2 != 0, at_(c.a2) == SB(ub))),
                ('[C23] number of packets awaited, over all connections', Implies(c.a3 != 0, at_(c.a3) == SA(ub))),
                ('[C23] busy if and only if one of them is not zero', And(Or(c.r == 0, c.r == EBUSY), (c.r == EBUSY) == Or(self.q(c) > 0, SA(ub) > 0, SB(ub) > 0)))]

    def mods(self, c):
        return [('at', 'cell.32', p) for p in (c.a1, c.a2, c.a3)]


class HasPending(RmcConn):
    key = 'rmc_pub_context_has_pending_send'
    props = ('C23',)

    def pre(self, c):
        return RmcPub.pre(self, c)

    def post(self, c):
        v = self.v0(c)
        ok = And(v.inr(c.a1), v.is_open(c.a1))
        return [('[C23] busy if and only if bytes are waiting', c.r == ite(Not(ok), ENOTCONN, ite(v.wb(c.a1).in_use() > 0, EBUSY, 0)))]

    def mods(self, c):
        return []


class QueueLength(RmcPub):
    key = 'rmc_pub_queue_length'
    props = ('C23',)

    def post(self, c):
        return [('[C23] number of queued packets', c.r == PP.cnt(c.S0, q_(c.eng, self.x(c))))]

    def mods(self, c):
        return []


# ---------------------------------------------------------------- settings
class Throttling(RmcPub):
    key = 'rmc_pub_throttling'
    props = ('C18',)

    def invs(self, c):
        return []

    def post(self, c):
        g = lambda S, f: PF_(S, f, c.a0)
        ok = c.a1 >= c.a2
        return [('[C18] refused if traffic could never resume', c.r == ite(ok, 0, EINVAL)),
                ('[C18] the thresholds are those given', And(g(c.S1, 'traffic_suspend_threshold') == ite(ok, c.a1, g(c.S0, 'traffic_suspend_threshold')), g(c.S1, 'traffic_resume_threshold') == ite(ok, c.a2, g(c.S0, 'traffic_resume_threshold'))))]

    def mods(self, c):
        return [('at', RP + '.traffic_suspend_threshold', c.a0), ('at', RP + '.traffic_resume_threshold', c.a0)]


class Suspended(RmcPub):
    key = 'rmc_pub_traffic_suspended'
    props = ('C18',)

    def invs(self, c):
        return []

    def post(self, c):
        return [('[C18] tells whether traffic is suspended', c.r == ite(PF_(c.S0, 'traffic_suspended', c.a0) != 0, EBUSY, 0))]

    def mods(self, c):
        return []


class Interval(RmcPub):
    key = 'rmc_pub_set_announce_interval'
    props = ('C22',)

    def invs(self, c):
        return []

    def pre(self, c):
        return super().pre(c) + [('clock', And(c.S0.gi('g:now') >= 0, c.S0.gi('g:now') < TMAX))]

    def post(self, c):
        g = lambda S, f: PF_(S, f, c.a0)
        n0, n1 = g(c.S0, 'announce_next_send_ts'), g(c.S1, 'announce_next_send_ts')
        return [('succeeds', c.r == 0), ('clock', And(c.S1.gi('g:now') >= c.S0.gi('g:now'), c.S1.gi('g:now') < TMAX)),
                ('[C22] the interval is set', g(c.S1, 'announce_send_interval') == c.a1),
                ('[C22] an interval of zero stops announcements', Implies(c.a1 == 0, n1 == 0)),
                ('[C22] an announcement already scheduled is not moved', Implies(And(c.a1 != 0, n0 != 0), n1 == n0)),
                ('[C22] the first announcement is due an interval ahead', Implies(And(c.a1 != 0, n0 == 0), n1 == c.S1.gi('g:now') + c.a1))]

    def mods(self, c):
        return [('at', RP + '.announce_next_send_ts', c.a0), ('at', RP + '.announce_send_interval', c.a0), ('at', 'g:now', IV(0))]


# ---------------------------------------------------------------- control messages
class ControlMessage(Handler):
    key = 'process_control_message'
    props = ('C13',)
    HDR = 2

    def setup(self, c):
        super().setup(c)
        if getattr(c, 'entry', False):
            c.eng.curCmd = (self, c)

    def total(self, c):
        return 3 + self.field(c, 0, 2)

    def invs(self, c):
        return [CVI(self.V(c))]

    def post(self, c):
        cb = PF_(c.S0, 'subscriber_control_message_cb', self.X(c)) != 0
        return self.consumed(c) + [('[C13] the callback is made exactly once, if the message is complete', c.S1.gi('g:cm.n') == c.S0.gi('g:cm.n') + ite(And(self.complete(c), cb), 1, 0))]

    def mods(self, c):
        return self.bmods(c) + [('at', 'g:cm.n', IV(0))]


def x_control_message_cb(eng, st, args, n):
    """assumed: callbacks do not call back into the library, and write nothing"""
    f, ctx, addr, port, node, pl, ln = args
    sp, c = eng.curCmd
    b = sp.rb(c.S0, c)
    x = z3.Int('x')
    M = eng.hget(st, 'M')
    g = lambda f: c.S0.f(CN + '.' + f, c.a0)
    eng.oblige(st, And(ctx == sp.X(c), addr == g('remote_address'), port == g('remote_port'), node == g('node_id')), '[C13] the callback is told the sender of the message', n, kind='post')
    eng.oblige(st, And(sp.complete(c), ln == sp.field(c, 0, 2)), '[C13] the callback gets a message with the length sent', n, kind='post')
    eng.oblige(st, forall([x], Implies(And(x >= pl, x < pl + ln), s_(M, x) == s_(c.S0.h('M'), b.addr(3 + x - pl))), [s_(M, x)]), '[C13] the callback gets exactly the bytes sent', n, kind='post')
    k = select(eng.hget(st, 'g:cm.n'), IV(0))
    wr(st, 'g:cm.n', IV(0), k + 1, eng)
    return [(st, IV(0))]


SPECS = [Queue, SendOne, WriteAll, RmcAck, AckInterval, ClosePub, PubAccept, PubWrite, SentTimeout, SubTimeout, PubTimeout, PubNext, Pending,HasPending,QueueLength,Throttling,Suspended,Interval, ControlMessage]
SPECS = [c() for c in SPECS]
EXT = {'*subscriber_connect_cb': x_connect_cb, '*announce_cb': x_announce_cb, '*subscriber_control_message_cb': x_control_message_cb, '*subscriber_disconnect_cb': x_disconnect_cb, 'sendmsg': x_sendmsg}
