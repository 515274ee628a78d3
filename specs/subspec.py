"""Contracts of sub.c.

The invariant SI covers every publisher whose lists are initialised, so that it can be stated
without naming the owner of the publishers.

Ghost state (besides that of the lists):
   g:home[d]        the node of packet d, if it is in a list
   g:now            the last value of the monotonic clock
   gS:rec           rec[L][p]: 0 if packet id p is not recorded in the interval list L as received and
                    not yet acknowledged, otherwise 1 + the time it was recorded
   g:pf.*           log of the calls of the payload free callback (see pubspec)
"""
import z3
from vcg import *
from lists import SPK, SPI, LI, list_candidates, list_measures, node_vars
from pubspec import frame_lists, same_order, old_nodes, removed, given, x_payload_free, PF, TMAX

s_ = z3.Select
ND = SPK.nt + '.data'
pid_ = 'sub_packet.pid'
pl_ = 'sub_packet.payload'
ln_ = 'sub_packet.payload_len'
ud_ = 'sub_packet.pkg_user_data'
pb_ = 'sub_packet.publisher'
PKF = (pid_, pl_, ln_, ud_, pb_)
pal_ = 'g:alive.sub_packet'
rdy_ = 'sub_publisher.max_pid_ready'
rcv_ = 'sub_publisher.max_pid_received'
IF = ('sub_pid_interval.first_pid', 'sub_pid_interval.last_pid', 'sub_pid_interval.receive_ts')
PMAX = (1 << 64) - 1


def rl(eng, p): return eng.embed('sub_publisher', 'received_pid', p)
def il(eng, p): return eng.embed('sub_publisher', 'received_interval', p)


def inv_rl(eng, L):
    rl(eng, z3.Int('z'))
    return z3.Function('inv.sub_publisher.received_pid', I, I)(L)


def inv_il(eng, L):
    il(eng, z3.Int('z'))
    return z3.Function('inv.sub_publisher.received_interval', I, I)(L)


def is_rl(eng, L): return And(L > 0, eng.tagof(L) == eng.tagid('sub_publisher.received_pid'), rl(eng, inv_rl(eng, L)) == L)
def is_il(eng, L): return And(L > 0, eng.tagof(L) == eng.tagid('sub_publisher.received_interval'), il(eng, inv_il(eng, L)) == L)


def nd_(eng, n): return eng.embed(SPI.nt, 'data', n)
def first(S, n): return S.f(IF[0], nd_(S.eng, n))
def last(S, n): return S.f(IF[1], nd_(S.eng, n))
def its(S, n): return S.f(IF[2], nd_(S.eng, n))
def rec(S, L, p): return s_(s_(S.h('gS:rec'), term(L)), term(p))


PT = z3.Function('id', I, z3.BoolSort())


def names(eng):
    """PT names packet ids and nodes that witness something"""
    if 'PT' not in eng._ax:
        eng._ax.add('PT')
        p = z3.Int('p')
        eng.axioms.append(forall([p], PT(p), [PT(p)]))


class SIP:
    """the invariant of the packets held for all publishers"""

    def conj(self, S):
        return both(S)[0]


class SII:
    """the invariant of the intervals of all publishers"""

    def conj(self, S):
        return both(S)[1]


def both(S):
    eng = S.eng
    names(eng)
    n, n2, L, p = z3.Ints('n n2 L p')
    own, data, pos = S.h(SPK.G['own']), S.h(ND), S.h(SPK.G['pos'])
    pid, al = S.h(pid_), S.h(pal_)
    o, o2, d, d2 = s_(own, n), s_(own, n2), s_(data, n), s_(data, n2)
    iown, ipos = S.h(SPI.G['own']), S.h(SPI.G['pos'])
    io, io2 = s_(iown, n), s_(iown, n2)
    rdy = S.h(rdy_)
    now = S.gi('g:now')
    R = rec(S, L, p)
    out = [
        ('packets in lists', forall([n], Implies(o != 0, And(d > 0, s_(al, d) == 1)), [o])),
        ('packets are in one list once', forall([n], Implies(o != 0, s_(S.h('g:home'), d) == n), [(o, d)])),
        ('held packets continue behind a gap', forall([n], Implies(is_rl(eng, o), And(s_(pid, d) > s_(rdy, inv_rl(eng, o)), s_(pid, d) < PMAX)), [(o, s_(pid, d))])),
        ('held packets are ordered by packet id', forall([n, n2], Implies(And(is_rl(eng, o), o == o2, s_(pos, n) < s_(pos, n2)), s_(pid, d) < s_(pid, d2)), [(s_(pid, d), s_(pid, d2))])),
        ('last id ready', forall([L], s_(rdy, L) >= 0, [s_(rdy, L)])),
        ('intervals are sound', forall([n], Implies(is_il(eng, io), And(first(S, n) >= 1, first(S, n) <= last(S, n), last(S, n) < PMAX, its(S, n) >= 0, its(S, n) <= now)), [io])),
        ('intervals are sorted, disjoint and not adjacent', forall([n, n2], Implies(And(is_il(eng, io), io == io2, s_(ipos, n) < s_(ipos, n2)), last(S, n) + 1 < first(S, n2)), [(io, io2)])),
        ('every id in an interval was recorded, not before its time', forall([n, L, p], Implies(And(is_il(eng, L), io == L, first(S, n) <= p, p <= last(S, n)), R >= its(S, n) + 1), [(io, R)])),
        ('every recorded id is in an interval', forall([L, p], Implies(And(is_il(eng, L), R != 0), z3.Exists([n], And(io == L, PT(n), first(S, n) <= p, p <= last(S, n)), patterns=[io, PT(n), nd_(eng, n)])), [R])),
        ('the time of an interval is that of one of its packets', forall([n, L], Implies(And(is_il(eng, L), io == L), z3.Exists([p], And(PT(p), first(S, n) <= p, p <= last(S, n), R == its(S, n) + 1), patterns=[R, PT(p)])), [(io, s_(S.h('gS:rec'), L))])),
        ('times are sane', And(now >= 0, now < TMAX, forall([L, p], And(R >= 0, R <= now + 1), [R]))),
    ]
    for l, f in out:
        eng.heavy(f)
    return out[:5], out[5:]


KH = [SPK.nt + '.next', SPK.nt + '.prev', SPK.nt + '.owner', SPK.lt + '.head', SPK.lt + '.tail', SPK.lt + '.elem_count'] + \
     [SPK.G[k] for k in ('own', 'pos', 'sq', 'alive', 'memb')]
IH = [SPI.nt + '.next', SPI.nt + '.prev', SPI.nt + '.owner', SPI.lt + '.head', SPI.lt + '.tail', SPI.lt + '.elem_count'] + \
     [SPI.G[k] for k in ('own', 'pos', 'sq', 'alive')]


class SubSpec(Spec):
    opts = {'freeable': {SPK.nt, SPI.nt, 'sub_packet'}}
    packets = intervals = True

    def invs(self, c):
        return ([LI(SPK), SIP()] if self.packets else []) + ([LI(SPI), SII()] if self.intervals else [])

    def axioms(self, c):
        S = c.S0
        L = z3.Int('L')
        return [forall([L], SPK.cnt(S, L) < (1 << 32) - 2, [SPK.cnt(S, L)]), forall([L], SPI.cnt(S, L) < (1 << 32) - 2, [SPI.cnt(S, L)])]

    def pub(self, c):
        return c.a0

    def pre(self, c):
        eng, S, p = c.eng, c.S0, self.pub(c)
        return [('publisher given', And(p > 0, SPK.val(S, rl(eng, p)) == 1, SPI.val(S, il(eng, p)) == 1))]

    def loop_candidates(self, eng, c, st, E, modenv, wset, vars_):
        return list_candidates(self, eng, c, st, E, modenv, wset, vars_)

    def loop_measures(self, eng, c, s, vars_):
        return list_measures(self, eng, c, s, vars_)

    def loop_lists(self, c):
        p = self.pub(c)
        return [(SPK, rl(c.eng, p)), (SPI, il(c.eng, p))]


def x_now(eng, st, args, n):
    """assumed: the clock is monotonic and below 2^62"""
    t = fresh('now')
    st.facts.append(And(t >= select(eng.hget(st, 'g:now'), IV(0)), t < TMAX))
    st.H['g:now'] = store(eng.hget(st, 'g:now'), IV(0), t)
    st.written.append(('g:now', IV(0)))
    return [(st, t)]


class IsDuplicate(SubSpec):
    key = 'sub_packet_is_duplicate'
    intervals = False
    props = ('C09',)

    def pre(self, c):
        return super().pre(c) + [('packet id', And(c.a1 >= 1, c.a1 < PMAX))]

    def dup(self, c):
        S, p = c.S0, c.a0
        n = z3.Int('n')
        L = rl(c.eng, p)
        held = z3.Exists([n], And(SPK.own(S, n) == L, S.f(pid_, S.f(ND, n)) == c.a1), patterns=[SPK.own(S, n)])
        return And(S.f(rdy_, p) != 0, Or(c.a1 <= S.f(rdy_, p), held))

    def post(self, c):
        return [('[C09] duplicate exactly if ready already or held back', (c.r != 0) == self.dup(c)), ('flag', Or(c.r == 0, c.r == 1))]

    def visited(self, c, T, L):
        if T is not SPK:
            return []
        return [('has a smaller packet id', lambda S, e, i: S.f(pid_, S.f(ND, e)) < c.a1), ('has a larger packet id', lambda S, e, i: S.f(pid_, S.f(ND, e)) > c.a1),
                ('has another packet id', lambda S, e, i: S.f(pid_, S.f(ND, e)) != c.a1)]


def record(S, L, p, t):
    """rec with packet id p recorded in L at time t"""
    h = S.h('gS:rec')
    return z3.Store(h, L, z3.Store(s_(h, L), p, t + 1))


class AddInterval(SubSpec):
    key = 'sub_packet_add_to_received_interval'
    packets = False
    props = ('C10',)
    ghosts = ('gS:rec',)

    def pre(self, c):
        return super().pre(c) + [('packet id', And(c.a1 >= 1, c.a1 < PMAX)),
                                 ('packet id is not recorded already', rec(c.S0, il(c.eng, c.a0), c.a1) == 0)]

    def ghost(self, c):
        c.S1.set('gS:rec', record(c.S0, il(c.eng, c.a0), c.a1, c.S1.gi('g:now')))

    def visited(self, c, T, L):
        if T is not SPI:
            return []
        return [('begins behind the packet id', lambda S, e, i: first(S, e) > c.a1 + 1)]

    def post(self, c):
        S0, S1 = c.S0, c.S1
        L = il(c.eng, c.a0)
        n = z3.Int('n')
        return [('list of intervals', SPI.cnt(S1, L) > 0),
                ('the clock does not go back', S1.gi('g:now') >= S0.gi('g:now')),
                ('[C10] nodes of other lists', forall([n], Implies(And(SPI.own(S0, n) != L, SPI.own(S0, n) != 0), And(SPI.own(S1, n) == SPI.own(S0, n), *[S1.f(f, nd_(c.eng, n)) == S0.f(f, nd_(c.eng, n)) for f in IF])), [SPI.own(S1, n)])),
                ('new nodes', forall([n], Implies(And(SPI.own(S1, n) != 0, SPI.own(S0, n) == 0), SPI.own(S1, n) == L), [SPI.own(S1, n)]))] + frame_lists(SPI, S0, S1, [L])

    def mods(self, c):
        return [('all', h) for h in IH + list(IF)] + [('at', 'g:now', IV(0))]


def oldest_axioms(eng):
    """OLDF(a): the arrival time of the oldest packet recorded in a, 0 if there is none (a[p] > 0: packet p was recorded at a[p] - 1)"""
    if 'OLDF' in eng._ax:
        return
    eng._ax.add('OLDF')
    a, p = z3.Const('a', AI), z3.Int('p')
    w = OLDW(a)
    eng.axioms += [forall([a, p], Implies(s_(a, p) > 0, And(OLDF(a) <= s_(a, p) - 1, s_(a, w) == OLDF(a) + 1)), [(OLDF(a), s_(a, p))]),
                   forall([a], And(OLDF(a) >= 0, PT(w), Or(s_(a, w) == OLDF(a) + 1, And(OLDF(a) == 0, s_(a, w) <= 0))), [OLDF(a)])]


OLDF = z3.Function('oldest', AI, I)
OLDW = z3.Function('oldest.packet', AI, I)


def OLD(S, p):
    """arrival of the oldest packet of publisher p that is to be acknowledged"""
    oldest_axioms(S.eng)
    return OLDF(s_(S.h('gS:rec'), il(S.eng, p)))


class Oldest(SubSpec):
    key = 'sub_oldest_unacknowledged_packet'
    packets = False
    props = ('C07', 'C11')

    def ret_term(self, c):
        return OLD(c.S0, c.a0)

    def visited(self, c, T, L):
        return []

    def extra_candidates(self, eng, c, st, E, modenv, wset, vars_):
        out = []
        L = il(eng, c.a0)
        m = z3.Int('m')
        for k, T, v in node_vars(vars_):
            if k not in modenv or T is not SPI:
                continue
            for k2, t, v2 in vars_:
                if k2 in modenv and t[0] == 'int':
                    for strict in (0, 1):
                        ub = lambda S, env, k=k, strict=strict: z3.If(term(env[k]) == 0, SPI.cnt(S, L), SPI.pos(S, term(env[k])) + strict)
                        out.append(('not later than any passed', lambda S, env, ub=ub, k2=k2: forall([m], Implies(And(SPI.own(S, m) == L, SPI.pos(S, m) < ub(S, env)), term(env[k2]) <= its(S, m)), [SPI.own(S, m)])))
                    out.append(('one of the times', lambda S, env, k2=k2: z3.Exists([m], And(SPI.own(S, m) == L, its(S, m) == term(env[k2])), patterns=[SPI.own(S, m)])))
        return out

    def post(self, c):
        S = c.S0
        L = il(c.eng, c.a0)
        n, p = z3.Ints('n p')
        R = rec(S, L, p)
        return [('[C07,C11] the arrival of the oldest packet to be acknowledged', c.r == OLD(S, c.a0)),
                ('nothing to acknowledge', Implies(SPI.cnt(S, L) == 0, c.r == 0)),
                ('[C07,C11] not later than any interval', forall([n], Implies(SPI.own(S, n) == L, c.r <= its(S, n)), [SPI.own(S, n)])),
                ('[C07,C11] not later than the arrival of any packet to be acknowledged', forall([p], Implies(R != 0, c.r <= R - 1), [R])),
                ('[C07,C11] the arrival time of a packet to be acknowledged', Implies(SPI.cnt(S, L) != 0, z3.Exists([p], R == c.r + 1, patterns=[R]))),
                ('range', And(c.r >= 0, c.r <= S.gi('g:now')))]


class Received(SubSpec):
    key = 'sub_packet_received'
    props = ('C08', 'C10')

    def cases(self, c):
        return ['recorded', 'not recorded']

    verify_cases = True

    def case_facts(self, c):
        return [c.a[4] != 0 if c.case == 'recorded' else c.a[4] == 0]

    def pre(self, c):
        S, p, pid = c.S0, c.a0, c.a1
        L = rl(c.eng, p)
        n = z3.Int('n')
        return super().pre(c) + [('packet id', And(pid > S.f(rdy_, p), pid < PMAX)),
                                 ('packet is not held already', forall([n], Implies(SPK.own(S, n) == L, S.f(pid_, S.f(ND, n)) != pid), [SPK.own(S, n)])),
                                 ('packet is not recorded already', Implies(c.a[4] != 0, rec(S, il(c.eng, p), pid) == 0))]

    # g:rx[0]: the packet received last
    ghosts = ('g:home', 'g:rx')

    def ghost(self, c):
        c.S1.setat('g:home', s_(c.S1.h(ND), c.vals['node']), c.vals['node'])
        c.S1.setat('g:rx', IV(0), s_(c.S1.h(ND), c.vals['node']))

    def setup(self, c):
        if not getattr(c, 'entry', False):
            c.vals['node'] = fresh('newnode')

    def exit_setup(self, c):
        c.vals['node'] = new_member(c.S1.h(SPK.G['memb']))

    def post(self, c):
        S0, S1, eng, p = c.S0, c.S1, c.eng, c.a0
        L, IL = rl(eng, p), il(eng, p)
        nn = c.vals['node']
        dd = s_(S1.h(ND), nn)
        n, d = z3.Ints('n d')
        out = [('[C08] one more packet is held', And(SPK.own(S0, nn) == 0, SPK.own(S1, nn) == L, SPK.alive(S0, nn) == 0, s_(S0.h(pal_), dd) == 0, s_(S1.h(pal_), dd) == 1, dd > 0, nn > 0,
                                                     eng.tagof(dd) == 0, eng.tagof(nn) == 0, SPK.cnt(S1, L) == SPK.cnt(S0, L) + 1)),
               ('[C08,C15,C21] it carries what was given', And(S1.f(pid_, dd) == c.a1, S1.f(pl_, dd) == c.a2, S1.f(ln_, dd) == c.a3, S1.f(ud_, dd) == c.a[6], S1.f(pb_, dd) == p)),
               ('[C08] other nodes keep their list', old_nodes(SPK, S0, S1, new=[nn])),
               ('[C08] held packets keep their order', same_order(SPK, S0, S1, L)),
               ('[C08] packets held are held', forall([n], Implies(SPK.own(S0, n) == L, And(SPK.own(S1, n) == L, S1.f(pid_, S1.f(ND, n)) == S0.f(pid_, S0.f(ND, n)))), [SPK.own(S0, n)])),
               ('[C08,C21] packets do not change', forall([d], Implies(d != dd, And(*[S1.f(h, d) == S0.f(h, d) for h in PKF + (pal_,)])), [S1.f(pal_, d), S1.f(pid_, d)])),
               ('membership', S1.h(SPK.G['memb']) == z3.Store(S0.h(SPK.G['memb']), dd, z3.Store(s_(S0.h(SPK.G['memb']), dd), L, nn))),
               ('data of other nodes', forall([n], Implies(n != nn, S1.f(ND, n) == S0.f(ND, n)), [S1.f(ND, n)])),
               ('largest id received', S1.f(rcv_, p) == z3.If(S0.f(rcv_, p) < c.a1, c.a1, S0.f(rcv_, p))),
               ('the clock does not go back', S1.gi('g:now') >= S0.gi('g:now'))] + frame_lists(SPK, S0, S1, [L])
        if c.case == 'recorded':
            out += [('[C10,C11] the packet is recorded', S1.h('gS:rec') == record(S0, IL, c.a1, S1.gi('g:now'))),
                    ('list of intervals', SPI.cnt(S1, IL) > 0),
                    ('[C10] nodes of other lists', forall([n], Implies(And(SPI.own(S0, n) != IL, SPI.own(S0, n) != 0), And(SPI.own(S1, n) == SPI.own(S0, n), *[S1.f(f, nd_(c.eng, n)) == S0.f(f, nd_(c.eng, n)) for f in IF])), [SPI.own(S1, n)])),
                    ('new nodes', forall([n], Implies(And(SPI.own(S1, n) != 0, SPI.own(S0, n) == 0), SPI.own(S1, n) == IL), [SPI.own(S1, n)]))] + frame_lists(SPI, S0, S1, [IL])
        return out

    def mods(self, c):
        m = [('all', h) for h in KH + [ND, pal_] + list(PKF)] + [('at', rcv_, c.a0)]
        if c.case == 'recorded':
            m += [('all', h) for h in IH + list(IF)] + [('at', 'g:now', IV(0)), ('all', 'gS:rec')]
        return m


def new_member(t):
    """the node in memb = Store(memb0, d, Store(.., L, node))"""
    u = ALIAS.get(t.get_id())
    t = u[1] if u else t
    if t.decl().kind() == z3.Z3_OP_STORE:
        v = t.children()[2]
        u = ALIAS.get(v.get_id())
        v = u[1] if u else v
        if v.decl().kind() == z3.Z3_OP_STORE:
            return v.children()[2]
    return fresh('nonode')


class Process(SubSpec):
    key = 'sub_process_received_packets'
    intervals = False
    props = ('C08',)

    def pre(self, c):
        S, D, eng = c.S0, c.a1, c.eng
        return super().pre(c) + [('dispatch list given', And(D > 0, SPK.val(S, D) == 1, Not(is_rl(eng, D))))]

    def loop_lists(self, c):
        return super().loop_lists(c) + [(SPK, c.a1)]

    def r0(self, c):
        """the last id ready, once the first packet is there"""
        S, p = c.S0, c.a0
        L = rl(c.eng, p)
        return z3.If(And(S.f(rdy_, p) == 0, SPK.cnt(S, L) > 0), S.f(pid_, S.f(ND, SPK.sq(S, L, 0))) - 1, S.f(rdy_, p))

    def moved(self, c, S):
        """the first m held packets were moved"""
        S0, p, D, eng = c.S0, c.a0, c.a1, c.eng
        L = rl(eng, p)
        m = SPK.cnt(S0, L) - SPK.cnt(S, L)
        j, n, l, d = z3.Ints('j n l d')
        e = SPK.sq(S, D, j)
        c0 = SPK.cnt(S0, D)
        o0, o1 = SPK.own(S0, n), SPK.own(S, n)
        return [('[C08] number of packets moved', And(m >= 0, SPK.cnt(S, L) >= 0, SPK.cnt(S, D) == c0 + m)),
                ('[C08] last id ready', S.f(rdy_, p) == self.r0(c) + m),
                ('[C08,C21] packets that were ready keep their place', forall([j], Implies(And(j >= 0, j < c0), e == SPK.sq(S0, D, j)), [e])),
                ('[C08] consecutive packets are appended in order', forall([j], Implies(And(j >= c0, j < c0 + m), And(e == SPK.sq(S0, L, j - c0), S.f(pid_, S.f(ND, e)) == self.r0(c) + 1 + j - c0)), [e])),
                ('[C08] the rest is still held', forall([j], Implies(And(j >= 0, j < SPK.cnt(S, L)), SPK.sq(S, L, j) == SPK.sq(S0, L, j + m)), [SPK.sq(S, L, j)])),
                ('[C08,C21] no packet is lost', forall([n], Or(o1 == o0, And(o0 == L, o1 == D)), [o1])),
                ('nodes moved', forall([n], Implies(o0 == L, (o1 == D) == (SPK.pos(S0, n) < m)), [o1])),
                ('other memberships', forall([d, l], Implies(And(l != L, l != D), SPK.memb(S, d, l) == SPK.memb(S0, d, l)), [SPK.memb(S, d, l)])),
                ('nodes stay allocated', S.h(SPK.G['alive']) == S0.h(SPK.G['alive'])),
                ] + frame_lists(SPK, S0, S, [L, D])

    def extra_candidates(self, eng, c, st, E, modenv, wset, vars_):
        k = len(self.moved(c, E))
        L = rl(eng, c.a0)
        out = [(self.moved(c, E)[i][0], (lambda i: lambda S, env: self.moved(c, S)[i][1])(i)) for i in range(k)]
        for kk, T, v in node_vars(vars_):
            if kk in modenv and T is SPK:
                out.append(('node is the first one held', lambda S, env, kk=kk: term(env[kk]) == z3.If(SPK.cnt(S, L) > 0, SPK.sq(S, L, 0), 0)))
        return out

    def post(self, c):
        S0, S1, p, eng = c.S0, c.S1, c.a0, c.eng
        L = rl(eng, p)
        n, d, l = z3.Ints('n d l')
        m0, m1 = S0.h(SPK.G['memb']), S1.h(SPK.G['memb'])
        return self.moved(c, S1) + [
            ('[C08] packets moved are ready', forall([n], Implies(SPK.own(S0, n) == L, Or(SPK.own(S1, n) == L, S1.f(pid_, S1.f(ND, n)) <= S1.f(rdy_, p))), [SPK.own(S1, n), SPK.own(S0, n)])),
            ('[C08] every packet that continues the sequence is moved', forall([n], Implies(SPK.own(S1, n) == L, S1.f(pid_, S1.f(ND, n)) > S1.f(rdy_, p) + 1), [SPK.own(S1, n)]))]

    def mods(self, c):
        return [('all', h) for h in KH] + [('at', rdy_, c.a0)]


class InitPublisher(SubSpec):
    key = 'sub_init_publisher'
    props = ('C08', 'C09', 'C10')
    ghosts = ('gS:rec',)

    def pre(self, c):
        return [('publisher given', c.a0 > 0)]

    def ghost(self, c):
        h = c.S0.h('gS:rec')
        c.S1.set('gS:rec', z3.Store(h, il(c.eng, c.a0), z3.K(I, IV(0))))

    def post(self, c):
        S0, S1, eng, p = c.S0, c.S1, c.eng, c.a0
        L, IL = rl(eng, p), il(eng, p)
        n, l = z3.Ints('n l')
        out = [('[C08,C09,C10] nothing received yet', And(SPK.val(S1, L) == 1, SPK.cnt(S1, L) == 0, SPI.val(S1, IL) == 1, SPI.cnt(S1, IL) == 0,
                                                         S1.f(rdy_, p) == 0, S1.f(rcv_, p) == 0))]
        for T, X in ((SPK, L), (SPI, IL)):
            out += [('nodes stay', forall([n], And(Implies(T.own(S0, n) != X, And(T.own(S1, n) == T.own(S0, n), T.pos(S1, n) == T.pos(S0, n))),
                                                  Implies(T.own(S0, n) == X, T.own(S1, n) == 0)), [T.own(S1, n)])),
                    ('lists stay', forall([l], Implies(l != X, And(T.Sq(S1, l) == T.Sq(S0, l), T.cnt(S1, l) == T.cnt(S0, l), T.val(S1, l) == T.val(S0, l))), [T.val(S1, l)]))]
        return out

    def mods(self, c):
        L, IL = rl(c.eng, c.a0), il(c.eng, c.a0)
        out = [('at', rdy_, c.a0), ('at', rcv_, c.a0)]
        for T, X in ((SPK, L), (SPI, IL)):
            out += [('all', T.G[k]) for k in ('own', 'pos', 'sq', 'memb', 'val') if k in T.G] + [('at', T.lt + '.' + f, X) for f in ('head', 'tail', 'elem_count', 'user_data', 'alloc_node', 'free_node')]
        return out


class ResetPublisher(SubSpec):
    key = 'sub_reset_publisher'
    props = ('C21',)
    ghosts = ('gS:rec',)

    def pre(self, c):
        return super().pre(c) + [('free function given', given(c.a1))]

    def ghost(self, c):
        h = c.S0.h('gS:rec')
        c.S1.set('gS:rec', z3.Store(h, il(c.eng, c.a0), z3.K(I, IV(0))))

    def freed(self, c, S):
        S0, p, eng = c.S0, c.a0, c.eng
        L = rl(eng, p)
        k0 = S0.gi('g:pf.n')
        m = SPK.cnt(S0, L) - SPK.cnt(S, L)
        k, n, d, j = z3.Ints('k n d j')
        dk = S0.f(ND, SPK.sq(S0, L, k - k0))
        o0, o1 = SPK.own(S0, n), SPK.own(S, n)
        return [('[C21] one call of the free function per packet', And(S.gi('g:pf.n') == k0 + m, m >= 0, SPK.cnt(S, L) >= 0)),
                ('[C21] each payload held is freed, with its length', forall([k], Implies(And(k >= k0, k < k0 + m), And(s_(S.h('g:pf.ptr'), k) == S0.f(pl_, dk), s_(S.h('g:pf.len'), k) == S0.f(ln_, dk))), [s_(S.h('g:pf.ptr'), k)])),
                ('free log', forall([k], Implies(k < k0, And(*[s_(S.h(h), k) == s_(S0.h(h), k) for h in PF[1:]])), [s_(S.h('g:pf.ptr'), k)])),
                ('[C21] the rest is still held', forall([j], Implies(And(j >= 0, j < SPK.cnt(S, L)), SPK.sq(S, L, j) == SPK.sq(S0, L, j + m)), [SPK.sq(S, L, j)])),
                ('[C21] other packets', forall([d], Implies(SPK.own(S0, s_(S0.h('g:home'), d)) != L, S.f(pal_, d) == S0.f(pal_, d)), [S.f(pal_, d)])),
                ('nodes', forall([n], Or(And(o1 == o0, SPK.alive(S, n) == SPK.alive(S0, n)), And(o0 == L, o1 == 0, SPK.alive(S, n) == 0)), [o1, SPK.alive(S, n)])),
                ('nodes held', forall([n], Implies(o0 == L, (o1 == 0) == (SPK.pos(S0, n) < m)), [o1])),
                ('memberships', forall([d, n], Implies(n != L, SPK.memb(S, d, n) == SPK.memb(S0, d, n)), [SPK.memb(S, d, n)])),
                ('valid', S.h(SPK.G['val']) == S0.h(SPK.G['val']))] + frame_lists(SPK, S0, S, [L])

    def extra_candidates(self, eng, c, st, E, modenv, wset, vars_):
        k = len(self.freed(c, E))
        return [(self.freed(c, E)[i][0], (lambda i: lambda S, env: self.freed(c, S)[i][1])(i)) for i in range(k)]

    def post(self, c):
        S0, S1, eng, p = c.S0, c.S1, c.eng, c.a0
        L, IL = rl(eng, p), il(eng, p)
        n = z3.Int('n')
        return self.freed(c, S1) + [
            ('[C21] nothing is held and nothing is to be acknowledged', And(SPK.cnt(S1, L) == 0, SPI.cnt(S1, IL) == 0)),
            ('nodes of intervals', forall([n], And(Implies(SPI.own(S0, n) != IL, And(SPI.own(S1, n) == SPI.own(S0, n), SPI.alive(S1, n) == SPI.alive(S0, n))),
                                                  Implies(SPI.own(S0, n) == IL, SPI.own(S1, n) == 0)), [SPI.own(S1, n)]))] + frame_lists(SPI, S0, S1, [IL])

    def mods(self, c):
        return [('all', h) for h in KH + IH + [pal_] + list(PF)]


EXT = {'*payload_free_cb': x_payload_free, 'rmc_usec_monotonic_timestamp': x_now}
SPECS = [IsDuplicate, AddInterval, Oldest, Received, Process, InitPublisher, ResetPublisher]
SPECS = [c() for c in SPECS]
