"""Contracts of pub.c.

Ghost state (besides that of the lists):
   card(memb[d])    number of inflight lists of subscribers that hold packet d
   g:pf.*           log of the calls of the payload free callback: n entries (ptr, len, user data);
                    pf.d[k] is the packet entry k was made for, pf.at[d] the entry made for packet d
"""
import z3
from vcg import *
from lists import PP, PS, LI, LSpec, EXT as LEXT, free_obj, list_candidates, list_measures

s_ = z3.Select
TMAX = 1 << 62
BIG = 1 << 31

pid_ = 'pub_packet.pid'
rc_ = 'pub_packet.ref_count'
par_ = 'pub_packet.parent_node'
ts_ = 'pub_packet.send_ts'
pl_ = 'pub_packet.payload'
ln_ = 'pub_packet.payload_len'
ud_ = 'pub_packet.pkg_user_data'
PKF = (pid_, rc_, par_, ts_, pl_, ln_, ud_)
pal_ = 'g:alive.pub_packet'
ctx_ = 'pub_subscriber.context'
np_ = 'pub_context.next_pid'
PF = ('g:pf.n', 'g:pf.ptr', 'g:pf.len', 'g:pf.ud')
ND = PP.nt + '.data'
SD = PS.nt + '.data'

CARD = z3.Function('card', AI, I)
FIN = z3.Function('finite', AI, z3.BoolSort())


def q_(eng, x): return eng.embed('pub_context', 'queued', x)
def f_(eng, x): return eng.embed('pub_context', 'inflight', x)
def sl_(eng, x): return eng.embed('pub_context', 'subscribers', x)
def infl(eng, s): return eng.embed('pub_subscriber', 'inflight', s)


def inv_infl(eng, L):
    infl(eng, z3.Int('z'))
    return z3.Function('inv.pub_subscriber.inflight', I, I)(L)


def is_infl(eng, L):
    """L is the inflight list of some subscriber"""
    return And(eng.tagof(L) == eng.tagid('pub_subscriber.inflight'), infl(eng, inv_infl(eng, L)) == L)


def card_axioms(eng):
    """finite cardinality: the number of entries of m that are not 0 at lists of subscribers"""
    if 'card' in eng._ax:
        return
    eng._ax.add('card')
    m = z3.Const('m', AI)
    L, v = z3.Ints('L v')
    st = z3.Store(m, L, v)
    tag = eng.tagof(L) == eng.tagid('pub_subscriber.inflight')
    infl(eng, z3.Int('z'))
    eng.axioms += [
        forall([m, L, v], FIN(st) == FIN(m), [FIN(st)]),
        forall([m], Implies(FIN(m), And(CARD(m) >= 0, CARD(m) < BIG)), [CARD(m)]),
        forall([m, L], Implies(And(FIN(m), s_(m, L) != 0, tag), CARD(m) >= 1), [(CARD(m), s_(m, L))]),
        forall([m, L, v], Implies(And(FIN(m), tag), CARD(st) == CARD(m) - z3.If(s_(m, L) != 0, 1, 0) + z3.If(v != 0, 1, 0)), [CARD(st)]),
        forall([m, L, v], Implies(And(FIN(m), Not(tag)), CARD(st) == CARD(m)), [CARD(st)]),
    ]


def card_witness(eng):
    """what is awaited from somebody is in the list of some subscriber"""
    m = z3.Const('m', AI)
    W = z3.Function('cardw', AI, I)
    infl(eng, z3.Int('z'))
    return forall([m], Implies(And(FIN(m), CARD(m) >= 1), And(s_(m, W(m)) != 0, is_infl(eng, W(m)))), [CARD(m)])


def member(S, x, s):
    """the node of subscriber s in the subscriber list of x, 0 if it is none"""
    return PS.memb(S, s, sl_(S.eng, x))


def awaits(S, d, s):
    """packet d is awaited from subscriber s"""
    return PP.memb(S, d, infl(S.eng, s)) != 0


class PI:
    """the invariant of a publisher context"""

    def __init__(self, x):
        self.x = x

    def conj(self, S):
        eng, x = S.eng, self.x
        card_axioms(eng)
        n, n2, d, L, sb = z3.Ints('n n2 d L sb')
        q, f, sl = q_(eng, x), f_(eng, x), sl_(eng, x)
        own, data = S.h(PP.G['own']), S.h(ND)
        pid, rc, par, ts, al = S.h(pid_), S.h(rc_), S.h(par_), S.h(ts_), S.h(pal_)
        memb = S.h(PP.G['memb'])
        o, dn = s_(own, n), s_(data, n)
        o2, dn2 = s_(own, n2), s_(data, n2)
        pos = S.h(PP.G['pos'])
        np = S.f(np_, x)
        inL = inv_infl(eng, L)
        sub = lambda L: And(is_infl(eng, L), member(S, x, inv_infl(eng, L)) != 0)
        on = s_(own, n)
        sown, sdata = S.h(PS.G['own']), S.h(SD)
        so, sd = s_(sown, n), s_(sdata, n)
        out = [
            ('context: lists are initialised', And(x > 0, PP.val(S, q) == 1, PP.val(S, f) == 1, PS.val(S, sl) == 1, np >= 1)),
            ('context: queued packets', forall([n], Implies(o == q, And(dn > 0, s_(al, dn) == 1)), [o])),
            ('context: node of a queued packet', forall([n], Implies(o == q, s_(par, dn) == n), [s_(par, dn)])),
            ('context: queued packets are awaited from nobody', forall([n], Implies(o == q, And(s_(rc, dn) == 0, CARD(s_(memb, dn)) == 0, FIN(s_(memb, dn)))), [s_(rc, dn), s_(memb, dn)])),
            ('context: ids of queued packets', forall([n], Implies(o == q, And(s_(pid, dn) >= 0, s_(pid, dn) < np)), [s_(pid, dn)])),
            ('context: queue is ordered by packet id', forall([n, n2], Implies(And(o == q, o2 == q, s_(pos, n) < s_(pos, n2)),
                                                                              Or(s_(pid, dn) > s_(pid, dn2), And(s_(pid, dn) == 0, s_(pid, dn2) == 0))), [(s_(pid, dn), s_(pid, dn2))])),
            ('context: packets sent', forall([n], Implies(o == f, And(dn > 0, s_(al, dn) == 1)), [o])),
            ('context: node of a packet sent', forall([n], Implies(o == f, s_(par, dn) == n), [s_(par, dn)])),
            ('context: outstanding acknowledgements of a packet sent', forall([n], Implies(o == f, And(s_(rc, dn) == CARD(s_(memb, dn)), FIN(s_(memb, dn)))), [s_(rc, dn), s_(memb, dn)])),
            ('context: ids of packets sent', forall([n], Implies(o == f, And(s_(pid, dn) > 0, s_(pid, dn) < np)), [s_(pid, dn)])),
            ('context: times of packets sent', forall([n], Implies(o == f, And(s_(ts, dn) >= 0, s_(ts, dn) < TMAX)), [s_(ts, dn)])),
            ('context: packets sent are ordered by packet id', forall([n, n2], Implies(And(o == f, o2 == f, s_(pos, n) < s_(pos, n2)),
                                                                                     s_(pid, dn) > s_(pid, dn2)), [(s_(pid, dn), s_(pid, dn2))])),
            ('context: packets queued have later ids than packets sent', forall([n, n2], Implies(And(o == f, o2 == q), Or(s_(pid, dn2) == 0, s_(pid, dn) < s_(pid, dn2))), [(s_(pid, dn), s_(pid, dn2))])),
            ('context: packets were sent in the order of their ids', forall([n, n2], Implies(And(o == f, o2 == f, s_(pid, dn) < s_(pid, dn2)),
                                                                                           s_(ts, dn) <= s_(ts, dn2)), [(s_(ts, dn), s_(ts, dn2))])),
            ('context: subscribers', forall([n], Implies(so == sl, And(sd > 0, s_(S.h(ctx_), sd) == x, PP.val(S, infl(eng, sd)) == 1,
                                                                     s_(s_(S.h(PS.G['memb']), sd), sl) == n)), [so])),
            ('context: awaited packets were sent', forall([n], Implies(sub(o), And(s_(own, s_(par, dn)) == f, s_(data, s_(par, dn)) == dn,
                                                                                 s_(s_(memb, dn), o) == n)), [o])),
            ('context: packets are awaited from subscribers only',
             forall([d, L], Implies(And(s_(own, s_(par, d)) == f, s_(data, s_(par, d)) == d, s_(s_(memb, d), L) != 0, is_infl(eng, L)),
                                    member(S, x, inL) != 0), [s_(s_(memb, d), L)])),
            ('context: awaited packets are ordered by packet id', forall([n, n2], Implies(And(o == o2, sub(o), s_(pos, n) < s_(pos, n2)),
                                                                                        s_(pid, dn) > s_(pid, dn2)), [(s_(pid, dn), s_(pid, dn2))])),
            ('packets: released ones are awaited from nobody', forall([d], Implies(s_(al, d) == 0, And(CARD(s_(memb, d)) == 0, FIN(s_(memb, d)))), [s_(al, d)])),
        ]
        for i, (l, f) in enumerate(out):
            if i:
                eng.heavy(f)
        return out


LHEAPS = [PP.nt + '.next', PP.nt + '.prev', PP.nt + '.owner', PP.lt + '.head', PP.lt + '.tail', PP.lt + '.elem_count'] + \
         [PP.G[k] for k in ('own', 'pos', 'sq', 'alive', 'memb')]
SHEAPS = [PS.nt + '.next', PS.nt + '.prev', PS.nt + '.owner', PS.lt + '.head', PS.lt + '.tail', PS.lt + '.elem_count'] + \
         [PS.G[k] for k in ('own', 'pos', 'sq', 'alive', 'memb')]


def frame_lists(T, S0, S1, touched, local=False):
    """lists other than `touched` (and local ones) are the same sequences; nodes keep everything"""
    L, n = z3.Ints('L n')
    ex = [L != t for t in touched] + ([L > 0] if local else [])
    own0, own1 = S0.h(T.G['own']), S1.h(T.G['own'])
    return [('other lists unchanged (%s)' % T.p,
             And(forall([L], Implies(And(*ex), And(T.Sq(S1, L) == T.Sq(S0, L), T.cnt(S1, L) == T.cnt(S0, L))),
                        [T.Sq(S1, L), T.cnt(S1, L), T.val(S1, L)]),
                 forall([n], Implies(And(s_(own0, n) != 0, *[s_(own0, n) != t for t in touched]),
                                     And(s_(own1, n) == s_(own0, n), T.pos(S1, n) == T.pos(S0, n), T.alive(S1, n) == T.alive(S0, n))),
                        [s_(own1, n), T.pos(S1, n)])))]


class PubSpec(Spec):
    props = ('C04', 'C05')
    opts = {'freeable': {PP.nt, PS.nt, 'pub_packet'}}
    sub = False              # first argument is a subscriber

    def x(self, c):
        """the publisher context"""
        return c.S0.f(ctx_, c.a0) if self.sub else c.a0

    def invs(self, c):
        return [LI(PP), LI(PS), PI(self.x(c))]

    def axioms(self, c):
        card_axioms(c.eng)
        S, x, eng = c.S0, self.x(c), c.eng
        L, d = z3.Ints('L d')
        return [forall([L], PP.cnt(S, L) < (1 << 32) - 2, [PP.cnt(S, L)]), forall([L], PS.cnt(S, L) < (1 << 32) - 2, [PS.cnt(S, L)]),
                S.f(np_, x) < (1 << 64) - 1]

    def pre(self, c):
        p = [('context given', self.x(c) > 0)]
        if self.sub:
            p = [('subscriber of the context', And(c.a0 > 0, self.x(c) > 0, member(c.S0, self.x(c), c.a0) != 0))]
        return p

    def loop_candidates(self, eng, c, st, E, modenv, wset, vars_):
        return list_candidates(self, eng, c, st, E, modenv, wset, vars_)

    def loop_measures(self, eng, c, s, vars_):
        return list_measures(self, eng, c, s, vars_)

    def mods(self, c):
        return [('all', h) for h in self.lists_touched()] + self.fmods(c)

    def lists_touched(self):
        return LHEAPS

    def fmods(self, c):
        return []


def x_payload_free(eng, st, args, n):
    """assumed: the payload free callback does not call back into the library"""
    f, p, ln, ud = args
    k = select(eng.hget(st, 'g:pf.n'), IV(0))
    for h, v in (('g:pf.ptr', p), ('g:pf.len', ln), ('g:pf.ud', ud)):
        st.H[h] = store(eng.hget(st, h), k, v)
        st.written.append((h, None))
    st.H['g:pf.n'] = store(eng.hget(st, 'g:pf.n'), IV(0), k + 1)
    st.written.append(('g:pf.n', None))
    return [(st, IV(0))]


def given(f):
    return TRUE if isinstance(f, FnPtr) else f != 0


class InitContext(PubSpec):
    key = 'pub_init_context'

    def pre(self, c):
        n, eng = z3.Int('n'), c.eng
        S, x = c.S0, c.a0
        return [('context given', c.a0 > 0)]

    def invs(self, c):
        return [LI(PP), LI(PS)]

    def axioms(self, c):
        return []

    def post(self, c):
        eng, S, x = c.eng, c.S1, c.a0
        return [('lists are empty', And(PP.val(S, q_(eng, x)) == 1, PP.val(S, f_(eng, x)) == 1, PS.val(S, sl_(eng, x)) == 1,
                                        PP.cnt(S, q_(eng, x)) == 0, PP.cnt(S, f_(eng, x)) == 0, PS.cnt(S, sl_(eng, x)) == 0)),
                ('[C04] first packet id is 1', S.f(np_, x) == 1)]

    check_frame = False

    def mods(self, c):
        eng, x = c.eng, c.a0
        return [('all', h) for h in LHEAPS + SHEAPS + [PP.G['val'], PS.G['val']]] + [('at', np_, x)]


def old_nodes(T, S0, S1, new=(), gone=(), why=None):
    """all nodes but the given ones keep list, position order, data and allocation"""
    n = z3.Int('n')
    ex = [n != k for k in tuple(new) + tuple(gone)]
    o0, o1 = T.own(S0, n), T.own(S1, n)
    return forall([n], Implies(And(*ex), And(o1 == o0, T.alive(S1, n) == T.alive(S0, n))), [o1, T.alive(S1, n)])


def same_order(T, S0, S1, L):
    """elements that stay in L keep their order"""
    n, n2 = z3.Ints('n n2')
    return forall([n, n2], Implies(And(T.own(S0, n) == L, T.own(S1, n) == L, T.own(S0, n2) == L, T.own(S1, n2) == L),
                                   (T.pos(S1, n) < T.pos(S1, n2)) == (T.pos(S0, n) < T.pos(S0, n2))),
                  [(T.pos(S1, n), T.pos(S1, n2))])


class QueueWithPid(PubSpec):
    """shared by the two queueing functions"""
    props = ('C04',)
    ack = True
    ghosts = ('g:lastq',)       # the packet queued last

    def ghost(self, c):
        c.S1.setat('g:lastq', IV(0), s_(c.S1.h(ND), c.vals['node']))

    def pid(self, c):
        return c.S0.f(np_, c.a0) if self.ack else IV(0)

    def pre(self, c):
        return super().pre(c) + [('payload given', c.a1 != 0)]

    def setup(self, c):
        pass

    def post(self, c):
        eng, S0, S1, x = c.eng, c.S0, c.S1, c.a0
        q = q_(eng, x)
        n, d = z3.Ints('n d')
        nn = c.vals['node']
        dd = s_(S1.h(ND), nn)
        out = [('[C04] returns the packet id', c.r == self.pid(c)),
               ('[C04] next packet id', S1.f(np_, x) == S0.f(np_, x) + (1 if self.ack else 0)),
               ('[C04,C18] one new packet is queued', And(PP.own(S0, nn) == 0, PP.own(S1, nn) == q, PP.alive(S0, nn) == 0, s_(S0.h(pal_), dd) == 0, dd > 0, nn > 0,
                                                     eng.tagof(dd) == 0, eng.tagof(nn) == 0, PP.cnt(S1, q) == PP.cnt(S0, q) + 1)),
               ('[C04,C05,C19,C22] the packet carries what was given', And(S1.f(pid_, dd) == self.pid(c), S1.f(pl_, dd) == c.a1, S1.f(ln_, dd) == c.a2, S1.f(ud_, dd) == c.a3,
                                                           S1.f(rc_, dd) == 0)),
               ('[C04] other nodes keep their list', old_nodes(PP, S0, S1, new=[nn])),
               ('[C04] queued packets keep their order', same_order(PP, S0, S1, q)),
               ('[C04] packets do not change', forall([d], Implies(d != dd, And(*[S1.f(h, d) == S0.f(h, d) for h in PKF + (pal_,)])), [S1.f(pal_, d), S1.f(pid_, d)])),
               ('packet is allocated', S1.f(pal_, dd) == 1),
               ('membership', S1.h(PP.G['memb']) == z3.Store(S0.h(PP.G['memb']), dd, z3.Store(s_(S0.h(PP.G['memb']), dd), q, nn))),
               ('data of other nodes', forall([n], Implies(n != nn, S1.f(ND, n) == S0.f(ND, n)), [S1.f(ND, n)]))]
        return out + frame_lists(PP, S0, S1, [q])

    def exit_setup(self, c):
        # witness: the new node is the parent node of the packet inserted last
        c.vals['node'] = None
        for n in self.new_nodes(c):
            c.vals['node'] = n

    def new_nodes(self, c):
        # found in the membership ghost: memb1 = Store(memb0, d, Store(.., q, node))
        t = c.S1.h(PP.G['memb'])
        from vcg import ALIAS
        u = ALIAS.get(t.get_id())
        t = u[1] if u else t
        if t.decl().kind() == z3.Z3_OP_STORE:
            v = t.children()[2]
            u = ALIAS.get(v.get_id())
            v = u[1] if u else v
            if v.decl().kind() == z3.Z3_OP_STORE:
                return [v.children()[2]]
        return [fresh('nonode')]

    def mods(self, c):
        m = [('all', h) for h in LHEAPS + [ND, pal_] + list(PKF)]
        if self.ack:
            m.append(('at', np_, c.a0))
        return m


class Queue(QueueWithPid):
    key = 'pub_queue_packet'


class QueueNoAck(QueueWithPid):
    key = 'pub_queue_no_acknowledge_packet'
    ack = False


def _qsetup(self, c):
    if not getattr(c, 'entry', False):
        c.vals['node'] = fresh('newnode')


QueueWithPid.setup = _qsetup



# ------------------------------------------------------------------ release of packets
def removed(T, S0, S1, R):
    """exactly the nodes R left their lists and are freed"""
    n = z3.Int('n')
    isr = Or(*[n == r for r in R]) if R else FALSE
    return forall([n], And(T.own(S1, n) == z3.If(isr, 0, T.own(S0, n)), T.alive(S1, n) == z3.If(isr, 0, T.alive(S0, n))),
                  [T.own(S1, n), T.alive(S1, n)])


def packets_same(S0, S1, but=None, heaps=PKF + (pal_,)):
    d = z3.Int('d')
    b = And(*[S1.f(h, d) == S0.f(h, d) for h in heaps])
    return forall([d], b if but is None else Implies(d != but, b), [S1.f(pal_, d), S1.f(rc_, d)])


def log_same_before(S0, S1):
    """entries of the free log made before stay"""
    k = z3.Int('k')
    n0 = S0.gi('g:pf.n')
    return forall([k], Implies(k < n0, And(*[s_(S1.h(h), k) == s_(S0.h(h), k) for h in PF[1:] + ('g:pf.d',)])), [s_(S1.h('g:pf.ptr'), k), s_(S1.h('g:pf.d'), k)])


def freed_entry(S0, S1, d, k):
    """entry k of the free log is the release of packet d"""
    return And(s_(S1.h('g:pf.ptr'), k) == S0.f(pl_, d), s_(S1.h('g:pf.len'), k) == S0.f(ln_, d), s_(S1.h('g:pf.ud'), k) == S0.f(ud_, d),
               s_(S1.h('g:pf.d'), k) == d, s_(S1.h('g:pf.at'), d) == k)


LOGH = PF + ('g:pf.d', 'g:pf.at')


class Discard(PubSpec):
    key = 'pub_packet_discard'
    props = ('C05',)
    ghosts = ('g:pf.d', 'g:pf.at')

    def x(self, c):
        f_(c.eng, z3.Int('z'))
        return z3.Function('inv.pub_context.inflight', I, I)(self.L(c))

    def L(self, c):
        return PP.own(c.S0, c.S0.f(par_, c.a0))

    def pre(self, c):
        S, d = c.S0, c.a0
        par = S.f(par_, d)
        return [('packet sent and awaited from nobody', And(d > 0, S.f(pal_, d) == 1, self.L(c) != 0, self.L(c) == f_(c.eng, self.x(c)), S.f(ND, par) == d,
                                                            S.f(rc_, d) == 0)),
                ('free function given', given(c.a1))]

    def ghost(self, c):
        k = c.S0.gi('g:pf.n')
        c.S1.setat('g:pf.d', k, c.a0)
        c.S1.setat('g:pf.at', c.a0, k)

    def post(self, c):
        S0, S1, d = c.S0, c.S1, c.a0
        L = self.L(c)
        par = S0.f(par_, d)
        k = S0.gi('g:pf.n')
        m0 = S0.h(PP.G['memb'])
        return [('[C05,C20] payload handed to the free function exactly once, with its length', And(S1.gi('g:pf.n') == k + 1, freed_entry(S0, S1, d, k), log_same_before(S0, S1))),
                ('node removed', removed(PP, S0, S1, [par])),
                ('packet freed', S1.f(pal_, d) == 0),
                ('one packet less', PP.cnt(S1, L) == PP.cnt(S0, L) - 1),
                ('other packets', packets_same(S0, S1, d, (pal_,))),
                ('order', same_order(PP, S0, S1, L)),
                ('membership', S1.h(PP.G['memb']) == z3.Store(m0, d, z3.Store(s_(m0, d), L, 0)))] + frame_lists(PP, S0, S1, [L])

    def mods(self, c):
        k = c.S0.gi('g:pf.n')
        return [('all', h) for h in LHEAPS] + [('at', pal_, c.a0), ('at', 'g:pf.n', IV(0))] + [('at', h, k) for h in PF[1:]]


class Ack(PubSpec):
    key = 'pub_packet_ack'
    props = ('C05',)
    sub = True
    verify_cases = True

    def cases(self, c):
        return ['unknown', 'awaited from others', 'last']

    def pre(self, c):
        return super().pre(c) + [('free function given', given(c.a[2]))]

    def hit(self, c, n):
        S = c.S0
        return And(PP.own(S, n) == infl(c.eng, c.a0), S.f(pid_, S.f(ND, n)) == c.a1)

    def case_facts(self, c):
        n = z3.Int('n')
        if c.case == 'unknown':
            return [forall([n], Not(self.hit(c, n)), [PP.own(c.S0, n)])]
        w = c.vals['w'] = z3.Const('acked', I) if not hasattr(c, 'tok') else c.tok
        if not getattr(c, 'entry_const', False):
            w = c.vals['w'] = fresh('acked')
        rc = c.S0.f(rc_, c.S0.f(ND, w))
        n2 = z3.Int('n2')
        return [self.hit(c, w), rc == 1 if c.case == 'last' else rc != 1,
                forall([n2], Implies(self.hit(c, n2), n2 == w), [PP.own(c.S0, n2)])]

    def exhaustive(self, c):
        n, n2 = z3.Ints('n n2')
        h = lambda n: self.hit(c, n)
        rc = lambda n: c.S0.f(rc_, c.S0.f(ND, n))
        w = z3.Const('acked.w', I)
        # w: some packet with that id, if there is one
        return Implies(Implies(z3.Exists([n], h(n)), h(w)), And(Implies(h(w), forall([n2], Implies(h(n2), n2 == w), [PP.own(c.S0, n2)])), Or(h(w), forall([n], Not(h(n)), [PP.own(c.S0, n)]))))

    def post(self, c):
        S0, S1, eng = c.S0, c.S1, c.eng
        if c.case == 'unknown':
            return []
        x = self.x(c)
        w = c.vals['w']
        d = S0.f(ND, w)
        L, f = infl(eng, c.a0), f_(eng, x)
        m0 = S0.h(PP.G['memb'])
        n = z3.Int('n')
        md = z3.Store(s_(m0, d), L, 0)
        k = S0.gi('g:pf.n')
        last = c.case == 'last'
        R = [w] + ([S0.f(par_, d)] if last else [])
        if last:
            md = z3.Store(md, f, 0)
        out = [('[C05,C06,C18,C20,C23,C24] exactly this packet is no longer awaited from the subscriber', removed(PP, S0, S1, R)),
               ('[C05,C23] one awaited packet less', PP.cnt(S1, L) == PP.cnt(S0, L) - 1),
               ('[C05,C06,C20,C24] others await what they did', S1.h(PP.G['memb']) == z3.Store(m0, d, md)),
               ('[C05] order', And(same_order(PP, S0, S1, L), same_order(PP, S0, S1, f))),
               ('[C06] those sent later stay where they are', And(forall([n], Implies(And(n >= 0, n < PP.pos(S0, w)), PP.sq(S1, L, n) == PP.sq(S0, L, n)), [PP.sq(S1, L, n)]),
                                                                  forall([n], Implies(And(PP.own(S0, n) == L, PP.pos(S0, n) < PP.pos(S0, w)), PP.pos(S1, n) == PP.pos(S0, n)), [PP.pos(S1, n)])))]
        if last:
            out += [('[C05,C20] the last acknowledgement releases the packet: payload freed exactly once', And(S1.gi('g:pf.n') == k + 1, freed_entry(S0, S1, d, k), log_same_before(S0, S1))),
                    ('[C05,C20] packet released', S1.f(pal_, d) == 0), ('[C05,C18] one packet less in flight', PP.cnt(S1, f) == PP.cnt(S0, f) - 1)]
        else:
            out += [('[C05] one subscriber less to acknowledge', S1.f(rc_, d) == S0.f(rc_, d) - 1),
                    ('[C05,C18] stays in flight', PP.cnt(S1, f) == PP.cnt(S0, f))]
        return out + frame_lists(PP, S0, S1, [L] + ([f] if last else []))

    def mods(self, c):
        if c.case == 'unknown':
            return []
        d = c.S0.f(ND, c.vals['w'])
        m = [('all', h) for h in LHEAPS] + [('at', rc_, d)]
        if c.case == 'last':
            k = c.S0.gi('g:pf.n')
            m += [('at', pal_, d), ('at', 'g:pf.d', k), ('at', 'g:pf.at', d)] + [('at', h, k) for h in PF[1:]] + [('at', 'g:pf.n', IV(0))]
        return m

    def loop_lists(self, c):
        return [(PP, infl(c.eng, c.a0))]

    def visited(self, c, T, L):
        if T is not PP:
            return []
        return [('has another packet id', lambda S, e, i: S.f(pid_, S.f(ND, e)) != c.a1)]


class InitSubscriber(PubSpec):
    key = 'pub_init_subscriber'
    props = ('C05', 'C20')

    def x(self, c):
        return c.a1

    def pre(self, c):
        S, n, x = c.S0, z3.Int('n'), z3.Int('x')
        sl = sl_(c.eng, x)
        return [('subscriber is new', And(c.a0 > 0, c.a1 > 0,
                                          forall([x], PS.memb(S, c.a0, sl) == 0, [sl])))]

    def post(self, c):
        eng, S0, S1, s, x = c.eng, c.S0, c.S1, c.a0, c.a1
        sl = sl_(eng, x)
        L = infl(eng, s)
        d, n, l = z3.Ints('d n l')
        nn = PS.sq(S1, sl, PS.cnt(S0, sl))
        m1, m0 = S1.h(PP.G['memb']), S0.h(PP.G['memb'])
        return [('[C05,C20] subscriber is added', And(member(S1, x, s) != 0, PS.cnt(S1, sl) == PS.cnt(S0, sl) + 1, S1.f(SD, nn) == s, PS.own(S1, nn) == sl,
                                                      S1.f(ctx_, s) == x, PS.own(S0, nn) == 0)),
                ('[C20] it knows its connection', S1.f('pub_subscriber.user_data', s) == c.a2),
                ('nothing is awaited from it', And(PP.val(S1, L) == 1, PP.cnt(S1, L) == 0,
                                                   forall([d], s_(m1, d) == z3.Store(s_(m0, d), L, 0), [s_(m1, d)]))),
                ('[C05,C20] other subscribers stay', And(forall([n], Implies(n != nn, And(PS.own(S1, n) == PS.own(S0, n), PS.alive(S1, n) == PS.alive(S0, n), S1.f(SD, n) == S0.f(SD, n))), [PS.own(S1, n)]),
                                                         S1.h(PS.G['memb']) == z3.Store(S0.h(PS.G['memb']), s, z3.Store(s_(S0.h(PS.G['memb']), s), sl, nn)))),
                ('packet nodes stay', forall([n], And(Implies(PP.own(S0, n) != L, And(PP.own(S1, n) == PP.own(S0, n), PP.pos(S1, n) == PP.pos(S0, n))),
                                                      Implies(PP.own(S0, n) == L, PP.own(S1, n) == 0)), [PP.own(S1, n)])),
                ('lists stay', forall([l], Implies(l != L, And(PP.Sq(S1, l) == PP.Sq(S0, l), PP.cnt(S1, l) == PP.cnt(S0, l), PP.val(S1, l) == PP.val(S0, l))), [PP.val(S1, l)])),
                ] + frame_lists(PS, S0, S1, [sl])

    def mods(self, c):
        L = infl(c.eng, c.a0)
        return [('all', h) for h in SHEAPS + [SD] + [PP.G[k] for k in ('own', 'pos', 'sq', 'memb', 'val')]] + \
            [('at', PP.lt + '.' + f, L) for f in ('head', 'tail', 'elem_count', 'user_data', 'alloc_node', 'free_node')] + \
            [('at', ctx_, c.a0), ('at', 'pub_subscriber.user_data', c.a0)]


class Reset(PubSpec):
    key = 'pub_reset_subscriber'
    props = ('C05', 'C20')
    sub = True
    ghosts = ()

    def pre(self, c):
        return super().pre(c) + [('free function given', given(c.a1))]

    def loop_lists(self, c):
        return [(PP, infl(c.eng, c.a0)), (PS, sl_(c.eng, self.x(c)))]

    def visited(self, c, T, L):
        if T is not PS:
            return []
        return [('is another subscriber', lambda S, e, i: S.f(SD, e) != c.a0)]

    def released(self, c, S, d):
        """was awaited from this subscriber only and is not awaited any more"""
        S0, eng = c.S0, c.eng
        L = infl(eng, c.a0)
        return And(PP.memb(S0, d, L) != 0, S0.f(rc_, d) == 1, PP.memb(S, d, L) == 0)

    def rel(self, c, S, local=None):
        """what every stage of the release preserves, relative to the state at entry (local: the local lists, if there may be any)"""
        S0, eng = c.S0, c.eng
        x = self.x(c)
        L, f = infl(eng, c.a0), f_(eng, x)
        d, l, n, k = z3.Ints('d l n k')
        n0, n1 = S0.gi('g:pf.n'), S.gi('g:pf.n')
        rel = self.released(c, S, d)
        m0, m1 = PP.memb(S0, d, L), PP.memb(S, d, L)
        out = [('[C05,C06,C20] others await what they did', forall([d, l], Implies(And(l != L, l != f, *([l > 0] if local is not None else [])), PP.memb(S, d, l) == PP.memb(S0, d, l)), [PP.memb(S, d, l)])),
               ('only awaited packets are dropped', forall([d], Or(m1 == m0, m1 == 0), [m1])),
               ('[C05,C20] packets awaited from nobody else leave, all others stay', forall([d], And(PP.memb(S, d, f) == z3.If(rel, 0, PP.memb(S0, d, f)),
                                                     S.f(pal_, d) == z3.If(rel, 0, S0.f(pal_, d))), [PP.memb(S, d, f), S.f(pal_, d)])),
               ('[C05,C20] outstanding acknowledgements', forall([d], Implies(Not(rel), S.f(rc_, d) == S0.f(rc_, d) - z3.If(And(m0 != 0, m1 == 0), 1, 0)), [S.f(rc_, d)])),
               ('[C05,C20] every released packet is handed to the free function',
                forall([d], Implies(rel, And(s_(S.h('g:pf.at'), d) >= n0, s_(S.h('g:pf.at'), d) < n1, freed_entry(S0, S, d, s_(S.h('g:pf.at'), d)))), [S.f(pal_, d), s_(S.h('g:pf.at'), d)])),
               ('[C05,C20] and only once', And(n1 >= n0, forall([k], Implies(And(k >= n0, k < n1), And(self.released(c, S, s_(S.h('g:pf.d'), k)), s_(S.h('g:pf.at'), s_(S.h('g:pf.d'), k)) == k)), [s_(S.h('g:pf.d'), k)]))),
               ('free log', log_same_before(S0, S)),
               ('nodes', forall([n], Or(And(PP.own(S, n) == PP.own(S0, n), PP.alive(S, n) == PP.alive(S0, n)),
                                       And(Or(PP.own(S0, n) == L, PP.own(S0, n) == f), PP.own(S, n) == 0, PP.alive(S, n) == 0),
                                       *[And(PP.own(S0, n) == 0, PP.own(S, n) == a, PP.alive(S0, n) == 0) for a in local or ()]), [PP.own(S, n), PP.alive(S, n)])),
               ('nodes of dropped packets', forall([n], Implies(PP.own(S0, n) == f, (PP.own(S, n) == 0) == self.released(c, S, S0.f(ND, n))), [PP.own(S, n)])),
               ('not more in flight', PP.cnt(S, f) <= PP.cnt(S0, f)),
               ('order of the awaited', same_order(PP, S0, S, L)), ('order', same_order(PP, S0, S, f))]
        return out + frame_lists(PP, S0, S, [L, f], local is not None)

    def extra_candidates(self, eng, c, st, E, modenv, wset, vars_):
        n = len(self.rel(c, E))
        return [(self.rel(c, E)[i][0], (lambda i: lambda S, env: self.rel(c, S)[i][1])(i)) for i in range(n)]

    def post(self, c):
        S0, S1, eng, s = c.S0, c.S1, c.eng, c.a0
        x = self.x(c)
        sl, L = sl_(eng, x), infl(eng, s)
        d = z3.Int('d')
        nn = member(S0, x, s)
        return [('[C05,C20] the subscriber is gone', And(member(S1, x, s) == 0, PS.cnt(S1, sl) == PS.cnt(S0, sl) - 1, removed(PS, S0, S1, [nn]))),
                ('[C05,C20] nothing is awaited from it', And(PP.cnt(S1, L) == 0, forall([d], PP.memb(S1, d, L) == 0, [PP.memb(S1, d, L)]))),
                ('other subscribers', And(same_order(PS, S0, S1, sl),
                                          S1.h(PS.G['memb']) == z3.Store(S0.h(PS.G['memb']), s, z3.Store(s_(S0.h(PS.G['memb']), s), sl, 0))))] + \
            self.rel(c, S1) + frame_lists(PS, S0, S1, [sl])

    def mods(self, c):
        return [('all', h) for h in LHEAPS + SHEAPS + [pal_, rc_] + list(LOGH)]


class Sent(PubSpec):
    key = 'pub_packet_sent'
    props = ('C04', 'C05', 'C06', 'C07')
    verify_cases = True

    def cases(self, c):
        return ['acknowledged', 'not acknowledged']

    def case_facts(self, c):
        p = c.S0.f(pid_, c.a1)
        return [p == 0 if c.case == 'not acknowledged' else p != 0]

    def loop_lists(self, c):
        return [(PS, sl_(c.eng, c.a0))]

    def pre(self, c):
        S, eng, x, d = c.S0, c.eng, c.a0, c.a1
        q, f = q_(eng, x), f_(eng, x)
        par = S.f(par_, d)
        n = z3.Int('n')
        return super().pre(c) + [
            ('packet is the next one queued', And(d > 0, PP.own(S, par) == q, S.f(ND, par) == d, PP.pos(S, par) == PP.cnt(S, q) - 1)),
            ('clock does not go back', And(c.a2 >= 0, c.a2 < TMAX, forall([n], Implies(PP.own(S, n) == f, S.f(ts_, S.f(ND, n)) <= c.a2), [PP.own(S, n)])))]

    def post(self, c):
        S0, S1, eng, x, dd = c.S0, c.S1, c.eng, c.a0, c.a1
        q, f = q_(eng, x), f_(eng, x)
        d, n, l = z3.Ints('d n l')
        par = S0.f(par_, dd)
        out = [('[C04,C05] leaves the queue', And(PP.cnt(S1, q) == PP.cnt(S0, q) - 1, same_order(PP, S0, S1, q), PP.own(S1, par) == (f if c.case == 'acknowledged' else 0))),
               ('[C04] the rest of the queue stays', forall([n], Implies(And(n >= 0, n < PP.cnt(S1, q)), PP.sq(S1, q, n) == PP.sq(S0, q, n)), [PP.sq(S1, q, n)])),
               ('[C04,C05] other packets do not change', forall([d], Implies(d != dd, And(*[S1.f(h, d) == S0.f(h, d) for h in PKF + (pal_,)])), [S1.f(pal_, d), S1.f(rc_, d)])),
               ('[C05] others are awaited as before', forall([d], Implies(d != dd, s_(S1.h(PP.G['memb']), d) == s_(S0.h(PP.G['memb']), d)), [s_(S1.h(PP.G['memb']), d)])),
               ('[C04] no other node leaves or changes its list', forall([n], Implies(And(PP.own(S0, n) != 0, n != par), And(PP.own(S1, n) == PP.own(S0, n), S1.f(ND, n) == S0.f(ND, n))), [PP.own(S1, n)]))]
        if c.case == 'acknowledged':
            out += [('new nodes', forall([n], Implies(PP.own(S0, n) == 0, Or(PP.own(S1, n) == 0, is_infl(eng, PP.own(S1, n)))), [PP.own(S1, n)]))]
            out += [('[C05,C06,C07] is in flight, sent at the given time', And(S1.f(ts_, dd) == c.a2, S1.f(ND, par) == dd, S1.f(pal_, dd) == 1,
                                                                   *[S1.f(h, dd) == S0.f(h, dd) for h in (pid_, par_, pl_, ln_, ud_)])),
                    ('[C05,C18] one more in flight', And(PP.cnt(S1, f) == PP.cnt(S0, f) + 1, same_order(PP, S0, S1, f))),
                    ('[C05,C06,C20] awaited from every subscriber', forall([n], Implies(PS.own(S1, n) == sl_(eng, x), awaits(S1, dd, S1.f(SD, n))), [PS.own(S1, n)])),
                    ('queue membership', PP.memb(S1, dd, q) == 0)]
        else:
            out += [('[C04,C05] is released without handing out its payload', And(S1.f(pal_, dd) == 0, S1.gi('g:pf.n') == S0.gi('g:pf.n'))),
                    ('nodes', removed(PP, S0, S1, [par])),
                    ('membership', S1.h(PP.G['memb']) == z3.Store(S0.h(PP.G['memb']), dd, z3.Store(s_(S0.h(PP.G['memb']), dd), q, 0)))]
            out += frame_lists(PP, S0, S1, [q])
            return out
        tl = lambda L: is_infl(eng, L)
        out += [('other lists', forall([l], Implies(And(l != q, l != f, Not(And(tl(l), member(S0, x, inv_infl(eng, l)) != 0))), And(PP.Sq(S1, l) == PP.Sq(S0, l), PP.cnt(S1, l) == PP.cnt(S0, l))), [PP.cnt(S1, l), PP.val(S1, l)]))]
        return out

    def mods(self, c):
        if c.case == 'acknowledged':
            return [('all', h) for h in LHEAPS + [ND]] + [('at', rc_, c.a1), ('at', ts_, c.a1)]
        return [('all', h) for h in LHEAPS] + [('at', pal_, c.a1), ('at', ts_, c.a1)]

    def extra_candidates(self, eng, c, st, E, modenv, wset, vars_):
        x, dd = c.a0, c.a1
        sl = sl_(eng, x)
        d, l, n = z3.Ints('d l n')
        from lists import node_vars
        out = []
        for k, T, v in node_vars(vars_):
            if k not in modenv or T is not PS:
                continue

            ub = lambda S, env, k=k: z3.If(term(env[k]) == 0, PS.cnt(S, sl), PS.pos(S, term(env[k])))
            out.append(('awaited from the subscribers passed', lambda S, env, ub=ub: forall([n], Implies(And(PS.own(S, n) == sl, PS.pos(S, n) < ub(S, env)), awaits(S, dd, S.f(SD, n))), [PS.own(S, n)])))
            out.append(('not awaited from the others yet', lambda S, env, ub=ub: forall([n], Implies(And(PS.own(S, n) == sl, PS.pos(S, n) >= ub(S, env)), Not(awaits(S, dd, S.f(SD, n)))), [PS.own(S, n)])))
        out += [('others are awaited as before', lambda S, env: forall([d], Implies(d != dd, s_(S.h(PP.G['memb']), d) == s_(E.h(PP.G['memb']), d)), [s_(S.h(PP.G['memb']), d)])),
                ('membership in other lists', lambda S, env: forall([l], Implies(Not(is_infl(eng, l)), PP.memb(S, dd, l) == PP.memb(E, dd, l)), [PP.memb(S, dd, l)])),
                ('linked nodes stay', lambda S, env: forall([n], Implies(PP.own(E, n) != 0, And(PP.own(S, n) == PP.own(E, n), S.f(ND, n) == E.f(ND, n), PP.alive(S, n) == PP.alive(E, n))), [PP.own(S, n), PP.alive(S, n)])),
                ('new nodes', lambda S, env: forall([n], Implies(And(PP.own(E, n) == 0, PP.own(S, n) != 0), And(is_infl(eng, PP.own(S, n)), S.f(ND, n) == dd)), [PP.own(S, n)])),
                ('other lists', lambda S, env: forall([l], Implies(Not(And(is_infl(eng, l), member(E, x, inv_infl(eng, l)) != 0)), And(PP.Sq(S, l) == PP.Sq(E, l), PP.cnt(S, l) == PP.cnt(E, l))), [PP.cnt(S, l), PP.val(S, l)])),
                ('lists stay valid', lambda S, env: forall([l], PP.val(S, l) == PP.val(E, l), [PP.val(S, l)])),
                ('others counts', lambda S, env: forall([d], Implies(d != dd, S.f(rc_, d) == E.f(rc_, d)), [S.f(rc_, d)])),
                ('positions in the lists of the context', lambda S, env: forall([n], Implies(And(PP.own(E, n) != 0, Not(is_infl(eng, PP.own(E, n)))), PP.pos(S, n) == PP.pos(E, n)), [PP.pos(S, n)]))]
        return out


def overdue(c, S, d, now, to):
    return S.f(ts_, d) + to <= now


def result_ok(c, T, S, L, eng):
    tags = [('pub_context', 'queued'), ('pub_context', 'inflight'), ('pub_context', 'subscribers'), ('pub_subscriber', 'inflight')]
    return And(L != 0, T.val(S, L) == 1, T.cnt(S, L) == 0, *[eng.tagof(L) != eng.tagid('%s.%s' % t) for t in tags])


class ReadOnlyResult(PubSpec):
    def time_pre(self, c):
        return [('times are sane', And(c.a1 >= 0, c.a1 < TMAX, c.a2 >= 0, c.a2 < TMAX))]


class TimedOutPackets(ReadOnlyResult):
    key = 'pub_get_timed_out_packets'
    props = ('C06',)
    sub = True

    def pre(self, c):
        return super().pre(c) + self.time_pre(c) + [('empty result list', result_ok(c, PP, c.S0, c.a3, c.eng))]

    def loop_lists(self, c):
        return [(PP, infl(c.eng, c.a0))]

    def collected(self, c, S, k):
        """the result holds the k oldest packets, oldest first, and all are overdue"""
        eng, R = c.eng, c.a3
        L = infl(eng, c.a0)
        i = z3.Int('i')
        e = PP.sq(S, R, i)
        cn = PP.cnt(S, L)
        return And(PP.cnt(S, R) == k, k >= 0, k <= cn,
                   forall([i], Implies(And(i >= 0, i < k), And(S.f(ND, e) == S.f(ND, PP.sq(S, L, cn - 1 - i)), overdue(c, S, S.f(ND, e), c.a1, c.a2))), [e]))

    def untouched(self, c, S):
        S0, R = c.S0, c.a3
        n, d = z3.Ints('n d')
        return [('nodes of other lists', forall([n], Implies(And(PP.own(S0, n) != 0), And(PP.own(S, n) == PP.own(S0, n), PP.pos(S, n) == PP.pos(S0, n), S.f(ND, n) == S0.f(ND, n))), [PP.own(S, n), S.f(ND, n)])),
                ('new nodes are in the result', forall([n], Implies(And(PP.own(S0, n) == 0, PP.own(S, n) != 0), And(PP.own(S, n) == R, PP.alive(S0, n) == 0)), [PP.own(S, n)])),
                ('nothing is freed', forall([n], Implies(Or(PP.alive(S0, n) != 0, PP.own(S, n) == 0), PP.alive(S, n) == PP.alive(S0, n)), [PP.alive(S, n)])),
                ('memberships in other lists', forall([d, n], Implies(n != R, PP.memb(S, d, n) == PP.memb(S0, d, n)), [PP.memb(S, d, n)])),
                ('cardinalities', forall([d], And(CARD(s_(S.h(PP.G['memb']), d)) == CARD(s_(S0.h(PP.G['memb']), d)), FIN(s_(S.h(PP.G['memb']), d)) == FIN(s_(S0.h(PP.G['memb']), d))), [s_(S.h(PP.G['memb']), d)])),
                ('valid', forall([n], PP.val(S, n) == PP.val(S0, n), [PP.val(S, n)]))] + frame_lists(PP, S0, S, [R])

    def extra_candidates(self, eng, c, st, E, modenv, wset, vars_):
        from lists import node_vars
        out = []
        L, R = infl(eng, c.a0), c.a3
        for k, T, v in node_vars(vars_):
            if k in modenv and T is PP:
                out.append(('oldest ones collected', lambda S, env, k=k: self.collected(c, S, z3.If(term(env[k]) == 0, PP.cnt(S, L), PP.cnt(S, L) - 1 - PP.pos(S, term(env[k]))))))
                n = z3.Int('n')
                out.append(('result holds only these', lambda S, env, k=k: forall([n], Implies(And(PP.own(S, n) == L, term(env[k]) != 0, PP.pos(S, n) <= PP.pos(S, term(env[k]))),
                                                                                              PP.memb(S, S.f(ND, n), R) == 0), [PP.own(S, n)])))
        m = len(self.untouched(c, E))
        return out + [(self.untouched(c, E)[i][0], (lambda i: lambda S, env: self.untouched(c, S)[i][1])(i)) for i in range(m)]

    def post(self, c):
        S0, S1, eng, R = c.S0, c.S1, c.eng, c.a3
        L = infl(eng, c.a0)
        n = z3.Int('n')
        k = PP.cnt(S1, R)
        return [('[C06] the result holds overdue packets only, oldest first', self.collected(c, S1, k)),
                ('[C06] every overdue packet is in the result', forall([n], Implies(PP.own(S1, n) == L, overdue(c, S1, S1.f(ND, n), c.a1, c.a2) == (PP.pos(S1, n) >= PP.cnt(S1, L) - k)), [PP.own(S1, n)]))] + self.untouched(c, S1)

    def mods(self, c):
        return [('all', h) for h in LHEAPS + [ND]]


class TimedOutSubscribers(ReadOnlyResult):
    key = 'pub_get_timed_out_subscribers'
    props = ('C06',)

    def pre(self, c):
        return super().pre(c) + self.time_pre(c) + [('empty result list', result_ok(c, PS, c.S0, c.a3, c.eng))]

    def loop_lists(self, c):
        return [(PS, sl_(c.eng, c.a0))]

    def late(self, c, S, s):
        """some packet awaited from subscriber s is overdue"""
        L = infl(c.eng, s)
        return And(PP.cnt(S, L) > 0, overdue(c, S, S.f(ND, PP.sq(S, L, PP.cnt(S, L) - 1)), c.a1, c.a2))

    def done(self, c, S, ub):
        eng, R = c.eng, c.a3
        n = z3.Int('n')
        sl = sl_(eng, c.a0)
        return And(forall([n], Implies(And(PS.own(S, n) == sl), (PS.memb(S, S.f(SD, n), R) != 0) == And(PS.pos(S, n) < ub, self.late(c, S, S.f(SD, n)))), [PS.own(S, n)]),
                   forall([n], Implies(PS.own(S, n) == R, member(S, c.a0, S.f(SD, n)) != 0), [PS.own(S, n)]))

    def untouched(self, c, S):
        S0, R = c.S0, c.a3
        n, d = z3.Ints('n d')
        return [('nodes of other lists', forall([n], Implies(And(PS.own(S0, n) != 0), And(PS.own(S, n) == PS.own(S0, n), PS.pos(S, n) == PS.pos(S0, n), S.f(SD, n) == S0.f(SD, n))), [PS.own(S, n), S.f(SD, n)])),
                ('new nodes are in the result', forall([n], Implies(And(PS.own(S0, n) == 0, PS.own(S, n) != 0), PS.own(S, n) == R), [PS.own(S, n)])),
                ('memberships in other lists', forall([d, n], Implies(n != R, PS.memb(S, d, n) == PS.memb(S0, d, n)), [PS.memb(S, d, n)])),
                ('valid', forall([n], PS.val(S, n) == PS.val(S0, n), [PS.val(S, n)]))] + frame_lists(PS, S0, S, [R])

    def extra_candidates(self, eng, c, st, E, modenv, wset, vars_):
        from lists import node_vars
        out = []
        sl = sl_(eng, c.a0)
        for k, T, v in node_vars(vars_):
            if k in modenv and T is PS:
                out.append(('late ones collected', lambda S, env, k=k: self.done(c, S, z3.If(term(env[k]) == 0, PS.cnt(S, sl), PS.pos(S, term(env[k]))))))
        m = len(self.untouched(c, E))
        return out + [(self.untouched(c, E)[i][0], (lambda i: lambda S, env: self.untouched(c, S)[i][1])(i)) for i in range(m)]

    def post(self, c):
        return [('[C06] the result holds exactly the subscribers with overdue packets', self.done(c, c.S1, PS.cnt(c.S1, sl_(c.eng, c.a0))))] + self.untouched(c, c.S1)

    def mods(self, c):
        return [('all', h) for h in SHEAPS + [SD]]


class Oldest(PubSpec):
    key = 'pub_get_oldest_unackowledged_packet'
    props = ('C07',)

    def pre(self, c):
        return super().pre(c) + [('result given', TRUE if isinstance(c.a1, Ref) else c.a1 != 0)]

    def loop_lists(self, c):
        return [(PS, sl_(c.eng, c.a0))]

    def best(self, c, S, v, ub):
        eng, x = c.eng, c.a0
        sl = sl_(eng, x)
        n, m = z3.Ints('n m')
        L = infl(eng, S.f(SD, m))
        return [('[C07] not later than any awaited packet', forall([m, n], Implies(And(PS.own(S, m) == sl, PS.pos(S, m) < ub, PP.own(S, n) == L), And(v != -1, v <= S.f(ts_, S.f(ND, n)))), [(PS.own(S, m), PP.own(S, n))])),
                ('[C07] the time an awaited packet was sent, or -1', Or(v == -1, And(v >= 0, z3.Exists([m, n], And(PS.own(S, m) == sl, PP.own(S, n) == L, v == S.f(ts_, S.f(ND, n))), patterns=[z3.MultiPattern(PS.own(S, m), PP.own(S, n))]))))]

    def extra_candidates(self, eng, c, st, E, modenv, wset, vars_):
        from lists import node_vars
        out = []
        sl = sl_(eng, c.a0)
        for k, T, v in node_vars(vars_):
            if k not in modenv or T is not PS:
                continue
            for k2, t, v2 in vars_:
                if k2 in modenv and t[0] == 'int':
                    ub = lambda S, env, k=k: z3.If(term(env[k]) == 0, PS.cnt(S, sl), PS.pos(S, term(env[k])))
                    m = z3.Int('m')

                    def tails(S, env, ub=ub, k2=k2):
                        L = infl(eng, S.f(SD, m))
                        v = term(env[k2])
                        return forall([m], Implies(And(PS.own(S, m) == sl, PS.pos(S, m) < ub(S, env), PP.cnt(S, L) > 0),
                                                   And(v != -1, v <= S.f(ts_, S.f(ND, PP.sq(S, L, PP.cnt(S, L) - 1))))), [PS.own(S, m)])
                    out.append(('not later than the oldest packets passed', tails))
                    for i in range(1, 2):
                        out.append(('oldest so far', lambda S, env, k=k, k2=k2, i=i: self.best(c, S, term(env[k2]), z3.If(term(env[k]) == 0, PS.cnt(S, sl), PS.pos(S, term(env[k]))))[i][1]))
        return out

    def post(self, c):
        v = self.out(c, c.S1)
        return [('[C07] succeeds', c.r == 1)] + self.best(c, c.S1, v, PS.cnt(c.S1, sl_(c.eng, c.a0)))

    def out(self, c, S):
        return c.eng.load(c.st, c.a1.lv) if isinstance(c.a1, Ref) else S.f('cell.64', c.a1)

    def mods(self, c):
        return [('at', 'cell.64', c.a1)]


EXT = {'*pub_payload_free': x_payload_free}
SPECS = [InitContext, Queue, QueueNoAck, Discard, Ack, InitSubscriber, Reset, Sent, TimedOutPackets, TimedOutSubscribers, Oldest]
SPECS = [c() for c in SPECS]
