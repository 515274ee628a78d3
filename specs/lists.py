"""Contracts of rmc_list_template.h (one instance of every contract per RMC_LIST_IMPL).

Ghost state per node type:
   val[L]    1 if L is an initialised list
   own[n]    the list a node is linked into, 0 if none
   pos[n]    its position there
   Sq[L]     the sequence of nodes of list L (cnt[L] = elem_count of them)
The invariant LI ties the pointers of the real lists to these sequences.
"""
import z3
from vcg import *


class LT:
    def __init__(self, prefix, nodetag, listtag, file):
        self.p, self.nt, self.lt, self.file = prefix, nodetag, listtag, file
        # memb[d][L]: the node last linked into L that carries the scalar data d (0 if removed)
        self.scalar = prefix != 'sub_pid_interval_list'
        self.G = {'own': 'g:own.' + nodetag, 'pos': 'g:pos.' + nodetag, 'val': 'g:val.' + nodetag,
                  'sq': 'gS:' + nodetag, 'alive': 'g:alive.' + nodetag}
        if self.scalar:
            self.G['memb'] = 'gS:memb.' + nodetag

    # ---- ghost / field access
    def own(self, S, n): return S.f(self.G['own'], n)
    def pos(self, S, n): return S.f(self.G['pos'], n)
    def val(self, S, L): return S.f(self.G['val'], L)
    def alive(self, S, n): return S.f(self.G['alive'], n)
    def Sq(self, S, L): return z3.Select(S.h(self.G['sq']), term(L))
    def sq(self, S, L, i): return z3.Select(self.Sq(S, L), term(i))
    def cnt(self, S, L): return S.f(self.lt + '.elem_count', L)
    def head(self, S, L): return S.f(self.lt + '.head', L)
    def tail(self, S, L): return S.f(self.lt + '.tail', L)
    def next(self, S, n): return S.f(self.nt + '.next', n)
    def prev(self, S, n): return S.f(self.nt + '.prev', n)
    def owner(self, S, n): return S.f(self.nt + '.owner', n)

    def datfields(self, eng):
        t = eng.P.fieldty(self.nt, 'data')
        if t[0] == 'struct':
            return t[1], [(f, ft) for f, ft in eng.P.fields(t[1])]
        return None, [('', t)]

    def data(self, S, n):
        """tuple of terms: the data of node n"""
        tag, fs = self.datfields(S.eng)
        if tag is None:
            return (S.f(self.nt + '.data', n),)
        a = S.eng.embed(self.nt, 'data', n)
        return tuple(S.f('%s.%s' % (tag, f), a) for f, _ in fs)

    def dataheaps(self, eng):
        tag, fs = self.datfields(eng)
        if tag is None:
            return [(self.nt + '.data', lambda n: n)]
        return [('%s.%s' % (tag, f), (lambda n: eng.embed(self.nt, 'data', n))) for f, _ in fs]

    def val_of(self, eng, v):
        """data tuple of a value of the data type"""
        tag, fs = self.datfields(eng)
        if tag is None:
            return (v,)
        return tuple(v.f[f] for f, _ in fs)

    def memb(self, S, d, L): return z3.Select(z3.Select(S.h(self.G['memb']), term(d)), term(L))

    def dat(self, S, L, i):
        return self.data(S, self.sq(S, L, i))


TYPES = {}
for _p, _n, _f in (('pub_packet_list', '_pub_packet_node', 'pub.c'), ('pub_sub_list', '_pub_sub_node', 'pub.c'),
                   ('packet_id_list', '_packet_id_node', 'rmc_protocol.c'),
                   ('rmc_index_list', '_rmc_index_node', 'rmc_sub_context.c'),
                   ('sub_packet_list', '_sub_packet_node', 'sub.c'),
                   ('sub_pid_interval_list', '_sub_pid_interval_node', 'sub.c')):
    TYPES[_p] = LT(_p, _n, '_' + _p, _f)
PP, PS, SPK, SPI, RIX, PID = (TYPES[x] for x in ('pub_packet_list', 'pub_sub_list', 'sub_packet_list', 'sub_pid_interval_list',
                                             'rmc_index_list', 'packet_id_list'))
BYNODE = {t.nt: t for t in TYPES.values()}
BYLIST = {t.lt: t for t in TYPES.values()}
NODETAGS = set(BYNODE)


class LI:
    """the list invariant for one node type"""

    def __init__(self, T):
        self.T = T

    def conj(self, S):
        T = self.T
        n, L, i = z3.Ints('n L i')
        own, pos, val, Sq = S.h(T.G['own']), S.h(T.G['pos']), S.h(T.G['val']), S.h(T.G['sq'])
        cnt, head, tail = S.h(T.lt + '.elem_count'), S.h(T.lt + '.head'), S.h(T.lt + '.tail')
        nx, pv, ow = S.h(T.nt + '.next'), S.h(T.nt + '.prev'), S.h(T.nt + '.owner')
        al = S.h(T.G['alive'])
        s = z3.Select
        e = s(s(Sq, L), i)
        o = s(own, n)
        p = s(pos, n)
        nm = T.p
        d = z3.Int('d')
        extra = []
        if T.scalar:
            mb = s(s(S.h(T.G['memb']), d), L)
            extra.append((nm + ' membership index is valid',
                          forall([d, L], Implies(mb != 0, And(L != 0, s(own, mb) == L, s(S.h(T.nt + '.data'), mb) == d)), [mb])))
        return extra + [
            (nm + ' sequence entries belong to the list',
             forall([L, i], Implies(And(s(val, L) == 1, i >= 0, i < s(cnt, L)), And(s(own, e) == L, s(pos, e) == i, e > 0)), [e])),
            (nm + ' linked nodes are in the sequence of their list',
             forall([n], Implies(o != 0, And(s(val, o) == 1, p >= 0, p < s(cnt, o), s(s(Sq, o), p) == n, s(ow, n) == o,
                                             s(al, n) == 1, n > 0)), [o])),
            (nm + ' next pointers follow the sequence',
             forall([n], Implies(o != 0, s(nx, n) == z3.If(p + 1 < s(cnt, o), s(s(Sq, o), p + 1), 0)), [s(nx, n)])),
            (nm + ' prev pointers follow the sequence',
             forall([n], Implies(o != 0, s(pv, n) == z3.If(p > 0, s(s(Sq, o), p - 1), 0)), [s(pv, n)])),
            (nm + ' head, tail and size match the sequence',
             forall([L], Implies(s(val, L) == 1, And(s(cnt, L) >= 0, L != 0,
                                                     s(S.h(T.lt + '.alloc_node'), L) != 0, s(S.h(T.lt + '.free_node'), L) != 0,
                                                     s(head, L) == z3.If(s(cnt, L) > 0, s(s(Sq, L), 0), 0),
                                                     s(tail, L) == z3.If(s(cnt, L) > 0, s(s(Sq, L), s(cnt, L) - 1), 0))),
                    [s(head, L), s(tail, L), s(cnt, L), s(val, L)])),
        ]


class Upd:
    """functional update of the ghost state: fn(S0) -> terms"""

    def __init__(self, T):
        self.T = T
        self.own = None      # term of the new own array
        self.pos = None      # lambda n -> term
        self.seq = {}        # L -> (lambda i -> term)
        self.val = None      # term
        self.alive = None    # term
        self.memb = None     # term
        self.membfn = None   # lambda d -> term for memb'[d]


class LSpec(Spec):
    """base: functions working on one list type"""
    props = ('C03',)
    T = None
    name = ''
    reads_only = False

    def __init__(self, T):
        self.T = T
        self.key = T.file + ':' + T.p + '_' + self.name if self.static else T.p + '_' + self.name

    static = False

    @property
    def ghosts(self):
        return tuple(self.T.G[k] for k in ('own', 'pos', 'sq', 'val', 'alive', 'memb') if k in self.T.G) if not self.reads_only else ()

    @property
    def opts(self):
        return {'freeable': {self.T.nt}}

    def invs(self, c):
        return [LI(self.T)]

    def lst(self, c):
        return c.a0

    def pre(self, c):
        return [('list is initialised', And(self.lst(c) != 0, self.T.val(c.S0, self.lst(c)) == 1))]

    def axioms(self, c):
        # assumption: a list never reaches 2^32 - 1 elements
        return [self.T.cnt(c.S0, self.lst(c)) < (1 << 32) - 2]

    def upd(self, c):
        return None

    def ghost(self, c):
        u = self.upd(c)
        if u is None:
            return
        T, S0, S1 = self.T, c.S0, c.S1
        if u.own is not None:
            S1.set(T.G['own'], u.own)
        if u.val is not None:
            S1.set(T.G['val'], u.val)
        if u.alive is not None:
            S1.set(T.G['alive'], u.alive)
        if u.pos is not None:
            a = fresh('pos', AI)
            n = z3.Int('n')
            c.facts.append(forall([n], z3.Select(a, n) == u.pos(n), [z3.Select(a, n)]))
            S1.set(T.G['pos'], a)
        if u.memb is not None:
            S1.set(T.G['memb'], u.memb)
        if u.membfn is not None:
            a = fresh('memb', AAI)
            d = z3.Int('d')
            c.facts.append(forall([d], z3.Select(a, d) == u.membfn(d), [z3.Select(a, d)]))
            S1.set(T.G['memb'], a)
        for L, f in u.seq.items():
            a = fresh('seq', AI)
            i = z3.Int('i')
            c.facts.append(forall([i], z3.Select(a, i) == f(i), [z3.Select(a, i)]))
            S1.set(T.G['sq'], z3.Store(S1.h(T.G['sq']), L, a))

    def ghost_post(self, c):
        """when the body got its ghost effects from calls: they must be the specified ones"""
        u = self.upd(c)
        T, S0, S1 = self.T, c.S0, c.S1
        n, i, L = z3.Ints('n i L')
        if u is None:
            u = Upd(T)
        out = []
        if T.scalar:
            m1, m0, d = S1.h(T.G['memb']), S0.h(T.G['memb']), z3.Int('d')
            if u.membfn is not None:
                out.append(('membership index as specified', forall([d], z3.Select(m1, d) == u.membfn(d), [z3.Select(m1, d)])))
            else:
                t = u.memb if u.memb is not None else m0
                if not t.eq(m1):
                    out.append(('membership index as specified', m1 == t))
        for k, t in (('own', u.own), ('val', u.val), ('alive', u.alive)):
            t0 = t if t is not None else S0.h(T.G[k])
            t1 = S1.h(T.G[k])
            if not t1.eq(t0):
                out.append(('%s of nodes as specified' % k, forall([n], z3.Select(t1, n) == z3.Select(t0, n), [z3.Select(t1, n)])))
        p1 = S1.h(T.G['pos'])
        f = u.pos or (lambda n: z3.Select(S0.h(T.G['pos']), n))
        out.append(('positions as specified', forall([n], Implies(z3.Select(S1.h(T.G['own']), n) != 0, z3.Select(p1, n) == f(n)), [z3.Select(p1, n)])))
        sq1, sq0 = S1.h(T.G['sq']), S0.h(T.G['sq'])
        ex = [L != l for l in u.seq]
        out.append(('other sequences unchanged', forall([L, i], Implies(And(S1.f(T.G['val'], L) == 1, i >= 0, i < T.cnt(S1, L), *ex), z3.Select(z3.Select(sq1, L), i) == z3.Select(z3.Select(sq0, L), i)),
                                                        [z3.Select(z3.Select(sq1, L), i)])))
        for l, f in u.seq.items():
            out.append(('sequence as specified', forall([i], Implies(And(i >= 0, i < T.cnt(S1, l)), z3.Select(z3.Select(sq1, l), i) == f(i)),
                                                        [z3.Select(z3.Select(sq1, l), i)])))
        return out

    def linkmods(self, c):
        T = self.T
        L = self.lst(c)
        return [('all', T.nt + '.next'), ('all', T.nt + '.prev'), ('at', T.lt + '.head', L), ('at', T.lt + '.tail', L),
                ('at', T.lt + '.elem_count', L)]

    # ---- updates
    def u_insert(self, c, L, k, node, own0=None, alive=None):
        """node inserted at position k of L"""
        T, S0 = self.T, c.S0
        u = Upd(T)
        own = S0.h(T.G['own'])
        u.own = z3.Store(own, node, L)
        u.pos = lambda n: z3.If(n == node, k, z3.If(And(z3.Select(own, n) == L, T.pos(S0, n) >= k), T.pos(S0, n) + 1, T.pos(S0, n)))
        B = T.Sq(S0, L)
        u.seq[L] = lambda i: z3.If(i < k, z3.Select(B, i), z3.If(i == k, node, z3.Select(B, i - 1)))
        u.alive = alive
        if T.scalar:
            m = S0.h(T.G['memb'])
            # the data is read in the final state: it is set before the node is linked
            d = T.data(c.S1, node)[0]
            u.memb = z3.Store(m, d, z3.Store(z3.Select(m, d), L, node))
        return u

    def u_remove(self, c, L, k, node, free=False, cond=None):
        T, S0 = self.T, c.S0
        u = Upd(T)
        own = S0.h(T.G['own'])
        g = TRUE if cond is None else cond

        def cut(h):
            if z3.is_true(g):
                return z3.Store(h, node, 0)
            a, n = fresh('cut', AI), z3.Int('n')
            c.facts.append(forall([n], z3.Select(a, n) == z3.If(And(g, n == node), 0, z3.Select(h, n)), [z3.Select(a, n)]))
            return a
        u.own = cut(own)
        u.pos = lambda n: z3.If(And(g, z3.Select(own, n) == L, T.pos(S0, n) > k), T.pos(S0, n) - 1, T.pos(S0, n))
        B = T.Sq(S0, L)
        u.seq[L] = lambda i: z3.If(Or(Not(g), i < k), z3.Select(B, i), z3.Select(B, i + 1))
        if free:
            u.alive = cut(S0.h(T.G['alive']))
        if T.scalar:
            m = S0.h(T.G['memb'])
            d = T.data(S0, node)[0]
            m2 = z3.Store(m, d, z3.Store(z3.Select(m, d), L, 0))
            if z3.is_true(g):
                u.memb = m2
            else:
                u.memb = fresh('memb', AAI)
                c.facts += [Implies(g, u.memb == m2), Implies(Not(g), u.memb == m)]
        return u

    def loop_candidates(self, eng, c, st, E, modenv, wset, vars_):
        return list_candidates(self, eng, c, st, E, modenv, wset, vars_)

    def loop_measures(self, eng, c, s, vars_):
        return list_measures(self, eng, c, s, vars_)


# --------------------------------------------------------------- loop templates
def node_vars(vars_):
    out = []
    for k, t, v in vars_:
        if t[0] == 'ptr' and t[1][0] == 'struct' and t[1][1] in BYNODE:
            out.append((k, BYNODE[t[1][1]], v))
    return out


def list_vars(spec, c, vars_):
    out = []
    for k, t, v in vars_:
        if t[0] == 'ptr' and t[1][0] == 'struct' and t[1][1] in BYLIST:
            out.append((BYLIST[t[1][1]], v))
    out += spec.loop_lists(c) if hasattr(spec, 'loop_lists') else []
    return out


def list_candidates(spec, eng, c, st, E, modenv, wset, vars_):
    out = []
    lists = list_vars(spec, c, vars_)
    seen = set()
    for k, T, v in node_vars(vars_):
        if k not in modenv:
            continue
        ls = [L for (T2, L) in lists if T2 is T]
        # the list the variable's entry value is linked into
        ls.append(T.own(E, v))
        uniq = []
        for L in ls:
            if not any(L.eq(x) for x in uniq):
                uniq.append(L)
        for L in uniq:
            out.append(('%s node variable is null or linked in its list' % T.p,
                        (lambda k, T, L: lambda S, env: Or(env[k] == 0, And(L != 0, T.own(S, env[k]) == L)))(k, T, L)))
            for lab, P in spec.visited(c, T, L):
                def fwd(S, env, k=k, T=T, L=L, P=P):
                    i = z3.Int('i')
                    v = term(env[k])
                    e = T.sq(S, L, i)
                    ub = z3.If(v == 0, T.cnt(S, L), T.pos(S, v))
                    return forall([i], Implies(And(i >= 0, i < ub), P(S, e, i)), [e])

                def bwd(S, env, k=k, T=T, L=L, P=P):
                    i = z3.Int('i')
                    v = term(env[k])
                    e = T.sq(S, L, i)
                    lb = z3.If(v == 0, IV(-1), T.pos(S, v))
                    return forall([i], Implies(And(i > lb, i < T.cnt(S, L)), P(S, e, i)), [e])
                out.append((lab + ' (all before)', fwd))
                out.append((lab + ' (all after)', bwd))
    for inv in spec.loop_invs(c):
        for j in range(len(inv.conj(E))):
            out.append((inv.conj(E)[j][0], (lambda inv, j: lambda S, env: inv.conj(S)[j][1])(inv, j)))
    out += [(Own(l), f) for l, f in spec.extra_candidates(eng, c, st, E, modenv, wset, vars_)]
    return out


def list_measures(spec, eng, c, s, vars_):
    out = []
    for k, T, v in node_vars(vars_):
        out.append((T.p + ' nodes left', (lambda k, T: lambda S, env: z3.If(term(env[k]) == 0, IV(0), T.cnt(S, T.own(S, env[k])) - T.pos(S, env[k])))(k, T)))
        out.append((T.p + ' nodes left (backwards)', (lambda k, T: lambda S, env: z3.If(term(env[k]) == 0, IV(0), T.pos(S, env[k]) + 1))(k, T)))
    for T, L in list_vars(spec, c, vars_):
        out.append((T.p + ' list size', (lambda T, L: lambda S, env: T.cnt(S, L))(T, L)))
    return out


def _visited(self, c, T, L):
    return []


Spec.visited = _visited
Spec.loop_invs = lambda self, c: self.invs(c)
Spec.extra_candidates = lambda self, eng, c, st, E, modenv, wset, vars_: []
Spec.ghost_post = lambda self, c: []


# --------------------------------------------------------------- comparators
def cmp_fn(c, spec, f, needle, hay, ud):
    """value of compare(needle, hay) as a term; needle/hay are data tuples"""
    eng = c.eng
    if isinstance(f, FnPtr):
        return eng.pure_call(c.S0, f.fn, [SV(spec.T.datfields(eng)[0], dict(zip([k for k, _ in spec.T.datfields(eng)[1]], x))) if spec.T.datfields(eng)[0] else x[0] for x in (needle, hay)] + [ud])
    args = [term(f)] + [term(x) for x in needle] + [term(x) for x in hay] + [term(ud)]
    F = z3.Function('cmp.%s' % spec.T.p, *([I] * (len(args) + 1)))
    return F(*args)


def x_compare(eng, st, args, n):
    """assumed: a comparison callback is a pure function of its arguments"""
    f, a, b, ud = args
    vals = [term(f)]
    T = None
    for x in (a, b):
        if isinstance(x, SV):
            T = SPI
            vals += [term(x.f[k]) for k, _ in eng.P.fields(x.tag)]
        else:
            vals.append(term(x))
    if T is None:
        T = eng.curspec.T
    vals.append(term(ud))
    F = z3.Function('cmp.%s' % T.p, *([I] * (len(vals) + 1)))
    r = F(*vals)
    eng.rng(st, r, ('int', 32, True))
    return [(st, r)]


def x_alloc_node(eng, st, args, n):
    """assumed: a node allocator returns a fresh node"""
    t = eng.P.ty(n.t)
    return alloc_obj(eng, st, t[1][1])


def alloc_obj(eng, st, tag):
    p = fresh('new.' + tag)
    al = 'g:alive.' + tag
    st.facts += [p > 0, select(eng.hget(st, al), p) == 0, eng.tagof(p) == 0]
    st.H[al] = store(eng.hget(st, al), p, IV(1))
    st.written.append((al, None))
    return [(st, p)]


def free_obj(eng, st, tag, p, n):
    al = 'g:alive.' + tag
    eng.oblige(st, select(eng.hget(st, al), p) == 1, 'no double free (%s)' % tag, n)
    T = BYNODE.get(tag)
    if T is not None and not (isinstance(eng.curspec, LSpec) and eng.curspec.T is T):
        eng.oblige(st, select(eng.hget(st, T.G['own']), p) == 0, 'freed node is in no list', n)
    st.H[al] = store(eng.hget(st, al), p, IV(0))
    st.written.append((al, None))
    return [(st, IV(0))]


def x_free_node(eng, st, args, n):
    c = n.c[1]
    while c.k in ('ImplicitCastExpr', 'CStyleCastExpr', 'ParenExpr'):
        c = c.c[0]
    return free_obj(eng, st, eng.P.ty(c.t)[1][1], args[1], n)


def x_visit(eng, st, args, n):
    f, node, ud = args
    k = 'g:visit'
    cnt = select(eng.hget(st, k), IV(0))
    st.H['g:visited'] = store(eng.hget(st, 'g:visited'), cnt, node)
    st.H[k] = store(eng.hget(st, k), IV(0), cnt + 1)
    st.written += [('g:visited', None), (k, None)]
    r = z3.Function('visit.result', I, I, I, I)(term(f), term(node), term(ud))
    eng.rng(st, r, ('int', 8, False))
    return [(st, r)]


EXT = {'*compare_func': x_compare, '*alloc_node': x_alloc_node, '*free_node': x_free_node, '*func': x_visit}


# --------------------------------------------------------------- contracts
class Init(LSpec):
    name = 'init'

    def pre(self, c):
        return [('list given', self.lst(c) != 0)]

    def axioms(self, c):
        return []

    def upd(self, c):
        T, S0 = self.T, c.S0
        u = Upd(T)
        L = self.lst(c)
        own = S0.h(T.G['own'])
        u.val = z3.Store(S0.h(T.G['val']), L, 1)
        # nodes of a list that is initialised again are forgotten
        a = z3.Lambda if False else None
        o = fresh('own', AI)
        n = z3.Int('n')
        c.facts.append(forall([n], z3.Select(o, n) == z3.If(z3.Select(own, n) == L, 0, z3.Select(own, n)), [z3.Select(o, n)]))
        u.own = o
        if T.scalar:
            m = S0.h(T.G['memb'])
            u.membfn = lambda d: z3.Store(z3.Select(m, d), L, 0)
        return u

    def post(self, c):
        return [('list is empty', self.T.cnt(c.S1, self.lst(c)) == 0)]

    def mods(self, c):
        return [('at', self.T.lt + '.' + f, self.lst(c)) for f in ('head', 'tail', 'elem_count', 'user_data', 'alloc_node', 'free_node')]


class Obs(LSpec):
    reads_only = True
    inline = True


class Size(Obs):
    name = 'size'

    def post(self, c):
        return [('size is the number of elements', c.r == self.T.cnt(c.S0, self.lst(c)))]


class Head(Obs):
    name = 'head'

    def post(self, c):
        T, L = self.T, self.lst(c)
        return [('head is the first element', c.r == z3.If(T.cnt(c.S0, L) > 0, T.sq(c.S0, L, 0), 0))]


class Tail(Obs):
    name = 'tail'

    def post(self, c):
        T, L = self.T, self.lst(c)
        return [('tail is the last element', c.r == z3.If(T.cnt(c.S0, L) > 0, T.sq(c.S0, L, T.cnt(c.S0, L) - 1), 0))]


class NodeObs(Obs):
    def pre(self, c):
        return [('node is null or linked', Or(c.a0 == 0, self.T.own(c.S0, c.a0) != 0))]

    def lst(self, c):
        return self.T.own(c.S0, c.a0)


class Next(NodeObs):
    name = 'next'

    def post(self, c):
        T, L, S = self.T, self.lst(c), c.S0
        k = T.pos(S, c.a0)
        return [('next is the following element', Implies(c.a0 != 0, c.r == z3.If(k + 1 < T.cnt(S, L), T.sq(S, L, k + 1), 0))),
                ('next of null is null', Implies(c.a0 == 0, c.r == 0))]


class Prev(NodeObs):
    name = 'prev'

    def post(self, c):
        T, L, S = self.T, self.lst(c), c.S0
        k = T.pos(S, c.a0)
        return [('prev is the preceding element', Implies(c.a0 != 0, c.r == z3.If(k > 0, T.sq(S, L, k - 1), 0))),
                ('prev of null is null', Implies(c.a0 == 0, c.r == 0))]


class Insert(LSpec):
    """insertion of an existing node (a given) at position k(c)"""

    def node(self, c):
        return c.a1

    def pre(self, c):
        T = self.T
        return super().pre(c) + [('node is not linked', And(self.node(c) > 0, T.own(c.S0, self.node(c)) == 0, T.alive(c.S0, self.node(c)) == 1))]

    def k(self, c):
        return IV(0)

    def upd(self, c):
        return self.u_insert(c, self.lst(c), self.k(c), self.node(c))

    def post(self, c):
        T, L = self.T, self.lst(c)
        return [('one more element', T.cnt(c.S1, L) == T.cnt(c.S0, L) + 1), ('returns the node', c.r == self.node(c))]

    def mods(self, c):
        return self.linkmods(c) + [('at', self.T.nt + '.owner', self.node(c))]


class InsertData(LSpec):
    """insertion of a new node with given data"""
    d = 1

    def node(self, c):
        return c.r

    def k(self, c):
        return IV(0)

    def upd(self, c):
        return self.u_insert(c, self.lst(c), self.k(c), c.r, alive=z3.Store(c.S0.h(self.T.G['alive']), c.r, 1))

    def post(self, c):
        T, L = self.T, self.lst(c)
        v = T.val_of(c.eng, c.a[self.d]) if not z3.is_expr(c.a[self.d]) or len(T.datfields(c.eng)[1]) == 1 else None
        if v is None:
            v = T.data_at(c)
        return [('one more element', T.cnt(c.S1, L) == T.cnt(c.S0, L) + 1),
                ('returns a new node', And(c.r > 0, T.alive(c.S0, c.r) == 0, T.own(c.S0, c.r) == 0, c.eng.tagof(c.r) == 0)),
                ('node carries the data', And(*[a == term(b) for a, b in zip(T.data(c.S1, c.r), v)]))]

    def mods(self, c):
        T = self.T
        return self.linkmods(c) + [('at', T.nt + '.owner', c.r)] + [('at', h, f(c.r)) for h, f in T.dataheaps(c.eng)]

    def param(self, eng, st, i, t):
        if t[0] == 'struct':
            d = {}
            for f, ft in eng.P.fields(t[1]):
                d[f] = z3.Const('a%d.%s' % (i, f), I)
                eng.rng(st, d[f], ft)
            return SV(t[1], d)
        return None


class PushHeadNode(Insert):
    name = 'push_head_node'


class PushTailNode(Insert):
    name = 'push_tail_node'

    def k(self, c):
        return self.T.cnt(c.S0, self.lst(c))


class PushHead(InsertData):
    name = 'push_head'


class PushTail(InsertData):
    name = 'push_tail'

    def k(self, c):
        return self.T.cnt(c.S0, self.lst(c))


class AtNode:
    def lst(self, c):
        return self.T.own(c.S0, c.a0)

    def pre(self, c):
        p = super().pre(c)
        return [('reference node is linked', self.T.own(c.S0, c.a0) != 0)] + p[1:]


class InsertBeforeNode(AtNode, Insert):
    name = 'insert_before_node'

    def k(self, c):
        return self.T.pos(c.S0, c.a0)


class InsertAfterNode(AtNode, Insert):
    name = 'insert_after_node'

    def k(self, c):
        return self.T.pos(c.S0, c.a0) + 1


class InsertBefore(AtNode, InsertData):
    name = 'insert_before'

    def k(self, c):
        return self.T.pos(c.S0, c.a0)


class InsertAfter(AtNode, InsertData):
    name = 'insert_after'

    def k(self, c):
        return self.T.pos(c.S0, c.a0) + 1


class Unlink(AtNode, LSpec):
    name = 'unlink'
    free = False

    def upd(self, c):
        return self.u_remove(c, self.lst(c), self.T.pos(c.S0, c.a0), c.a0, self.free)

    def post(self, c):
        T, L = self.T, self.lst(c)
        p = [('one element less', T.cnt(c.S1, L) == T.cnt(c.S0, L) - 1)]
        if not self.free:
            p.append(('returns the node', c.r == c.a0))
        return p

    def mods(self, c):
        return self.linkmods(c) + [('at', self.T.nt + '.owner', c.a0)]


class Delete(Unlink):
    name = 'delete'
    free = True


class PopNode(LSpec):
    free = False
    end = 'head'

    def cases(self, c):
        return ['empty', 'nonempty']

    def ne(self, c):
        T, L = self.T, self.lst(c)
        cond = T.cnt(c.S0, L) > 0
        if getattr(c, 'case', None) is None:
            return cond
        return TRUE if c.case == 'nonempty' else FALSE

    def k(self, c):
        return IV(0) if self.end == 'head' else self.T.cnt(c.S0, self.lst(c)) - 1

    def node(self, c):
        return self.T.sq(c.S0, self.lst(c), self.k(c))

    def upd(self, c):
        g = self.ne(c)
        if z3.is_false(g):
            return None
        return self.u_remove(c, self.lst(c), self.k(c), self.node(c), self.free, cond=g)

    def post(self, c):
        T, L = self.T, self.lst(c)
        g = self.ne(c)
        p = []
        if getattr(c, 'case', None) is not None:
            p.append(('case', (T.cnt(c.S0, L) > 0) == g))
        p.append(('one element less unless empty', T.cnt(c.S1, L) == ite(g, T.cnt(c.S0, L) - 1, IV(0))))
        return p + self.res(c, g)

    def res(self, c, g):
        return [('returns the node', c.r == ite(g, self.node(c), IV(0)))]

    def mods(self, c):
        if getattr(c, 'case', None) == 'empty':
            return []
        return self.linkmods(c) + [('at', self.T.nt + '.owner', self.node(c))]


class PopHeadNode(PopNode):
    name = 'pop_head_node'


class PopTailNode(PopNode):
    name = 'pop_tail_node'
    end = 'tail'


class Pop(PopNode):
    free = True

    def param(self, eng, st, i, t):
        return None

    def pre(self, c):
        if isinstance(c.a1, Ref):
            return super().pre(c)
        return super().pre(c) + [('target given', c.a1 != 0)]

    def target(self, c, S):
        tag, fs = self.T.datfields(c.eng)
        if tag is None:
            t = fs[0][1]
            if isinstance(c.a1, Ref):
                return (c.eng.load(c.st, c.a1.lv),)
            if c.eng.is_bytes(t):
                return (S.byte(c.a1),)
            return (S.f(c.eng.cellname(t), c.a1),)
        return tuple(S.f('%s.%s' % (tag, f), c.a1) for f, _ in fs)

    def setup(self, c):
        # the target is not the data of a node
        tag, fs = self.T.datfields(c.eng)
        if tag is not None and getattr(c, 'entry', False):
            c.st.facts.append(c.eng.tagof(c.a1) != c.eng.tagid(self.T.nt + '.data'))

    def res(self, c, g):
        T, L = self.T, self.lst(c)
        d = T.data(c.S0, self.node(c))
        return [('returns whether there was an element', c.r == ite(g, IV(1), IV(0))),
                ('copies the data', Implies(g, And(*[a == b for a, b in zip(self.target(c, c.S1), d)])))]

    def mods(self, c):
        if getattr(c, 'case', None) == 'empty':
            return []
        tag, fs = self.T.datfields(c.eng)
        if tag is None:
            m = [('at', c.eng.cellname(fs[0][1]), c.a1)]
        else:
            m = [('at', '%s.%s' % (tag, f), c.a1) for f, _ in fs]
        return super().mods(c) + m


class PopHead(Pop):
    name = 'pop_head'


class PopTail(Pop):
    name = 'pop_tail'
    end = 'tail'


def pure_comparator(spec, eng, st, f, x, ud):
    """the comparison function has no side effects (otherwise the search is inlined)"""
    if not isinstance(f, FnPtr):
        return True
    tag, fs = spec.T.datfields(eng)
    try:
        y = SV(tag, {k: fresh('hay') for k, _ in fs}) if tag else fresh('hay')
        eng.pure_call(View(eng, dict(st.H)), f.fn, [x, y, ud])
    except Unsupported as e:
        if 'side effects' in str(e):
            return False
        raise
    return True


class Find(LSpec):
    reads_only = True

    def applies(self, eng, st, args):
        return pure_comparator(self, eng, st, args[2], args[1], args[3])

    rev = False
    name = 'find_node'
    param = InsertData.param

    def needle(self, c):
        return self.T.val_of(c.eng, c.a1)

    def cmp(self, c, S, e):
        return cmp_fn(c, self, c.a[2], self.needle(c), self.T.data(S, e), c.a[3])

    def visited(self, c, T, L):
        return [('compared equal to 0 so far', lambda S, e, i: self.cmp(c, S, e) == 0)]

    def pre(self, c):
        return super().pre(c) + [('comparison function given', TRUE if isinstance(c.a[2], FnPtr) else c.a[2] != 0)]

    def post(self, c):
        T, L, S = self.T, self.lst(c), c.S0
        i = z3.Int('i')
        e = T.sq(S, L, i)
        k = T.pos(S, c.r)
        before = (And(i >= 0, i < k) if not self.rev else And(i > k, i < T.cnt(S, L)))
        j = z3.Int('j')
        return [('match is in the list and compares as a match',
                 Implies(c.r != 0, And(T.own(S, c.r) == L, self.cmp(c, S, c.r) != 0, self.cmp(c, S, c.r) != -1))),
                ('it is the first match in search direction',
                 Implies(c.r != 0, forall([i], Implies(before, self.cmp(c, S, e) == 0), [e]))),
                ('no match: none up to a stop',
                 Implies(c.r == 0, self.nomatch(c)))]

    def nomatch(self, c):
        T, L, S = self.T, self.lst(c), c.S0
        i = z3.Int('i')
        e = T.sq(S, L, i)
        # stop position: ghost witness
        k = z3.Function('find.stop', I, I)(c.vals.get('tok', IV(0))) if False else None
        j = fresh('stop')
        all_ = forall([i], Implies(And(i >= 0, i < T.cnt(S, L)), self.cmp(c, S, e) == 0), [e])
        ex = z3.Exists([j], And(j >= 0, j < T.cnt(S, L), self.cmp(c, S, T.sq(S, L, j)) == -1,
                                forall([i], Implies((And(i >= 0, i < j) if not self.rev else And(i > j, i < T.cnt(S, L))), self.cmp(c, S, e) == 0), [e])),
                        patterns=[T.sq(S, L, j)])
        return Or(all_, ex)


class FindRev(Find):
    name = 'find_node_rev'
    rev = True


class Sorted:
    rev = False

    def cmpi(self, c, S, e, nd):
        return cmp_fn(c, self, c.a[2], nd, self.T.data(S, e), c.a[3])

    def setup(self, c):
        T, L, S = self.T, self.lst(c), c.S0
        if not getattr(c, 'entry', False) and 'k' not in c.vals:
            c.vals['k'] = fresh('k')

    def exit_setup(self, c):
        if self.T.G['own'] in c.S1.H and not c.S1.h(self.T.G['own']).eq(c.S0.h(self.T.G['own'])):
            c.vals['k'] = self.T.pos(c.S1, self.node(c))
        else:
            c.vals['k'] = IV(0)

    def k(self, c):
        return c.vals['k']

    def visited(self, c, T, L):
        return [('new element sorts behind all of these', lambda S, e, i: self.cmpi(c, S, e, self.nd(c)) < 0)]

    def pre(self, c):
        return super().pre(c) + [('comparison function given', TRUE if isinstance(c.a[2], FnPtr) else c.a[2] != 0)]

    def post(self, c):
        T, L, S = self.T, self.lst(c), c.S0
        i = z3.Int('i')
        k = self.k(c)
        e = T.sq(S, L, i)
        nd = self.nd(c)
        cm = lambda x: self.cmpi(c, S, x, nd)
        if not self.rev:
            a = forall([i], Implies(And(i >= 0, i < k), cm(e) < 0), [e])
            b = Implies(k < T.cnt(S, L), cm(T.sq(S, L, k)) >= 0)
        else:
            a = forall([i], Implies(And(i >= k, i < T.cnt(S, L)), cm(e) < 0), [e])
            b = Implies(k > 0, cm(T.sq(S, L, k - 1)) >= 0)
        return super().post(c) + [('position in range', And(k >= 0, k <= T.cnt(S, L))),
                                  ('sorts behind all elements it passes', a),
                                  ('placed next to the first element it does not sort behind', b)]


class InsertSortedNode(Sorted, Insert):
    name = 'insert_sorted_node'

    def nd(self, c):
        return self.T.data(c.S0, c.a1)


class InsertSortedNodeRev(InsertSortedNode):
    name = 'insert_sorted_node_rev'
    rev = True


class InsertSorted(Sorted, InsertData):
    name = 'insert_sorted'

    def nd(self, c):
        return self.T.val_of(c.eng, c.a1)


class InsertSortedRev(InsertSorted):
    name = 'insert_sorted_rev'
    rev = True


class Empty(LSpec):
    name = 'empty'

    def upd(self, c):
        T, S0 = self.T, c.S0
        L = self.lst(c)
        u = Upd(T)
        own, al = S0.h(T.G['own']), S0.h(T.G['alive'])
        o, a = fresh('own', AI), fresh('alive', AI)
        n = z3.Int('n')
        mine = z3.Select(own, n) == L
        c.facts.append(forall([n], z3.Select(o, n) == z3.If(mine, 0, z3.Select(own, n)), [z3.Select(o, n)]))
        c.facts.append(forall([n], z3.Select(a, n) == z3.If(mine, 0, z3.Select(al, n)), [z3.Select(a, n)]))
        u.own, u.alive = o, a
        u.seq = {}
        if T.scalar:
            m = S0.h(T.G['memb'])
            u.membfn = lambda d: z3.Store(z3.Select(m, d), L, 0)
        return u

    def post(self, c):
        return [('list is empty', self.T.cnt(c.S1, self.lst(c)) == 0)]

    def mods(self, c):
        return self.linkmods(c) + [('all', self.T.nt + '.owner')]

    def extra_candidates(self, eng, c, st, E, modenv, wset, vars_):
        T, L = self.T, self.lst(c)
        S0 = c.S0
        n, l, i = z3.Ints('n l i')

        def others(S, env):
            o0, o1 = S0.h(T.G['own']), S.h(T.G['own'])
            return forall([n], And(Implies(z3.Select(o0, n) != L, And(z3.Select(o1, n) == z3.Select(o0, n), T.alive(S, n) == T.alive(S0, n))),
                                   Implies(z3.Select(o0, n) == L, Or(z3.Select(o1, n) == L, And(z3.Select(o1, n) == 0, T.alive(S, n) == 0)))),
                          [z3.Select(o1, n), T.alive(S, n)])

        def seqs(S, env):
            return forall([l, i], Implies(l != L, T.sq(S, l, i) == T.sq(S0, l, i)), [T.sq(S, l, i)])

        def membs(S, env):
            m = T.memb(S, n, l)
            return forall([n, l], Implies(l != L, m == T.memb(S0, n, l)), [m])

        def poss(S, env):
            return forall([n], Implies(And(T.own(S0, n) != L), T.pos(S, n) == T.pos(S0, n)), [T.pos(S, n)])

        def vals(S, env):
            return forall([l], T.val(S, l) == T.val(S0, l), [T.val(S, l)])

        def lfields(S, env):
            return And(*[forall([l], Implies(l != L, S.f(T.lt + f, l) == S0.f(T.lt + f, l)), [S.f(T.lt + f, l)])
                         for f in ('.head', '.tail', '.elem_count')])
        return [('other nodes keep their list', others), ('other sequences', seqs), ('other positions', poss)] + ([('other memberships', membs)] if T.scalar else []) + [ ('lists stay', vals),
                ('other lists keep their fields', lfields)]


class ForEach(LSpec):
    reads_only = True
    name = 'for_each'
    rev = False
    ghost_frame_names = ('g:visit', 'g:visited')

    def pre(self, c):
        return super().pre(c) + [('function given', TRUE if isinstance(c.a1, FnPtr) else c.a1 != 0)]

    def ghost_frames(self, c):
        return self.ghost_frame_names

    def res(self, c, e):
        return z3.Function('visit.result', I, I, I, I)(term(c.a1), e, term(c.a2))

    def ith(self, c, S, i):
        T, L = self.T, self.lst(c)
        return T.sq(S, L, i) if not self.rev else T.sq(S, L, T.cnt(S, L) - 1 - i)

    def log(self, c, S, m):
        """the visits logged since entry are the first m elements, all but the last returned non-zero"""
        v0 = c.S0.gi('g:visit')
        i = z3.Int('i')
        e = z3.Select(S.h('g:visited'), v0 + i)
        q = z3.Int('q')
        eq = z3.Select(S.h('g:visited'), q)
        return And(S.gi('g:visit') == v0 + m,
                   forall([q], Implies(And(q >= v0, q < v0 + m), eq == self.ith(c, c.S0, q - v0)), [eq]))

    def post(self, c):
        T, L, S = self.T, self.lst(c), c.S0
        m = c.S1.gi('g:visit') - S.gi('g:visit')
        i = z3.Int('i')
        q = z3.Int('q')
        eq = T.sq(S, L, q)
        idx = q if not self.rev else T.cnt(S, L) - 1 - q
        return [('visits a prefix of the list in order', And(m >= 0, m <= T.cnt(S, L), self.log(c, c.S1, m))),
                ('continues as long as the function says so', forall([q], Implies(And(q >= 0, q < T.cnt(S, L), idx < m - 1), self.res(c, eq) != 0), [eq])),
                ('stops only when told or at the end', Or(m == T.cnt(S, L), And(m > 0, self.res(c, self.ith(c, S, m - 1)) == 0)))]

    def extra_candidates(self, eng, c, st, E, modenv, wset, vars_):
        T, L = self.T, self.lst(c)
        out = []
        for k, T2, v in node_vars(vars_):
            if k in modenv and T2 is T:
                def m(S, env, k=k):
                    n = term(env[k])
                    p = T.pos(c.S0, n)
                    return z3.If(n == 0, T.cnt(c.S0, L), p if not self.rev else T.cnt(c.S0, L) - 1 - p)
                out.append(('visit log', lambda S, env, m=m: self.log(c, S, m(S, env))))

                def cont(S, env, m=m):
                    q = z3.Int('q')
                    eq = T.sq(c.S0, L, q)
                    idx = q if not self.rev else T.cnt(c.S0, L) - 1 - q
                    return forall([q], Implies(And(q >= 0, q < T.cnt(c.S0, L), idx < m(S, env)), self.res(c, eq) != 0), [eq])
                out.append(('all visited said continue', cont))
        return out


class ForEachRev(ForEach):
    name = 'for_each_rev'
    rev = True


class AllocNode(LSpec):
    static = True
    name = ''
    inline = True

    def __init__(self, T):
        self.T = T
        self.key = '%s:%s_rmc_alloc_node' % (T.file, T.nt[1:])

    def pre(self, c):
        return []

    def axioms(self, c):
        return []

    def upd(self, c):
        u = Upd(self.T)
        u.alive = z3.Store(c.S0.h(self.T.G['alive']), c.r, 1)
        return u

    @property
    def ghosts(self):
        return (self.T.G['alive'],)

    def ghost_post(self, c):
        a1 = c.S1.h(self.T.G['alive'])
        a0 = c.S0.h(self.T.G['alive'])
        n = z3.Int('n')
        return [('only the new node is allocated', forall([n], z3.Select(a1, n) == z3.If(n == c.r, 1, z3.Select(a0, n)), [z3.Select(a1, n)]))]

    def post(self, c):
        return [('returns a new node', And(c.r > 0, self.T.alive(c.S0, c.r) == 0))]

    def invs(self, c):
        return []


class FreeNode(AllocNode):
    def __init__(self, T):
        self.T = T
        self.key = '%s:%s_rmc_free_node' % (T.file, T.nt[1:])

    def pre(self, c):
        return [('allocated node', And(c.a0 > 0, self.T.alive(c.S0, c.a0) == 1))]

    def upd(self, c):
        u = Upd(self.T)
        u.alive = z3.Store(c.S0.h(self.T.G['alive']), c.a0, 0)
        return u

    def ghost_post(self, c):
        a1 = c.S1.h(self.T.G['alive'])
        a0 = c.S0.h(self.T.G['alive'])
        n = z3.Int('n')
        return [('only the node is freed', forall([n], z3.Select(a1, n) == z3.If(n == c.a0, 0, z3.Select(a0, n)), [z3.Select(a1, n)]))]

    def post(self, c):
        return []


CLASSES = [Init, Size, Head, Tail, Next, Prev, PushHeadNode, PushTailNode, PushHead, PushTail, InsertBeforeNode, InsertAfterNode,
           InsertBefore, InsertAfter, Unlink, Delete, PopHeadNode, PopTailNode, PopHead, PopTail, Find, FindRev,
           InsertSortedNode, InsertSortedNodeRev, InsertSorted, InsertSortedRev, Empty, ForEach, ForEachRev, AllocNode, FreeNode]
SPECS = [C(T) for T in TYPES.values() for C in CLASSES]
