"""Verification-condition generator: symbolic execution of the clang AST of the real
functions, function by function, against contracts.

 * integers and pointers are mathematical integers with the C wrap-around written out
   explicitly (unsigned) or proved absent (signed overflow is an obligation);
 * memory is a set of typed field heaps  H["struct.field"] : address -> value, one byte
   heap M for everything that is accessed as bytes (buffers, packed wire structs), and
   cells for address-taken scalars;
 * loops are cut by invariants: candidate invariants (from templates instantiated on the
   variables in scope and from the contract) are pruned to an inductive subset (Houdini),
   the rest is havocked;  no loop is ever unrolled unless its condition is a constant;
 * a call is replaced by the callee's contract if it has one, inlined if it is a library
   function without one, and by an assumed model if it is external.
"""
import os, sys, time, re, subprocess, tempfile
import select as select_mod
import z3
from cfront import Program, Unsupported, N

I = z3.IntSort()
AI = z3.ArraySort(I, I)
AAI = z3.ArraySort(I, AI)
IV = z3.IntVal
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def num(t):
    """python int of a numeral term, else None"""
    if isinstance(t, int):
        return t
    if z3.is_int_value(t):
        return t.as_long()
    return None


def term(v):
    return IV(v) if isinstance(v, int) else v


_ctr = [0]


def fresh(name, sort=I):
    _ctr[0] += 1
    return z3.Const('%s!%d' % (name, _ctr[0]), sort)


def And(*xs):
    xs = [x for x in xs if not z3.is_true(x)]
    if not xs:
        return TRUE
    if len(xs) == 1:
        return xs[0]
    return z3.And(*xs)


def Or(*xs):
    xs = [x for x in xs if not z3.is_false(x)]
    if not xs:
        return FALSE
    if len(xs) == 1:
        return xs[0]
    return z3.Or(*xs)


def Not(x):
    if z3.is_true(x):
        return FALSE
    if z3.is_false(x):
        return TRUE
    return z3.Not(x)


Implies = z3.Implies


def ite(c, a, b):
    a, b = term(a), term(b)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def _isnum(t):
    return z3.is_int_value(t)


s_sel = z3.Select


def select(h, k):
    """select with read-over-write for numeral / syntactically equal addresses"""
    k = term(k)
    kn = num(k)
    t = h
    while True:
        u = ALIAS.get(t.get_id())
        u = u[1] if u is not None else t
        if u.decl().kind() != z3.Z3_OP_STORE:
            break
        a, i, v = u.children()
        if i.eq(k):
            return v
        inn = num(i)
        if kn is not None and inn is not None:
            if inn != kn:
                t = a
                continue
        break
    return z3.Select(t, k)


ALIAS = {}   # id of a named heap -> (the constant, the store term it stands for)


def store(h, k, v):
    k, v = term(k), term(v)
    if h.decl().kind() == z3.Z3_OP_STORE:
        a, i, _ = h.children()
        if i.eq(k):
            return z3.Store(a, k, v)
    return z3.Store(h, k, v)


def forall(vs, body, pats):
    try:
        return z3.ForAll(vs, body, patterns=[z3.MultiPattern(*p) if isinstance(p, (list, tuple)) else p for p in pats])
    except z3.Z3Exception:
        return z3.ForAll(vs, body)     # a pattern over an update with a conditional value: only in goals


z3.set_param('warning', False)


def wrap_u(t, w):
    """value of the infinite precision result of + or - (within one modulus) wrapped to w bits"""
    m = 1 << w
    n = num(t)
    if n is not None:
        return IV(n % m)
    return ite(t >= m, t - m, ite(t < 0, t + m, t))


class SV:
    """struct value"""

    def __init__(self, tag, f):
        self.tag, self.f = tag, f


class Ref:
    """pointer to a scalar that lives in a field heap (never null)"""

    def __init__(self, lv):
        self.lv = lv


class FnPtr:
    def __init__(self, fn):
        self.fn = fn


LOCAL_STEP = 1 << 20
ERRNO = IV(1 << 51)    # address of errno
FN_BASE = 1 << 50     # function addresses
STATIC_BASE = 1 << 52  # string literals and other static objects


class State:
    __slots__ = ('env', 'H', 'facts', 'ranged', 'regions', 'nn', 'written', 'pc', 'dead', 'calls')

    def __init__(self):
        self.env, self.H, self.facts, self.ranged, self.regions, self.nn = {}, {}, [], set(), [], set()
        self.written = []
        self.pc = []
        self.dead = False
        self.calls = []

    def copy(self):
        s = State()
        s.env, s.H, s.facts = dict(self.env), dict(self.H), list(self.facts)
        s.ranged, s.regions, s.nn = set(self.ranged), list(self.regions), set(self.nn)
        s.written, s.pc, s.calls = list(self.written), list(self.pc), list(self.calls)
        return s


class Own(str):
    """label of a candidate that a contract supplies"""


class View:
    """read access to a heap snapshot for specifications"""

    def __init__(self, eng, H):
        self.eng, self.H = eng, H

    def h(self, name):
        return self.eng.heap(self.H, name)

    def f(self, name, addr):
        return select(self.h(name), addr)

    def g(self, name):
        return self.h(name)

    def gi(self, name):
        """global scalar ghost"""
        return select(self.h(name), IV(0))

    def set(self, name, term_):
        self.H[name] = term_

    def setat(self, name, addr, v):
        self.H[name] = store(self.h(name), addr, v)

    def setgi(self, name, v):
        self.setat(name, IV(0), v)

    def byte(self, a):
        return select(self.h('M'), a)


class Obligation:
    __slots__ = ('hyps', 'goal', 'label', 'loc', 'tags', 'kind', 'status', 'backend', 'time', 'info')

    def __init__(self, hyps, goal, label, loc, tags, kind):
        self.hyps, self.goal, self.label, self.loc, self.tags, self.kind = hyps, goal, label, loc, tags, kind
        self.status, self.backend, self.time, self.info = None, None, 0.0, ''


class Ctx:
    """what a contract sees"""

    def __init__(self, eng, S0, S1, a, r=None, atypes=None):
        self.eng, self.S0, self.S1, self.a, self.r = eng, S0, S1, a, r
        self.facts = []       # extra facts assumed (ghost definitions)
        self.vals = {}

    def __getattr__(self, k):
        # a0, a1 ...
        if re.match(r'a\d+$', k):
            return self.a[int(k[1:])]
        raise AttributeError(k)


HINT = z3.Function('hint', I, I)


class Engine:
    SORTS = {}   # heap name -> sort for non AI ghosts

    def __init__(self, prog, specs, externs, invs=None, opts=None):
        self.heavy_ids = {}
        self._fam = {}
        self.P = prog
        self.specs = specs           # fn key / name -> Spec
        self.externs = externs       # name -> callable(eng, st, args, node) -> [(st, val)]
        self.opts = opts or {}
        self.scale = self.opts.get('scale', 1)
        self.obls = []
        self.axioms = []
        self._ax = set()
        self.funcaddr = {}
        self.stack = []
        self.cur = None
        self.curspec = None
        self.local_next = -LOCAL_STEP
        self.static_next = STATIC_BASE
        self.addr_taken_cache = {}
        self.collect = True          # record obligations
        self.touched = set()
        self.deadline = None
        self.npaths = 0
        self.feas_calls = 0
        self.feas_time = 0.0
        self.proved_cache = {}
        self.loop_log = []
        self.inlined = set()
        self.called_specs = set()
        self.used_externs = set()
        self.fn_regions = []
        self.quiet_deref = False
        self.no_rng = False
        self._pure = {}

    # ------------------------------------------------------------------ heaps
    def heap(self, H, name):
        if name not in H:
            sort = self.SORTS.get(name.split(':')[0] + ':' if ':' in name else name)
            if sort is None:
                sort = AAI if name.startswith('gS:') else AI
            H[name] = z3.Const('%s@0' % name, sort)
        return H[name]

    def hget(self, st, name):
        return self.heap(st.H, name)

    # ------------------------------------------------------------------ facts
    def assume(self, st, f):
        if z3.is_true(f):
            return
        st.facts.append(f)

    def rng(self, st, t, ty):
        """range fact for a loaded value"""
        if num(t) is not None or self.no_rng:
            return
        k = t.get_id()
        if k in st.ranged:
            return
        st.ranged.add(k)
        if ty[0] == 'int':
            w = ty[1]
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if ty[2] else (0, (1 << w) - 1)
            st.facts.append(z3.And(t >= lo, t <= hi))
        elif ty[0] == 'ptr':
            pass   # local objects have negative addresses
        elif ty[0] == 'ud':
            pass

    # ---------------------------------------------------- struct embedded addresses
    def embed(self, tag, f, base):
        """address of struct/array field f inside the struct at base"""
        n = num(base)
        if n is not None and n < 0:
            # local object: lay fields out inside its private address range
            fields = [x for x, _ in self.P.fields(tag)]
            return IV(n + 1024 * (1 + fields.index(f)) if self.P.fieldty(tag, f)[0] != 'arr'
                      else n + 1024 * (1 + fields.index(f)))
        fn = z3.Function('fa.%s.%s' % (tag, f), I, I)
        self.embed_axiom(tag, f, fn)
        return fn(term(base))

    def embed_axiom(self, tag, f, fn):
        k = (tag, f)
        if k in self._ax:
            return
        self._ax.add(k)
        inv = z3.Function('inv.%s.%s' % (tag, f), I, I)
        tagf = z3.Function('tagof', I, I)
        p = z3.Int('p')
        tid = self.tagid(tag + '.' + f)
        self.axioms.append(forall([p], And(inv(fn(p)) == p, tagf(fn(p)) == tid, Implies(p > 0, fn(p) > 0)), [fn(p)]))

    def tagid(self, s):
        import zlib
        return 1000 + zlib.crc32(s.encode()) % 1000000007

    def tagof(self, t):
        n = num(t)
        if n is not None and n < 0:
            return IV(0)
        return z3.Function('tagof', I, I)(term(t))

    def elt(self, tag, base, idx):
        base, idx = term(base), term(idx)
        n, i = num(base), num(idx)
        if n is not None and (n < 0 or n >= STATIC_BASE) and i is not None:
            return IV(n + 16384 * i)
        if i == 0 and base.decl().name().startswith('elt.') is False and False:
            return base
        fn = z3.Function('elt.%s' % tag, I, I, I)
        k = ('elt', tag)
        if k not in self._ax:
            self._ax.add(k)
            b = z3.Function('eltb.%s' % tag, I, I)
            x = z3.Function('elti.%s' % tag, I, I)
            p, q = z3.Ints('p q')
            self.axioms.append(forall([p, q], And(b(fn(p, q)) == p, x(fn(p, q)) == q,
                                                  self.tagof(fn(p, q)) == self.tagid('elt.' + tag),
                                                  Implies(And(p > 0, q >= 0), fn(p, q) > 0)), [fn(p, q)]))
        return fn(base, idx)

    def elt_base(self, tag, p):
        self.elt(tag, IV(1), z3.Int('q'))
        return z3.Function('eltb.%s' % tag, I, I)(term(p))

    def elt_idx(self, tag, p):
        self.elt(tag, IV(1), z3.Int('q'))
        return z3.Function('elti.%s' % tag, I, I)(term(p))

    def fnaddr(self, name):
        import zlib
        return IV(FN_BASE + zlib.crc32(name.encode()))

    def local_structs(self, st, tag):
        """addresses of the local variables of struct type tag"""
        return [v[1] for v in st.env.values() if isinstance(v, tuple) and v[0] == 'mem' and v[2] == ('struct', tag)]

    def alloc_local(self, nslots=1):
        a = self.local_next
        self.local_next -= LOCAL_STEP * nslots
        return a

    # ------------------------------------------------------------------ solver
    def mk_solver(self, timeout, seed=0, mbqi=False):
        s = z3.Solver()
        s.set('timeout', int(timeout * self.scale))
        s.set('auto_config', False)
        s.set('mbqi', mbqi)
        s.set('random_seed', seed)
        return s

    def heavy(self, f):
        """a fact only some goals need: goals are tried without it first"""
        self.heavy_ids[f.get_id()] = f
        return f

    def families(self, f):
        """the kinds of objects a formula is about"""
        k = f.get_id()
        if k in self._fam:
            return self._fam[k][1]
        out, seen, todo = set(), set(), [f]
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                todo.append(x.body())
                continue
            todo += x.children()
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_array(x):
                nm = re.sub(r'[!@].*', '', str(x))
                m = re.match(r'g\w*:\w*\.?(_\w+)$', nm)
                nm = m.group(1) if m else nm.split('.')[0]
                out.add(re.sub(r'_(node|list)$', '', nm))
        out = frozenset(out)
        self._fam[k] = (f, out)
        return out

    def query(self, hyps, ng, timeout, thr=None, seed=0, mbqi=False):
        s = self.mk_solver(timeout, seed, mbqi)
        if thr is not None:
            s.set('qi.eager_threshold', thr)
        s.add(self.axioms)
        s.add(hyps)
        s.add(ng)
        return s.check()

    def inc_query(self, hyps, ng, timeout):
        """one solver per list of facts: goals about the same state are asked one after the other"""
        key = (len(hyps), hyps[-1].get_id() if hyps else 0, len(self.axioms), hash(tuple(h.get_id() for h in hyps)))
        if getattr(self, '_inc', (None,))[0] != key:
            s = self.mk_solver(timeout)
            s.add(self.axioms)
            s.add(hyps)
            self._inc = (key, s, list(hyps))
        s = self._inc[1]
        s.set('timeout', int(timeout * self.scale))
        s.push()
        s.add(ng)
        r = s.check()
        s.pop()
        return r

    def check_goal(self, hyps, goal, timeout=4000, seed=0, mbqi=False):
        """staged: cheap attempts with fewer facts or less eager instantiation first"""
        if not seed:
            known = {h.get_id() for h in hyps}
            if all(x.get_id() in known for x in (goal.children() if z3.is_and(goal) else [goal])):
                self.backend = 'engine (assumed fact)'
                return z3.unsat
        ng = z3.Not(goal)
        if seed or timeout < 400:
            return self.query(hyps, ng, timeout, None, seed, mbqi)
        r = self.inc_query(hyps, ng, 150)
        if r != z3.unknown:
            return r
        fam = self.families(goal)
        sl = [x for x in hyps if not z3.is_quantifier(x) or self.families(x) <= fam]
        if len(sl) < len(hyps) and self.query(sl, ng, 150, 2.0) == z3.unsat:
            return z3.unsat
        light = [x for x in hyps if x.get_id() not in self.heavy_ids]
        if len(light) < len(hyps) and self.query(light, ng, 150, 2.0) == z3.unsat:
            return z3.unsat
        parts = self.cases_of(hyps, goal)
        if parts and all(self.query(light, g, timeout * 0.15, 2.0) == z3.unsat or self.query(hyps, g, timeout * 0.5, 2.0) == z3.unsat for g in parts):
            return z3.unsat
        r = self.query(hyps, ng, timeout * 0.3, 2.0)
        if r != z3.unknown:
            return r
        r = self.external(hyps, ng, timeout * 0.5, [x for x in (light, sl, self.both(light, sl)) if len(x) < len(hyps)])
        if r != z3.unknown:
            return r
        return self.query(hyps, ng, timeout * 0.3, None, 5)

    def cases_of(self, hyps, goal):
        """the goal for an arbitrary list L, with the conditions that distinguish the lists named by hints"""
        if not (z3.is_quantifier(goal) and goal.is_forall()):
            return []
        names = [goal.var_name(i) for i in range(goal.num_vars())]
        ts = []
        for h in reversed(hyps):
            if z3.is_eq(h) and z3.is_app(h.arg(0)) and h.arg(0).decl().eq(HINT):
                ts.append(h.arg(1))
                if len(ts) == 2:
                    break
        if 'L' not in names or not ts:
            return []
        sk = [fresh('sk.' + nm, goal.var_sort(i)) for i, nm in enumerate(names)]
        body = z3.substitute_vars(goal.body(), *reversed(sk))
        L = sk[names.index('L')]
        neg = z3.Not(body)
        return [z3.substitute(neg, (L, t)) for t in ts] + [z3.And(neg, *[L != t for t in ts])]

    def both(self, a, b):
        ids = {x.get_id() for x in b}
        return [x for x in a if x.get_id() in ids]

    def external(self, hyps, ng, timeout, subsets=()):
        """z3 4.8.12 and cvc5, side by side, and newer z3 with some of the facts only"""
        ms = max(int(timeout * self.scale), 300)

        def text(hs):
            s = z3.Solver()
            s.add(self.axioms)
            s.add(hs)
            s.add(ng)
            return s.to_smt2()
        z = ['smt.auto_config=false', 'smt.mbqi=false', 'smt.qi.eager_threshold=2', '-t:%d' % ms, '-T:%d' % (ms // 1000 + 2), '-in']
        txt = text(hyps)
        jobs = [(['z3'] + z, txt), (['cvc5', '-q', '--tlimit=%d' % ms, '--lang=smt2', '-'], txt)]
        jobs += [(['z3-new'] + z, text(x)) for x in subsets]
        procs = []
        for cmd, txt in jobs:
            f = tempfile.TemporaryFile('w+')
            f.write(txt)
            f.seek(0)
            try:
                procs.append(subprocess.Popen(cmd, stdin=f, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True))
            except OSError:
                pass
            f.close()
        res = z3.unknown
        end = time.time() + ms / 1000 + 2
        while procs and res == z3.unknown and time.time() < end:
            rd, _, _ = select_mod.select([p.stdout for p in procs], [], [], max(0, end - time.time()))
            for p in list(procs):
                if p.stdout in rd:
                    out = p.stdout.read().split()
                    p.wait()
                    procs.remove(p)
                    if out[:1] == ['unsat']:
                        res = z3.unsat
                        self.backend = {'z3': 'z3 4.8', 'z3-new': 'z3 (subset of facts)'}.get(p.args[0], p.args[0])
        for p in procs:
            p.kill()
            p.wait()
        return res

    def feasible(self, st, timeout=150):
        t = time.time()
        self.feas_calls += 1
        if self.heavy_ids:
            s = self.mk_solver(min(timeout, 80))
            s.add(self.axioms + [x for x in st.facts if x.get_id() not in self.heavy_ids])
            if s.check() == z3.unsat:
                self.feas_time += time.time() - t
                return False
        s = self.mk_solver(timeout)
        for x in self.axioms:
            s.add(x)
        for x in st.facts:
            s.add(x)
        r = s.check()
        self.feas_time += time.time() - t
        return r != z3.unsat

    # ------------------------------------------------------------------ obligations
    def oblige(self, st, goal, label, node=None, tags=(), kind='safety'):
        if z3.is_true(goal):
            if self.collect:
                o = Obligation([], goal, label, self.loc(node), tags, kind)
                o.status, o.backend = 'proved', 'simplifier'
                self.obls.append(o)
            return
        if self.collect:
            self.obls.append(Obligation(list(st.facts), goal, label, self.loc(node), tags, kind))
        # later code may rely on it: it is proved separately
        if kind == 'safety':
            st.facts.append(goal)

    def loc(self, node):
        if node is None or not self.stack:
            return self.stack[-1].name if self.stack else ''
        F = self.stack[-1]
        return '%s:%d %s' % (F.file, self.P.line(F.file, node.off), F.name)

    def nonnull(self, st, p, node):
        if isinstance(p, (Ref, FnPtr)):
            return
        n = num(p)
        if n is not None and n != 0:
            return
        k = p.get_id()
        if k in st.nn:
            return
        st.nn.add(k)
        self.oblige(st, p != 0, 'null pointer not dereferenced', node)

    def alive_check(self, st, p, tag, node):
        if tag in self.opts.get('freeable', ()):
            n = num(p)
            if n is not None and n < 0:
                return
            al = 'g:alive.' + tag
            k = ('al', p.get_id(), self.hget(st, al).get_id())
            if k in st.nn:
                return
            st.nn.add(k)
            self.oblige(st, select(self.hget(st, al), p) == 1, 'no use of freed or unallocated memory (%s)' % tag, node)

    # ------------------------------------------------------------------ lvalues
    def is_bytes(self, ty):
        return ty[0] == 'int' and ty[1] == 8

    def lv_of_addr(self, st, p, ty, node):
        """lvalue for *p with p : ptr to ty"""
        if isinstance(p, Ref):
            return p.lv
        if ty[0] == 'struct':
            if self.P.packed(ty[1]):
                return ('pstruct', ty[1], p)
            return ('struct', ty[1], p)
        if ty[0] == 'arr':
            return ('arr', ty[1], p, ty[2])
        if self.is_bytes(ty):
            return ('byte', p, ty)
        return ('cell', p, ty)

    def cellname(self, ty):
        if ty[0] == 'int':
            return 'cell.%d' % ty[1]
        if ty[0] == 'ud':
            return 'cell.ud'
        return 'cell.ptr'

    def load(self, st, lv, node=None):
        k = lv[0]
        if k == 'env':
            v = st.env[lv[1]]
            return v
        if k == 'field':
            _, tag, f, addr, ty = lv
            v = select(self.hget(st, tag + '.' + f), addr)
            if st.env.get(('fp', tag, f, addr.get_id())) is not None:
                return st.env[('fp', tag, f, addr.get_id())]
            self.rng(st, v, ty)
            self.opts.get('on_load', lambda *a: None)(self, st, tag, f, addr, v)
            return v
        if k == 'cell':
            v = select(self.hget(st, self.cellname(lv[2])), lv[1])
            self.rng(st, v, lv[2])
            return v
        if k == 'byte':
            self.access(st, lv[1], IV(1), node, False)
            v = select(self.hget(st, 'M'), lv[1])
            self.rng(st, v, ('int', 8, False))
            if lv[2][2]:
                return ite(v >= 128, v - 256, v)
            return v
        if k == 'bytes':   # multi-byte scalar in byte memory
            return self.load_bytes(st, lv[1], self.P.sizeof(lv[2]), node)
        if k == 'struct':
            tag, addr = lv[1], lv[2]
            d = {}
            for f, ty in self.P.fields(tag):
                if ty[0] in ('arr', 'opaque'):
                    continue
                d[f] = self.load(st, self.member(st, lv, f, node), node)
            return SV(tag, d)
        if k == 'pstruct':
            d = {}
            for f, ty in self.P.fields(lv[1]):
                if ty[0] in ('arr', 'opaque'):
                    continue
                d[f] = self.load(st, self.member(st, lv, f, node), node)
            return SV(lv[1], d)
        if k == 'ud':
            base = self.load(st, lv[1], node)
            return self.ud_get(base, lv[2])
        raise Unsupported('load ' + str(lv))

    def ud_get(self, v, m):
        if m in ('u64', 'ptr'):
            return v
        if m == 'u32':
            n = num(v)
            if n is not None:
                return IV(n % (1 << 32))
            return ite(And(v >= 0, v < (1 << 32)), v, v % (1 << 32))
        raise Unsupported('user_data member ' + m)

    def load_bytes(self, st, addr, n, node):
        self.access(st, addr, IV(n), node, False)
        M = self.hget(st, 'M')
        s = IV(0)
        for i in range(n):
            b = select(M, self.addk(addr, i))
            self.rng(st, b, ('int', 8, False))
            s = s + b * (1 << (8 * i)) if i else b
        return s

    def addk(self, a, k):
        n = num(a)
        if n is not None:
            return IV(n + k)
        return a + k if k else a

    def store_bytes(self, st, addr, n, v, node):
        self.access(st, addr, IV(n), node, True)
        M = self.hget(st, 'M')
        nv = num(v)
        s = None
        for i in range(n):
            if nv is not None:
                b = IV((nv >> (8 * i)) & 255)
            else:
                b = fresh('byte')
                st.facts.append(z3.And(b >= 0, b <= 255))
                s = b * (1 << (8 * i)) + s if s is not None else b
            M = store(M, self.addk(addr, i), b)
        if s is not None:
            st.facts.append(s == v)
        st.H['M'] = M
        st.written.append(('M', addr, n))

    def access(self, st, addr, n, node, write):
        """obligation: [addr, addr+n) lies inside one known region"""
        if self.quiet_deref:
            return
        a, nn = num(addr), num(n)
        if a is not None and nn is not None:
            for b, sz in st.regions:
                if num(b) is not None and num(sz) is not None and num(b) <= a and a + nn <= num(b) + num(sz):
                    return
        k = ('rg', addr.get_id(), n.get_id() if not isinstance(n, int) else n, len(st.regions))
        if k in st.nn:
            return
        st.nn.add(k)
        alts = [z3.And(b <= addr, addr + n <= b + sz) for b, sz in st.regions]
        alts.append(n <= 0)
        self.oblige(st, Or(*alts), 'memory access inside its object', node)

    def store(self, st, lv, v, node=None):
        k = lv[0]
        if k == 'env':
            st.env[lv[1]] = v
            return
        if k == 'field':
            _, tag, f, addr, ty = lv
            key = ('fp', tag, f, addr.get_id())
            if key in st.env:
                del st.env[key]
            nm = tag + '.' + f
            if isinstance(v, FnPtr):
                v = self.fnaddr(v.fn)
            if isinstance(v, Ref):
                if (num(addr) or 0) < 0:
                    st.env[('fp', tag, f, addr.get_id())] = v
                    return
                raise Unsupported('storing the address of a scalar field')
            st.H[nm] = store(self.hget(st, nm), addr, v)
            st.written.append((nm, addr))
            return
        if k == 'cell':
            nm = self.cellname(lv[2])
            if isinstance(v, FnPtr):
                v = self.fnaddr(v.fn)
            if isinstance(v, Ref):
                raise Unsupported('storing the address of a scalar field')
            st.H[nm] = store(self.hget(st, nm), lv[1], v)
            st.written.append((nm, lv[1]))
            return
        if k == 'byte':
            self.access(st, lv[1], IV(1), node, True)
            if lv[2][2]:
                v = ite(term(v) < 0, v + 256, v)
            st.H['M'] = store(self.hget(st, 'M'), lv[1], v)
            st.written.append(('M', lv[1], 1))
            return
        if k == 'bytes':
            self.store_bytes(st, lv[1], self.P.sizeof(lv[2]), v, node)
            return
        if k in ('struct', 'pstruct'):
            if not isinstance(v, SV):
                raise Unsupported('struct store')
            for f, ty in self.P.fields(lv[1]):
                if ty[0] in ('arr', 'opaque'):
                    continue
                if f in v.f:
                    self.store(st, self.member(st, lv, f, node), v.f[f], node)
            return
        if k == 'ud':
            if lv[2] in ('u64', 'ptr'):
                self.store(st, lv[1], v, node)
                return
        raise Unsupported('store ' + str(lv))

    def member(self, st, lv, f, node):
        k = lv[0]
        if k == 'struct':
            tag, addr = lv[1], lv[2]
            ty = self.P.fieldty(tag, f)
            if ty[0] == 'struct':
                return ('struct', ty[1], self.embed(tag, f, addr)) if not self.P.packed(ty[1]) else \
                    ('pstruct', ty[1], self.embed(tag, f, addr))
            if ty[0] == 'arr':
                return ('arr', ty[1], self.embed(tag, f, addr), ty[2])
            return ('field', tag, f, addr, ty)
        if k == 'pstruct':
            tag, addr = lv[1], lv[2]
            ty = self.P.fieldty(tag, f)
            off = self.P.offset(tag, f)
            if ty[0] == 'int' and ty[1] == 8:
                return ('byte', self.addk(addr, off), ty)
            if ty[0] == 'arr':
                return ('arr', ty[1], self.addk(addr, off), ty[2])
            return ('bytes', self.addk(addr, off), ty)
        raise Unsupported('member of ' + str(lv[0]))

    def addr_of(self, st, lv, node):
        k = lv[0]
        if k in ('struct', 'pstruct'):
            return lv[2]
        if k == 'arr':
            return lv[2]
        if k in ('cell', 'byte', 'bytes'):
            return lv[1]
        if k in ('field', 'ud'):
            return Ref(lv)
        raise Unsupported('address of ' + k)

    # ------------------------------------------------------------------ expressions
    def ev(self, st, n):
        """-> list of (state, value)"""
        m = getattr(self, 'e_' + n.k, None)
        if m is None:
            raise Unsupported('expression ' + n.k + ' at ' + self.loc(n))
        return m(st, n)

    def ev1(self, st, n):
        r = self.ev(st, n)
        return r

    def evs(self, st, ns):
        out = [(st, [])]
        for n in ns:
            nxt = []
            for s, vs in out:
                for s2, v in self.ev(s, n):
                    nxt.append((s2, vs + [v]))
            out = nxt
        return out

    def lval(self, st, n):
        """-> list of (state, lvalue)"""
        k = n.k
        if k == 'ParenExpr':
            return self.lval(st, n.c[0])
        if k == 'DeclRefExpr':
            kind, name, vid, ty = n.a['ref']
            key = self.varkey(vid)
            if key in st.env:
                v = st.env[key]
                if isinstance(v, tuple) and v and v[0] == 'mem':
                    return [(st, self.lv_of_addr(st, v[1], v[2], n))]
                return [(st, ('env', key))]
            return [(st, self.global_lv(st, n))]
        if k == 'MemberExpr':
            f = n.a['name']
            if n.a.get('isArrow'):
                bt = self.P.ty(n.c[0].t)
                out = []
                for s, p in self.ev(st, n.c[0]):
                    if isinstance(p, Ref):
                        out.append((s, self.member_any(s, p.lv, f, n)))
                        continue
                    if bt[0] != 'ptr' or bt[1][0] not in ('struct', 'ud'):
                        raise Unsupported('arrow on ' + str(bt))
                    self.nonnull(s, p, n)
                    if bt[1][0] == 'ud':
                        out.append((s, ('ud', ('cell', p, ('ud',)), f)))
                        continue
                    self.alive_check(s, p, bt[1][1], n)
                    lv = self.lv_of_addr(s, p, bt[1], n)
                    out.append((s, self.member(s, lv, f, n)))
                return out
            out = []
            try:
                ls = self.lval(st, n.c[0])
            except Unsupported:
                ls = None
            if ls is None:
                # member of an rvalue struct: materialise
                for s, v in self.ev(st, n.c[0]):
                    key = ('tmp', fresh('t').get_id())
                    if isinstance(v, SV):
                        s.env[key] = v.f[f]
                    else:
                        s.env[key] = self.ud_get(v, f)
                    out.append((s, ('env', key)))
                return out
            for s, lv in ls:
                out.append((s, self.member_any(s, lv, f, n)))
            return out
        if k == 'UnaryOperator' and n.a['opcode'] == '*':
            pt = self.P.ty(n.c[0].t)
            out = []
            for s, p in self.ev(st, n.c[0]):
                if isinstance(p, FnPtr):
                    out.append((s, ('fn', p)))
                    continue
                if pt[0] == 'ptr' and pt[1][0] == 'func':
                    out.append((s, ('fnterm', p)))
                    continue
                self.nonnull(s, p, n)
                out.append((s, self.lv_of_addr(s, p, pt[1], n)))
            return out
        if k == 'ArraySubscriptExpr':
            pt = self.P.ty(n.c[0].t)
            out = []
            for s, (p, i) in self.evs(st, n.c[:2]):
                self.nonnull(s, p, n)
                out.append((s, self.index(s, p, i, pt[1], n)))
            return out
        if k == 'CompoundLiteralExpr':
            out = []
            t = self.P.ty(n.t)
            if t[0] == 'ptr':
                for s, v in self.ev(st, n):
                    key = ('tmp', fresh('t').get_id())
                    s.env[key] = v
                    out.append((s, ('env', key)))
                return out
            for s, v in self.ev(st, n):
                a = IV(self.alloc_local())
                lv = self.lv_of_addr(s, a, t, n)
                self.store(s, lv, v, n)
                out.append((s, lv))
            return out
        if k in ('CStyleCastExpr', 'ImplicitCastExpr') and n.a.get('castKind') == 'NoOp':
            return self.lval(st, n.c[0])
        raise Unsupported('lvalue ' + k + ' at ' + self.loc(n))

    def member_any(self, st, lv, f, n):
        if lv[0] == 'env':
            v = st.env[lv[1]]
            if isinstance(v, SV):
                raise Unsupported('env struct')
            return ('ud', lv, f)
        if lv[0] in ('field', 'cell') and lv[-1][0] == 'ud':
            return ('ud', lv, f)
        return self.member(st, lv, f, n)

    def index(self, st, p, i, ty, n):
        if ty[0] == 'struct' and not self.P.packed(ty[1]):
            return ('struct', ty[1], self.elt(ty[1], p, i))
        if self.is_bytes(ty):
            a, b = num(p), num(i)
            return ('byte', IV(a + b) if a is not None and b is not None else p + i, ty)
        if ty[0] == 'ptr' or ty[0] == 'int':
            b = num(i)
            a = num(p)
            if a is not None and b is not None:
                return ('cell', IV(a + b), ty)
            return ('cell', self.elt('cell.' + self.cellname(ty), p, i), ty)
        raise Unsupported('index of %s' % (ty,))

    def varkey(self, vid):
        return (len(self.stack), vid)

    def global_lv(self, st, n):
        kind, name, vid, ty = n.a['ref']
        key = ('static', vid)
        if key in st.env:
            v = st.env[key]
            return self.lv_of_addr(st, v[1], v[2], n)
        if name == '_rmc_log_level':
            return ('cell', IV(STATIC_BASE - 8), ('int', 32, True))
        raise Unsupported('global variable ' + name)

    def e_ParenExpr(self, st, n):
        return self.ev(st, n.c[0])

    def e_ConstantExpr(self, st, n):
        return self.ev(st, n.c[0])

    def e_IntegerLiteral(self, st, n):
        return [(st, IV(int(n.a['value'])))]

    def e_CharacterLiteral(self, st, n):
        return [(st, IV(int(n.a['value'])))]

    def e_StringLiteral(self, st, n):
        return [(st, IV(STATIC_BASE + 4096 * (1 + self.tagid(str(n.a.get('value'))) % 1000003)))]

    def e_PredefinedExpr(self, st, n):
        return [(st, IV(STATIC_BASE + 64))]

    def e_ImplicitValueInitExpr(self, st, n):
        return [(st, self.zero(self.P.ty(n.t)))]

    def zero(self, t):
        if t[0] == 'struct':
            return SV(t[1], {f: self.zero(x) for f, x in self.P.fields(t[1]) if x[0] not in ('arr', 'opaque')})
        return IV(0)

    def e_DeclRefExpr(self, st, n):
        kind, name, vid, ty = n.a['ref']
        if kind == 'FunctionDecl':
            return [(st, FnPtr(name))]
        if kind == 'EnumConstantDecl':
            return [(st, IV(self.P.enums[name]))]
        return [(s, ('LV', lv)) for s, lv in self.lval(st, n)]

    def e_MemberExpr(self, st, n):
        return [(s, ('LV', lv)) for s, lv in self.lval(st, n)]

    e_ArraySubscriptExpr = e_MemberExpr

    def rv(self, st, v, node=None):
        if isinstance(v, tuple) and v and v[0] == 'LV':
            return self.load(st, v[1], node)
        return v

    def e_CompoundLiteralExpr(self, st, n):
        return self.ev_init(st, n.c[0], self.P.ty(n.t))

    def ev_init(self, st, n, t):
        """initialiser value"""
        if n.k == 'InitListExpr':
            if t[0] == 'ud':
                if not n.c:
                    return [(st, IV(0))]
                f = n.a.get('field')
                out = []
                for s, v in self.ev(st, n.c[0]):
                    if isinstance(v, FnPtr):
                        v = self.fnaddr(v.fn)
                    if f in ('i64', 'i32'):
                        raise Unsupported('signed user data')
                    out.append((s, v))
                return out
            if t[0] == 'struct':
                fs = self.P.fields(t[1])
                if self.P.records[t[1]][0] == 'union':
                    raise Unsupported('union init')
                out = [(st, {})]
                for (f, ft), c in zip(fs, n.c):
                    if ft[0] in ('arr', 'opaque'):
                        continue
                    nxt = []
                    for s, d in out:
                        for s2, v in self.ev_init(s, c, ft):
                            d2 = dict(d)
                            d2[f] = v
                            nxt.append((s2, d2))
                    out = nxt
                res = []
                for s, d in out:
                    for f, ft in fs:
                        if f not in d and ft[0] not in ('arr', 'opaque'):
                            d[f] = self.zero(ft)
                    res.append((s, SV(t[1], d)))
                return res
            if t[0] == 'arr':
                out = [(st, [])]
                for c in n.c:
                    nxt = []
                    for s, l in out:
                        for s2, v in self.ev_init(s, c, t[1]):
                            nxt.append((s2, l + [v]))
                    out = nxt
                return out
            if n.c:
                return self.ev(st, n.c[0])
            return [(st, IV(0))]
        if n.k == 'ImplicitValueInitExpr':
            return [(st, self.zero(t))]
        return self.ev(st, n)

    def e_InitListExpr(self, st, n):
        return self.ev_init(st, n, self.P.ty(n.t))

    def e_ImplicitCastExpr(self, st, n):
        ck = n.a['castKind']
        if ck == 'LValueToRValue':
            out = []
            for s, lv in self.lval(st, n.c[0]):
                if lv[0] in ('fn', 'fnterm'):
                    out.append((s, lv[1]))
                    continue
                out.append((s, self.load(s, lv, n)))
            return out
        if ck == 'FunctionToPointerDecay':
            c = n.c[0]
            while c.k == 'ParenExpr':
                c = c.c[0]
            if c.k == 'DeclRefExpr':
                return [(st, FnPtr(c.a['ref'][1]))]
            if c.k == 'UnaryOperator' and c.a['opcode'] == '*':
                return self.ev(st, c.c[0])
            raise Unsupported('function decay')
        if ck == 'ArrayToPointerDecay':
            c = n.c[0]
            while c.k == 'ParenExpr':
                c = c.c[0]
            if c.k in ('StringLiteral', 'PredefinedExpr'):
                return self.ev(st, c)
            return [(s, self.addr_of(s, lv, n)) for s, lv in self.lval(st, c)]
        if ck in ('NoOp', 'BitCast', 'IntegralToPointer', 'PointerToIntegral', 'FunctionToPointerDecay'):
            if ck == 'BitCast':
                self.alloc_ty = self.P.ty(n.t)
            return self.ev(st, n.c[0])
        if ck == 'NullToPointer':
            return [(s, IV(0)) for s, v in self.ev(st, n.c[0])]
        if ck == 'ToVoid':
            return [(s, IV(0)) for s, v in self.ev(st, n.c[0])]
        if ck == 'IntegralCast':
            t = self.P.ty(n.t)
            ft = self.P.ty(n.c[0].t)
            return [(s, self.cast(s, v, ft, t)) for s, v in self.ev(st, n.c[0])]
        if ck in ('IntegralToBoolean', 'PointerToBoolean'):
            return [(s, ite(self.truth(s, v), IV(1), IV(0))) for s, v in self.ev(st, n.c[0])]
        raise Unsupported('cast ' + ck)

    e_CStyleCastExpr = e_ImplicitCastExpr

    def cast(self, st, v, ft, t):
        if t[0] != 'int' or ft[0] != 'int':
            return v
        w, sg = t[1], t[2]
        fw, fs = ft[1], ft[2]
        c = num(v)
        if c is not None:
            c &= (1 << w) - 1
            if sg and c >= 1 << (w - 1):
                c -= 1 << w
            return IV(c)
        if not sg:
            if not fs and fw <= w:
                return v
            if fs and fw <= w:
                return ite(v < 0, v + (1 << w), v)
            # narrowing
            m = 1 << w
            r = fresh('trunc')
            # r == v mod 2^w, with the identity spelled out for the solver
            st.facts.append(And(r >= 0, r < m, Implies(And(v >= 0, v < m), r == v), r == v % m))
            return r
        else:
            if fs and fw <= w:
                return v
            if not fs and fw < w:
                return v
            m = 1 << w
            if fw == w:
                return ite(v >= (m >> 1), v - m, v)
            r = fresh('strunc')
            u = v % m
            st.facts.append(And(Implies(And(v >= -(m >> 1), v < (m >> 1)), r == v),
                                r == ite(u >= (m >> 1), u - m, u)))
            return r

    def truth(self, st, v):
        if isinstance(v, (Ref, FnPtr)):
            return TRUE
        c = num(v)
        if c is not None:
            return TRUE if c else FALSE
        # ite(c,1,0) != 0  ->  c
        if v.decl().kind() == z3.Z3_OP_ITE:
            a, x, y = v.children()
            nx, ny = num(x), num(y)
            if nx is not None and ny is not None:
                if nx and not ny:
                    return a
                if ny and not nx:
                    return Not(a)
        return v != 0

    def b2i(self, b):
        return ite(b, IV(1), IV(0))

    def e_UnaryOperator(self, st, n):
        op = n.a['opcode']
        if op == '__extension__':
            return self.ev(st, n.c[0])
        if op == '&':
            c = n.c[0]
            while c.k == 'ParenExpr':
                c = c.c[0]
            if c.k == 'DeclRefExpr' and c.a['ref'][0] == 'FunctionDecl':
                return [(st, FnPtr(c.a['ref'][1]))]
            return [(s, self.addr_of(s, lv, n)) for s, lv in self.lval(st, c)]
        if op == '*':
            out = []
            for s, lv in self.lval(st, n):
                if lv[0] in ('fn', 'fnterm'):
                    out.append((s, lv[1]))
                else:
                    out.append((s, ('LV', lv)))
            return out
        if op == '!':
            out = []
            for s, v in self.ev(st, n.c[0]):
                out.append((s, self.b2i(Not(self.truth(s, v)))))
            return out
        t = self.P.ty(n.t)
        if op in ('++', '--'):
            out = []
            for s, lv in self.lval(st, n.c[0]):
                old = self.load(s, lv, n)
                if t[0] == 'ptr':
                    new = self.ptr_add(s, old, IV(1 if op == '++' else -1), t[1])
                else:
                    new = self.arith(s, '+' if op == '++' else '-', old, IV(1), t, n)
                self.store(s, lv, new, n)
                out.append((s, old if n.a.get('isPostfix') else new))
            return out
        if op == '-':
            return [(s, self.arith(s, '-', IV(0), v, t, n)) for s, v in self.ev(st, n.c[0])]
        if op == '+':
            return self.ev(st, n.c[0])
        if op == '~':
            out = []
            for s, v in self.ev(st, n.c[0]):
                out.append((s, (-1 - v) if t[2] else ((1 << t[1]) - 1 - v)))
                c = num(v)
                if c is not None:
                    out[-1] = (s, IV(-1 - c if t[2] else (1 << t[1]) - 1 - c))
            return out
        raise Unsupported('unary ' + op)

    def ptr_add(self, st, p, k, ty):
        if isinstance(p, Ref):
            raise Unsupported('pointer arithmetic on field pointer')
        if ty[0] in ('void',) or self.is_bytes(ty):
            a, b = num(p), num(k)
            if a is not None and b is not None:
                return IV(a + b)
            return p + k
        if ty[0] == 'struct' and not self.P.packed(ty[1]):
            a, b = num(p), num(k)
            if a is not None and b is not None:
                return IV(a + 16384 * b)
            if p.decl().name() == 'elt.' + ty[1]:
                return self.elt(ty[1], p.arg(0), z3.simplify(p.arg(1) + k))
            return self.elt(ty[1], self.elt_base(ty[1], p), self.elt_idx(ty[1], p) + k)
        if ty[0] == 'struct':
            return p + k * self.P.sizeof(ty)
        raise Unsupported('pointer arithmetic on %s' % (ty,))

    def arith(self, st, op, a, b, t, n):
        if t[0] != 'int':
            raise Unsupported('arith on %s' % (t,))
        w, sg = t[1], t[2]
        a, b = term(a), term(b)
        ca, cb = num(a), num(b)
        if ca is not None and cb is not None and not (op in '/%' and cb == 0):
            r = {'+': lambda: ca + cb, '-': lambda: ca - cb, '*': lambda: ca * cb,
                 '/': lambda: abs(ca) // abs(cb) * (1 if (ca >= 0) == (cb >= 0) else -1),
                 '%': lambda: abs(ca) % abs(cb) * (1 if ca >= 0 else -1),
                 '&': lambda: ca & cb, '|': lambda: ca | cb, '^': lambda: ca ^ cb,
                 '<<': lambda: ca << cb, '>>': lambda: ca >> cb}[op]()
            r &= (1 << w) - 1
            if sg and r >= 1 << (w - 1):
                r -= 1 << w
            return IV(r)
        if op in '+-':
            r = a + b if op == '+' else a - b
            if cb == 0:
                return a
            if ca == 0 and op == '+':
                return b
            if sg:
                lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
                self.oblige(st, z3.And(r >= lo, r <= hi), 'no signed overflow', n)
                return r
            return wrap_u(r, w)
        if op == '*':
            if ca is None and cb is None:
                raise Unsupported('nonlinear multiplication')
            r = a * b
            if sg:
                self.oblige(st, z3.And(r >= -(1 << (w - 1)), r < (1 << (w - 1))), 'no signed overflow', n)
                return r
            q = fresh('mulq')
            res = fresh('mul')
            m = 1 << w
            st.facts.append(And(r == q * m + res, res >= 0, res < m, Implies(And(r >= 0, r < m), res == r)))
            return res
        if op == '%':
            self.oblige(st, b != 0, 'no division by zero', n)
            if cb is not None and cb > 0:
                r = a % b
                if sg:
                    return ite(a >= 0, r, -((-a) % b))
                return r
            if sg:
                raise Unsupported('signed % by a variable')
            r = fresh('mod')
            st.facts.append(And(r >= 0, r < b, Implies(a < b, r == a), Implies(And(a >= b, a - b < b), r == a - b), r <= a))
            return r
        if op == '/':
            self.oblige(st, b != 0, 'no division by zero', n)
            if cb is not None and cb > 0:
                if sg:
                    return ite(a >= 0, a / b, -((-a) / b))
                return a / b
            raise Unsupported('division by a variable')
        if op in ('&', '|', '^'):
            if ca is not None:
                a, b, ca, cb = b, a, cb, ca
            if cb is None:
                # booleans?
                ba, bb = self.as_bool(a), self.as_bool(b)
                if ba is not None and bb is not None and op in '&|':
                    return self.b2i(And(ba, bb) if op == '&' else Or(ba, bb))
                raise Unsupported('bit operation on two variables')
            if sg:
                if cb < 0:
                    cb &= (1 << w) - 1
                    # a & ~mask for small nonnegative a
                    if op != '&':
                        raise Unsupported('signed bit operation')
                    inv = ((1 << w) - 1) ^ cb
                    self.oblige(st, a >= 0, 'bit operation on a nonnegative value', n)
                    r = a
                    for i in range(w):
                        if inv >> i & 1:
                            r = r - ((a / (1 << i)) % 2) * (1 << i)
                    return r
                self.oblige(st, a >= 0, 'bit operation on a nonnegative value', n)
            bits = [i for i in range(w) if cb >> i & 1]
            if op == '&':
                if cb == (1 << len(bits)) - 1:
                    if len(bits) == w:
                        return a
                    return a % (1 << len(bits))
                zeros = [i for i in range(w) if not cb >> i & 1]
                if len(zeros) < len(bits) and not sg:
                    r = a
                    for i in zeros:
                        r = r - self.bit(a, i)
                    return r
                r = IV(0)
                for i in bits:
                    r = r + self.bit(a, i) if i != bits[0] else self.bit(a, i)
                return r
            r = a
            for i in bits:
                if op == '|':
                    r = r + ((1 << i) - self.bit(a, i))
                else:
                    r = r + ((1 << i) - 2 * self.bit(a, i))
            return r
        if op == '<<':
            if cb is not None:
                return self.arith(st, '*', a, IV(1 << cb), t, n)
        if op == '>>':
            if cb is not None and not sg:
                return a / (1 << cb)
            if cb is not None:
                return a / (1 << cb)
        raise Unsupported('operator ' + op)

    def bit(self, a, i):
        return ((a / (1 << i)) % 2) * (1 << i)

    def as_bool(self, v):
        if num(v) in (0, 1):
            return TRUE if num(v) else FALSE
        if v.decl().kind() == z3.Z3_OP_ITE:
            c, x, y = v.children()
            if num(x) == 1 and num(y) == 0:
                return c
            if num(x) == 0 and num(y) == 1:
                return Not(c)
        return None

    def pointer_val(self, v):
        if isinstance(v, FnPtr):
            return self.fnaddr(v.fn)
        if isinstance(v, Ref):
            return IV(STATIC_BASE - 4096)   # some non-null address
        return v

    def e_BinaryOperator(self, st, n):
        op = n.a['opcode']
        if op == '=':
            t = self.P.ty(n.t)
            out = []
            # right operand first, then the location
            for s, v in self.ev(st, n.c[1]):
                v = self.rv(s, v, n)
                for s2, lv in self.lval(s, n.c[0]):
                    self.store(s2, lv, v, n)
                    out.append((s2, v))
            return out
        if op == ',':
            out = []
            for s, _ in self.ev(st, n.c[0]):
                out += self.ev(s, n.c[1])
            return out
        if op in ('&&', '||'):
            return self.shortcircuit(st, n, op)
        lt, rt = self.P.ty(n.c[0].t), self.P.ty(n.c[1].t)
        out = []
        for s, (a, b) in self.evs(st, n.c[:2]):
            a, b = self.rv(s, a, n), self.rv(s, b, n)
            if op in ('==', '!=', '<', '>', '<=', '>='):
                a, b = term(self.pointer_val(a)), term(self.pointer_val(b))
                ca, cb = num(a), num(b)
                if ca is not None and cb is not None:
                    r = {'==': ca == cb, '!=': ca != cb, '<': ca < cb, '>': ca > cb, '<=': ca <= cb, '>=': ca >= cb}[op]
                    out.append((s, IV(1 if r else 0)))
                    continue
                c = {'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op]
                if op in ('==', '!=') and (cb == 0 or cb == 1) and self.as_bool(a) is not None and ca is None:
                    ba = self.as_bool(a)
                    c = ba if (cb == 1) == (op == '==') else Not(ba)
                out.append((s, self.b2i(c)))
                continue
            if lt[0] == 'ptr' and rt[0] == 'int':
                out.append((s, self.ptr_add(s, a, b if op == '+' else -b, lt[1])))
                continue
            if rt[0] == 'ptr' and lt[0] == 'int':
                out.append((s, self.ptr_add(s, b, a, rt[1])))
                continue
            if lt[0] == 'ptr' and rt[0] == 'ptr' and op == '-' and (self.is_bytes(lt[1]) or lt[1][0] == 'void'):
                out.append((s, a - b))
                continue
            out.append((s, self.arith(s, op, a, b, self.P.ty(n.t), n)))
        return out

    def e_CompoundAssignOperator(self, st, n):
        op = n.a['opcode'][:-1]
        t = self.P.ty(n.t)
        out = []
        for s, v in self.ev(st, n.c[1]):
            v = self.rv(s, v, n)
            for s2, lv in self.lval(s, n.c[0]):
                old = self.load(s2, lv, n)
                if t[0] == 'ptr':
                    new = self.ptr_add(s2, old, v if op == '+' else -v, t[1])
                else:
                    ct = t
                    if t[1] < 32:
                        ct = ('int', 32, True)
                    rt = self.P.ty(n.c[1].t)
                    if rt[0] == 'int' and rt[1] > ct[1]:
                        ct = rt
                    elif rt[0] == 'int' and rt[1] == ct[1] and not rt[2]:
                        ct = rt
                    o2 = self.cast(s2, old, t, ct)
                    v2 = self.cast(s2, v, rt, ct)
                    new = self.arith(s2, op, o2, v2, ct, n)
                    new = self.cast(s2, new, ct, t)
                self.store(s2, lv, new, n)
                out.append((s2, new))
        return out

    def same_state(self, a, b):
        """did evaluating change anything but facts?"""
        if a.env.keys() - b.env.keys() or any(a.env[k] is not b.env.get(k) for k in a.env):
            return False
        for k, v in b.H.items():
            if k in a.H:
                if not a.H[k].eq(v):
                    return False
            elif v.decl().kind() != z3.Z3_OP_UNINTERPRETED or not str(v).endswith('@0'):
                return False
        return True

    def shortcircuit(self, st, n, op):
        out = []
        for s, a in self.ev(st, n.c[0]):
            a = self.rv(s, a, n)
            ta = self.truth(s, a)
            if z3.is_true(ta) or z3.is_false(ta):
                if z3.is_true(ta) == (op == '&&'):
                    for s2, b in self.ev(s, n.c[1]):
                        out.append((s2, self.b2i(self.truth(s2, self.rv(s2, b, n)))))
                else:
                    out.append((s, IV(0 if op == '&&' else 1)))
                continue
            guard = ta if op == '&&' else Not(ta)
            s1 = s.copy()
            nf = len(s1.facts)
            s1.facts.append(guard)
            s1.pc.append(guard)
            rs = self.ev(s1, n.c[1])
            if len(rs) == 1 and self.same_state(s, rs[0][0]):
                s2, b = rs[0]
                tb = self.truth(s2, self.rv(s2, b, n))
                # keep the facts learnt under the guard, guarded
                base = s.copy()
                base.H = s2.H
                new = s2.facts[nf + 1:]
                for f in new:
                    base.facts.append(Implies(guard, f))
                r = And(ta, tb) if op == '&&' else Or(ta, tb)
                out.append((base, self.b2i(r)))
            else:
                for s2, b in rs:
                    if self.feasible(s2):
                        out.append((s2, self.b2i(self.truth(s2, self.rv(s2, b, n)))))
                s.facts.append(Not(guard))
                s.pc.append(Not(guard))
                if self.feasible(s):
                    out.append((s, IV(0 if op == '&&' else 1)))
        return out

    def e_ConditionalOperator(self, st, n):
        out = []
        for s, a in self.ev(st, n.c[0]):
            c = self.truth(s, self.rv(s, a, n))
            if z3.is_true(c):
                out += self.ev(s, n.c[1])
                continue
            if z3.is_false(c):
                out += self.ev(s, n.c[2])
                continue
            s1, s2 = s.copy(), s.copy()
            nf = len(s.facts)
            s1.facts.append(c)
            s2.facts.append(Not(c))
            s1.pc.append(c)
            s2.pc.append(Not(c))
            r1, r2 = self.ev(s1, n.c[1]), self.ev(s2, n.c[2])
            if len(r1) == 1 and len(r2) == 1 and self.same_state(s, r1[0][0]) and self.same_state(s, r2[0][0]):
                v1, v2 = self.rv(r1[0][0], r1[0][1], n), self.rv(r2[0][0], r2[0][1], n)
                if z3.is_expr(v1) and z3.is_expr(v2):
                    base = s.copy()
                    base.H.update(r1[0][0].H)
                    base.H.update(r2[0][0].H)
                    for f in r1[0][0].facts[nf + 1:]:
                        base.facts.append(Implies(c, f))
                    for f in r2[0][0].facts[nf + 1:]:
                        base.facts.append(Implies(Not(c), f))
                    out.append((base, ite(c, v1, v2)))
                    continue
            for s3, v in r1 + r2:
                if self.feasible(s3):
                    out.append((s3, v))
        return out

    def e_UnaryExprOrTypeTraitExpr(self, st, n):
        if 'argType' in n.a:
            return [(st, IV(self.P.sizeof(self.P.ty(n.a['argType']))))]
        c = n.c[0]
        while c.k == 'ParenExpr':
            c = c.c[0]
        return [(st, IV(self.P.sizeof(self.P.ty(c.t))))]

    def e_StmtExpr(self, st, n):
        # value of the last expression statement
        body = n.c[0]
        sts = [st]
        for x in body.c[:-1]:
            nxt = []
            for s in sts:
                for s2, sig in self.ex(s, x):
                    if sig is not None:
                        raise Unsupported('control flow out of statement expression')
                    nxt.append(s2)
            sts = nxt
        out = []
        for s in sts:
            last = body.c[-1]
            if last.k.endswith('Stmt'):
                for s2, sig in self.ex(s, last):
                    if sig is not None:
                        raise Unsupported('control flow out of statement expression')
                    out.append((s2, IV(0)))
            else:
                out += self.ev(s, last)
        return out

    # ------------------------------------------------------------------ calls
    def callee_name(self, n):
        c = n.c[0]
        while c.k in ('ImplicitCastExpr', 'ParenExpr'):
            c = c.c[0]
        if c.k == 'DeclRefExpr' and c.a['ref'][0] == 'FunctionDecl':
            return c.a['ref'][1]
        return None

    def e_CallExpr(self, st, n):
        name = self.callee_name(n)
        if name in ('rmc_log', 'printf', 'fprintf', 'perror'):
            return [(st, IV(0))]
        if name == '__assert_fail':
            self.oblige(st, FALSE, 'assertion holds', n)
            st.dead = True
            return []
        if name in ('exit', 'abort', '_exit'):
            self.opts.get('on_exit', lambda *a: None)(self, st, n)
            return []
        out = []
        if name is not None:
            for s, args in self.evs(st, n.c[1:]):
                args = [self.rv(s, v, n) for v in args]
                out += self.call_named(s, name, args, n)
            return out
        # indirect call
        role = self.callee_role(n.c[0])
        for s, vals in self.evs(st, n.c):
            f, args = vals[0], [self.rv(s, v, n) for v in vals[1:]]
            f = self.rv(s, f, n)
            out += self.call_ptr(s, f, role, args, n)
        return out

    def callee_role(self, c):
        while c.k in ('ImplicitCastExpr', 'ParenExpr') or (c.k == 'UnaryOperator' and c.a['opcode'] == '*'):
            c = c.c[0]
        if c.k == 'MemberExpr':
            return c.a['name']
        if c.k == 'DeclRefExpr':
            return c.a['ref'][1]
        return None

    def fn_from_term(self, t):
        """function whose address is the numeral t"""
        v = num(t)
        if v is None:
            return None
        for (f, nm), F in self.P.fns.items():
            if self.fnaddr(nm).as_long() == v:
                return nm
        return None

    def call_ptr(self, st, f, role, args, n):
        if isinstance(f, FnPtr):
            return self.call_named(st, f.fn, args, n)
        # split ite(c, fn1, fn2)
        if z3.is_expr(f) and f.decl().kind() == z3.Z3_OP_ITE and self.opts.get('split_fp', True):
            pass
        nm = self.fn_from_term(f)
        if nm:
            return self.call_named(st, nm, args, n)
        ext = self.externs.get('*' + str(role))
        if ext is None:
            for pat, e in self.externs.items():
                if pat.startswith('*~') and re.search(pat[2:], str(role)):
                    ext = e
                    break
        if ext is None:
            raise Unsupported('call through pointer ' + str(role))
        self.used_externs.add('callback ' + str(role))
        if not isinstance(f, Ref):
            self.nonnull(st, f, n)
        return ext(self, st, [f] + args, n)

    def spec_for(self, F, name):
        if F is not None:
            sp = self.specs.get(F.file + ':' + name) or self.specs.get(name)
        else:
            sp = self.specs.get(name)
        return sp

    def call_named(self, st, name, args, n):
        F = self.P.find(name, self.stack[-1].file if self.stack else None)
        sp = self.spec_for(F, name) if F is not None else None
        if sp is not None and not sp.inline and not (self.opts.get('inline_all')):
            if sp.applies(self, st, args):
                return self.call_spec(st, F, sp, args, n)
        if name in self.externs:
            self.used_externs.add(name)
            return self.externs[name](self, st, args, n)
        if F is not None:
            if any(F is x for x in self.stack):
                raise Unsupported('recursion in ' + name)
            if len(self.stack) > 14:
                raise Unsupported('call depth')
            self.inlined.add(F.key)
            return self.call_inline(st, F, args, n)
        raise Unsupported('external function ' + name)

    def call_spec(self, st, F, sp, args, n):
        self.called_specs.add(sp.key)
        args = [self.fnval(a) for a in args]
        args = sp.fix_args(self, st, args)
        S0 = View(self, dict(st.H))
        c = Ctx(self, S0, S0, args)
        c.st = st
        c.fn = F
        sp.setup(c)
        for lab, g in sp.pre(c):
            self.oblige(st, g, 'precondition of %s: %s' % (F.name, lab), n, kind='safety')
        for inv in sp.invs(c):
            for lab, g in inv.conj(c.S0):
                self.oblige(st, g, 'precondition of %s: invariant %s' % (F.name, lab), n, kind='callinv')
        outs = []
        for case in sp.cases(c):
            s = st.copy() if case is not None else st
            H1 = s.H
            before = dict(s.H)
            c1 = Ctx(self, S0, View(self, H1), args)
            c1.st = s
            c1.fn = F
            c1.case = case
            c1.vals = dict(c.vals)
            if sp.verify_cases:
                cf = sp.case_facts(c1)
                s.facts += cf
                if not self.feasible(s):
                    continue
            rt = self.P.ty(F.ret)
            if rt[0] != 'void':
                c1.r = sp.ret_term(c1) if hasattr(sp, 'ret_term') and sp.ret_term(c1) is not None else fresh('r.' + F.name)
                self.rng(s, c1.r, rt)
            for m in sp.mods(c1):
                self.havoc(s, m)
            sp.ghost(c1)
            self.name_heaps(s, before)
            for f in c1.facts:
                self.assume(s, f)
            for lab, g in sp.post_all(c1):
                self.assume(s, g)
            for inv in sp.invs(c1):
                for lab, g in inv.conj(c1.S1):
                    self.assume(s, g)
            for t in sp.hints(c1):
                s.facts.append(HINT(t) == t)
            for b in sp.new_regions(c1):
                s.regions.append(b)
            self.name_heaps(s, before)
            for k, v in H1.items():
                if k in before and not before[k].eq(v):
                    s.written.append((k, None))
                elif k not in before and not str(v).endswith('@0'):
                    s.written.append((k, None))
            if case is not None and not sp.verify_cases and not self.feasible(s):
                continue
            outs.append((s, c1.r if c1.r is not None else IV(0)))
        return outs

    def pure_call(self, S, name, args):
        """value of the pure function `name` in heap S as one term (its body is executed symbolically)"""
        key = (name, tuple(a.get_id() if z3.is_expr(a) else a for a in args), tuple(sorted((k, v.get_id()) for k, v in S.H.items())))
        if key in self._pure:
            return self._pure[key][0]
        F = self.P.find(name, self.stack[-1].file if self.stack else None)
        if F is None:
            raise Unsupported('comparison function ' + name)
        st = State()
        st.H = dict(S.H)
        sc, sn = self.collect, self.no_rng
        self.collect, self.no_rng = False, True
        try:
            outs = self.call_named(st, name, [term(a) for a in args], None)
        finally:
            self.collect, self.no_rng = sc, sn
        r = None
        for s, v in reversed(outs):
            if not z3.is_expr(v):
                raise Unsupported('comparison function value')
            if any(k in S.H and not v2.eq(S.H[k]) for k, v2 in s.H.items()):
                raise Unsupported('comparison function with side effects: ' + name)
            cond = And(*s.pc) if s.pc else TRUE
            r = v if r is None else ite(cond, v, r)
        for k, v in st.H.items():
            S.H.setdefault(k, v)
        self._pure[key] = (r, args, dict(S.H))
        return r

    def name_heaps(self, st, before):
        """give heaps that are store terms a name, so that they can occur in patterns"""
        for k, v in list(st.H.items()):
            if z3.is_const(v) or (k in before and before[k].eq(v)):
                continue
            c = fresh(k, v.sort())
            st.facts.append(c == v)
            if v.decl().kind() == z3.Z3_OP_STORE:
                ALIAS[c.get_id()] = (c, v)
            st.H[k] = c

    def fnval(self, a):
        return a

    def havoc(self, st, m):
        """m: ('all', heap) | ('at', heap, addr) | ('bytes', base, len) """
        if m[0] == 'all':
            sort = self.heap(st.H, m[1]).sort()
            st.H[m[1]] = fresh(m[1], sort)
            st.written.append((m[1], None))
        elif m[0] == 'at':
            if isinstance(m[2], Ref):
                self.store(st, m[2].lv, fresh('hv'))
                return
            st.H[m[1]] = store(self.heap(st.H, m[1]), m[2], fresh(m[1]))
            st.written.append((m[1], m[2]))
        elif m[0] == 'bytes':
            M = self.heap(st.H, 'M')
            M2 = fresh('M', AI)
            x = z3.Int('x')
            st.facts.append(forall([x], Implies(Or(x < m[1], x >= m[1] + m[2]), z3.Select(M2, x) == z3.Select(M, x)),
                                   [z3.Select(M2, x)]))
            st.H['M'] = M2
            st.written.append(('M', None))
        elif m[0] == 'M':
            st.H['M'] = fresh('M', AI)
            st.written.append(('M', None))
        else:
            raise Unsupported('havoc %s' % (m,))

    def call_inline(self, st, F, args, n):
        self.stack.append(F)
        depth = len(self.stack)
        try:
            self.bind_params(st, F, args)
            out = []
            for s, sig in self.ex(st, F.body):
                v = IV(0)
                if sig is not None:
                    if sig[0] == 'return':
                        v = sig[1] if sig[1] is not None else IV(0)
                    else:
                        raise Unsupported('signal %s out of function' % (sig[0],))
                for k in [k for k in s.env if isinstance(k, tuple) and k[0] == depth]:
                    del s.env[k]
                out.append((s, v))
            return out
        finally:
            self.stack.pop()

    def bind_params(self, st, F, args):
        taken = self.addr_taken(F)
        for p, v in zip(F.params, args):
            key = self.varkey(p.a['id'])
            t = self.P.ty(p.t)
            v = self.rv(st, v)
            if p.a['id'] in taken or t[0] == 'struct' or isinstance(v, SV):
                a = IV(self.alloc_local())
                st.env[key] = ('mem', a, t)
                self.local_region(st, a, t)
                self.store(st, self.lv_of_addr(st, a, t, p), v)
            else:
                st.env[key] = v

    def addr_taken(self, F):
        if F.key in self.addr_taken_cache:
            return self.addr_taken_cache[F.key]
        res = set()

        def walk(n):
            if n.k == 'UnaryOperator' and n.a['opcode'] == '&':
                c = n.c[0]
                while c.k == 'ParenExpr':
                    c = c.c[0]
                # &x, &x.f, &x[i]
                while c.k in ('MemberExpr', 'ParenExpr') and not c.a.get('isArrow'):
                    c = c.c[0]
                if c.k == 'DeclRefExpr' and c.a['ref'][0] in ('VarDecl', 'ParmVarDecl'):
                    res.add(c.a['ref'][2])
            for x in n.c:
                if x is not None:
                    walk(x)
        walk(F.body)
        self.addr_taken_cache[F.key] = res
        return res

    # ------------------------------------------------------------------ statements
    # ex(state, stmt) -> list of (state, signal);  signal None | ('return',v) | ('break',) | ('continue',) | ('goto',id)
    def ex(self, st, n):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('symbolic execution time limit')
        m = getattr(self, 's_' + n.k, None)
        if m is None:
            # expression statement
            return [(s, None) for s, _ in self.ev(st, n)]
        return m(st, n)

    def s_CompoundStmt(self, st, n):
        return self.ex_seq(st, n.c, 0)

    def ex_seq(self, st, stmts, start):
        out = []
        cur = [st]
        i = start
        pending = {}   # goto label -> states
        while i < len(stmts):
            x = stmts[i]
            if x.k == 'LabelStmt' and x.a.get('declId') in pending:
                cur = cur + pending.pop(x.a['declId'])
            nxt = []
            for s in cur:
                for s2, sig in self.ex(s, x):
                    if sig is None:
                        nxt.append(s2)
                    elif sig[0] == 'goto':
                        # forward goto to a label in this sequence
                        if any(y.k == 'LabelStmt' and y.a.get('declId') == sig[1] for y in stmts[i + 1:]):
                            pending.setdefault(sig[1], []).append(s2)
                        else:
                            out.append((s2, sig))
                    else:
                        out.append((s2, sig))
            cur = nxt
            i += 1
        out += [(s, None) for s in cur]
        return out

    def s_LabelStmt(self, st, n):
        return self.ex(st, n.c[0])

    def s_GotoStmt(self, st, n):
        return [(st, ('goto', n.a['targetLabelDeclId']))]

    def s_NullStmt(self, st, n):
        return [(st, None)]

    def s_BreakStmt(self, st, n):
        return [(st, ('break',))]

    def s_ContinueStmt(self, st, n):
        return [(st, ('continue',))]

    def s_ReturnStmt(self, st, n):
        if not n.c:
            return [(st, ('return', None))]
        out = []
        for s, v in self.ev(st, n.c[0]):
            out.append((s, ('return', self.rv(s, v, n))))
        return out

    def s_DeclStmt(self, st, n):
        cur = [st]
        for d in n.c:
            if d.k != 'VarDecl':
                continue
            nxt = []
            for s in cur:
                nxt += self.decl(s, d)
            cur = nxt
        return [(s, None) for s in cur]

    def decl(self, st, d):
        F = self.stack[-1]
        taken = self.addr_taken(F)
        vid = d.a['id']
        key = self.varkey(vid)
        ts = d.t
        m = re.match(r'^(.*)\[(.*)\]$', ts)
        init = d.c[0] if d.c and 'init' in d.a else None
        if d.a.get('storageClass') == 'static':
            return self.decl_static(st, d, init)
        if m and not m.group(2).isdigit() and m.group(2) != '':
            # variable length array: the size is a variable or member path
            a = IV(self.alloc_local())
            et = self.P.ty(m.group(1))
            st.env[key] = ('mem', a, ('arr', et, None))
            if self.is_bytes(et):
                sz = self.eval_path(st, m.group(2))
                if sz is not None:
                    self.oblige(st, And(sz >= 0, sz < LOCAL_STEP), 'size of variable length array is bounded', d)
                    st.regions.append((a, sz))
            return [st]
        t = self.P.ty(ts)
        ismem = vid in taken or t[0] in ('struct', 'arr')
        if init is None:
            if ismem:
                a = IV(self.alloc_local())
                if t[0] == 'struct':
                    # a local object is not part of any other object
                    self.axioms.append(z3.Function('tagof', I, I)(a) == 0)
                st.env[key] = ('mem', a, t)
                self.local_region(st, a, t)
            else:
                v = fresh('uninit.' + d.a.get('name', ''))
                st.env[key] = v
                self.rng(st, v, t)
            return [st]
        out = []
        for s, v in self.ev_init(st, init, t):
            v = self.rv(s, v, d) if not isinstance(v, list) else v
            if ismem:
                a = IV(self.alloc_local())
                s.env[key] = ('mem', a, t)
                self.local_region(s, a, t)
                if t[0] == 'arr':
                    if isinstance(v, list):
                        for i, x in enumerate(v):
                            self.store(s, self.index(s, a, IV(i), t[1], d), x, d)
                    else:
                        raise Unsupported('array initialiser')
                else:
                    self.store(s, self.lv_of_addr(s, a, t, d), v, d)
            else:
                s.env[key] = v
            out.append(s)
        return out

    def local_region(self, st, a, t):
        if self.is_bytes(t) or (t[0] == 'arr' and self.is_bytes(t[1])) or (t[0] == 'struct' and self.P.packed(t[1])):
            st.regions.append((a, IV(self.P.sizeof(t))))

    def eval_path(self, st, txt):
        parts = re.split(r'(->|\.)', txt.strip())
        if not all(re.match(r'^(\w+|->|\.)$', x) for x in parts):
            return None
        F = self.stack[-1]
        ids = {p.a.get('name'): p for p in F.params}

        def w(x):
            if x.k == 'VarDecl':
                ids[x.a.get('name')] = x
            for y in x.c:
                if y is not None:
                    w(y)
        w(F.body)
        if parts[0] not in ids:
            return None
        d = ids[parts[0]]
        key = self.varkey(d.a['id'])
        v = st.env.get(key)
        if v is None:
            return None
        lv = self.lv_of_addr(st, v[1], v[2], d) if isinstance(v, tuple) else ('env', key)
        t = self.P.ty(d.t)
        for op, f in zip(parts[1::2], parts[2::2]):
            if op == '->':
                lv = self.lv_of_addr(st, self.load(st, lv, d), t[1], d)
                t = t[1]
            lv = self.member(st, lv, f, d)
            t = self.P.fieldty(t[1], f)
        return self.load(st, lv, d)

    def decl_static(self, st, d, init):
        """static local with a constant initialiser (dispatch tables): assumed never written"""
        t = self.P.ty(d.t)
        key = self.varkey(d.a['id'])
        a = IV(STATIC_BASE + 64 * LOCAL_STEP * (1 + self.tagid(self.stack[-1].key + d.a['name']) % 65536))
        st.env[key] = ('mem', a, t)
        out = []
        if init is None:
            raise Unsupported('static local without initialiser')
        for s, v in self.ev_init(st, init, t):
            if isinstance(v, list):
                for i, x in enumerate(v):
                    self.store(s, self.index(s, a, IV(i), t[1], d), x, d)
            else:
                self.store(s, self.lv_of_addr(s, a, t, d), v, d)
            out.append(s)
        return out

    def is_log_if(self, n):
        """if (_rmc_log_level >= ...) rmc_log(...)"""
        c = n.c[0]
        found = []

        def w(x):
            if x.k == 'DeclRefExpr' and x.a['ref'][1] == '_rmc_log_level':
                found.append(1)
            for y in x.c:
                if y is not None:
                    w(y)
        w(c)
        if not found or len(n.c) != 2:
            return False
        b = n.c[1]
        while b.k == 'CompoundStmt' and len([x for x in b.c if x.k != 'NullStmt']) == 1:
            b = [x for x in b.c if x.k != 'NullStmt'][0]
        return b.k == 'CallExpr' and self.callee_name(b) == 'rmc_log'

    def s_IfStmt(self, st, n):
        if self.is_log_if(n):
            return [(st, None)]
        out = []
        for s, v in self.ev(st, n.c[0]):
            c = self.truth(s, self.rv(s, v, n))
            nf, pc = len(s.facts), list(s.pc)
            o = self.branch(s, c, n.c[1], n.c[2] if len(n.c) > 2 else None, n)
            if getattr(self.curspec, 'merge', False) and len(o) == 2 and len(self.stack) == 1:
                o = self.merge(o, c, nf, pc) or o
            out += o
        return out

    def merge(self, outs, c, nf, pc):
        """join the two ends of an if statement into one state"""
        (s1, g1), (s2, g2) = outs
        if g1 is not None or g2 is not None or len(s1.regions) != len(s2.regions) or not (s1.facts[nf].eq(c) and s2.facts[nf].eq(Not(c))):
            return None
        m = s2.copy()
        m.pc = pc
        m.facts = s1.facts[:nf] + [Implies(c, f) for f in s1.facts[nf + 1:]] + [Implies(Not(c), f) for f in s2.facts[nf + 1:]]
        m.env = {}
        for k in s1.env:
            if k not in s2.env:
                continue
            a, b = s1.env[k], s2.env[k]
            if z3.is_expr(a) and z3.is_expr(b):
                if a.sort() != b.sort():
                    return None
                m.env[k] = a if a.eq(b) else z3.If(c, a, b)
            elif isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'mem' and a[1].eq(b[1]):
                m.env[k] = a
            elif a is b:
                m.env[k] = a
            else:
                return None
        for k in set(s1.H) | set(s2.H):
            a, b = self.heap(s1.H, k), self.heap(s2.H, k)
            if a.eq(b):
                m.H[k] = a
                continue
            h = fresh(k, a.sort())
            for x, y, cc in ((a, b, True), (b, a, False)):
                if x.decl().kind() == z3.Z3_OP_STORE and x.arg(0).eq(y):
                    h = store(y, x.arg(1), z3.If(c if cc else Not(c), x.arg(2), z3.Select(y, x.arg(1))))
                    break
            else:
                m.facts += [Implies(c, h == a), Implies(Not(c), h == b)]
            m.H[k] = h
        m.ranged, m.nn = s1.ranged & s2.ranged, s1.nn & s2.nn
        m.written = s1.written + s2.written
        return [(m, None)]

    def branch(self, s, c, a, b, n):
        cs = z3.simplify(c) if not (z3.is_true(c) or z3.is_false(c)) else c
        if z3.is_true(cs):
            return self.ex(s, a)
        if z3.is_false(cs):
            return self.ex(s, b) if b is not None else [(s, None)]
        s1, s2 = s.copy(), s
        s1.facts.append(c)
        s1.pc.append(c)
        s2.facts.append(Not(c))
        s2.pc.append(Not(c))
        out = []
        if self.feasible(s1):
            out += self.ex(s1, a)
        if self.feasible(s2):
            out += self.ex(s2, b) if b is not None else [(s2, None)]
        return out

    def s_SwitchStmt(self, st, n):
        out = []
        body = n.c[-1]
        labels = []   # (value or None, index)

        def unwrap(x, i, acc):
            while x.k in ('CaseStmt', 'DefaultStmt'):
                if x.k == 'CaseStmt':
                    acc.append((x.c[0], i))
                    x = x.c[-1]
                else:
                    acc.append((None, i))
                    x = x.c[-1]
            return x
        stm = []
        for i, x in enumerate(body.c):
            stm.append(unwrap(x, i, labels))
        for s, v in self.ev(st, n.c[0]):
            v = self.rv(s, v, n)
            rest = s
            cases = []
            default = None
            for e, i in labels:
                if e is None:
                    default = i
                    continue
                (s_, cv), = self.ev(rest, e)
                cases.append((v == cv, i))
            neg = []
            starts = []
            for c, i in cases:
                s1 = rest.copy()
                s1.facts.append(c)
                if self.feasible(s1):
                    starts.append((s1, i))
                neg.append(Not(c))
            s0 = rest.copy()
            s0.facts += neg
            if self.feasible(s0):
                starts.append((s0, default))
            for s1, i in starts:
                if i is None:
                    out.append((s1, None))
                    continue
                for s2, sig in self.ex_seq(s1, stm, i):
                    out.append((s2, None if sig is not None and sig[0] == 'break' else sig))
        return out

    # ------------------------------------------------------------------ loops
    def s_WhileStmt(self, st, n):
        return self.loop(st, n.c[0], n.c[-1], None, n, False)

    def s_ForStmt(self, st, n):
        init, cvar, cond, inc, body = n.c
        if cvar is not None:
            raise Unsupported('condition variable')
        out = []
        starts = [(st, None)] if init is None else self.ex(st, init)
        for s, sig in starts:
            if sig is not None:
                out.append((s, sig))
                continue
            out += self.loop(s, cond, body, inc, n, False)
        return out

    def s_DoStmt(self, st, n):
        out = []
        # do B while(C)  ==  B; while(C) B
        for s, sig in self.ex(st, n.c[0]):
            if sig is not None and sig[0] == 'break':
                out.append((s, None))
            elif sig is not None and sig[0] == 'continue' or sig is None:
                out += self.loop(s, n.c[1], n.c[0], None, n, False)
            else:
                out.append((s, sig))
        return out

    def assigned_vars(self, *nodes):
        res = set()

        def base(c):
            while c.k in ('ParenExpr',):
                c = c.c[0]
            if c.k == 'DeclRefExpr':
                res.add(c.a['ref'][2])

        def walk(n):
            if n is None:
                return
            if n.k in ('BinaryOperator',) and n.a['opcode'] == '=':
                base(n.c[0])
            elif n.k == 'CompoundAssignOperator':
                base(n.c[0])
            elif n.k == 'UnaryOperator' and n.a['opcode'] in ('++', '--'):
                base(n.c[0])
            for x in n.c:
                if x is not None:
                    walk(x)
        for n in nodes:
            walk(n)
        return res

    def eval_cond(self, st, cond):
        if cond is None:
            return [(st, TRUE)]
        out = []
        for s, v in self.ev(st, cond):
            out.append((s, self.truth(s, self.rv(s, v, cond))))
        return out

    def loop(self, st, cond, body, inc, n, _):
        # constant-controlled loops (dispatch tables) are unrolled completely as long as
        # every iteration's condition is decided by constants
        r = self.try_unroll(st, cond, body, inc, n)
        if r is not None:
            return r
        return self.loop_inv(st, cond, body, inc, n)

    def try_unroll(self, st, cond, body, inc, n):
        """execute the loop concretely while its condition simplifies to a constant; None if not"""
        saved = (len(self.obls), self.local_next)
        out = []
        cur = [st.copy()]
        try:
            for it in range(12):
                nxt = []
                for s in cur:
                    for s2, c in self.eval_cond(s, cond):
                        c = z3.simplify(c)
                        if z3.is_false(c):
                            out.append((s2, None))
                            continue
                        if not z3.is_true(c):
                            del self.obls[saved[0]:]
                            return None
                        if cond is None or self.is_const_cond(cond):
                            del self.obls[saved[0]:]
                            return None
                        for s3, sig in self.ex(s2, body):
                            if sig is None or sig[0] == 'continue':
                                if inc is not None:
                                    for s4, _v in self.ev(s3, inc):
                                        nxt.append(s4)
                                else:
                                    nxt.append(s3)
                            elif sig[0] == 'break':
                                out.append((s3, None))
                            else:
                                out.append((s3, sig))
                cur = nxt
                if not cur:
                    return out
        except Unsupported:
            pass
        del self.obls[saved[0]:]
        return None

    def is_const_cond(self, c):
        while c.k in ('ParenExpr', 'ImplicitCastExpr'):
            c = c.c[0]
        return c.k == 'IntegerLiteral'

    def decide(self, jobs):
        """[(facts, goal, timeout)] -> [proved?], by several processes if the contract asks for it"""
        def one(j):
            return z3.is_true(j[1]) or self.check_goal(*j) == z3.unsat
        k = min(getattr(self.curspec, 'fork', 1), len(jobs) // 3)
        if k < 2:
            return [one(j) for j in jobs]
        kids = []
        for w in range(k):
            r, wr_ = os.pipe()
            pid = os.fork()
            if pid == 0:
                out = b''
                try:
                    out = b''.join(b'1' if one(j) else b'0' for j in jobs[w::k])
                finally:
                    os.write(wr_, out)
                    os._exit(0)
            os.close(wr_)
            kids.append((pid, r))
        res = [False] * len(jobs)
        for w, (pid, r) in enumerate(kids):
            with os.fdopen(r, 'rb') as f:
                d = f.read()
            os.waitpid(pid, 0)
            for i, ch in enumerate(d):
                res[w + i * k] = ch == 49
        return res

    def loop_inv(self, st, cond, body, inc, n):
        depth = len(self.stack)
        mods = {self.varkey(v) for v in self.assigned_vars(cond, body, inc)}
        modenv = [k for k in st.env if k in mods and not (isinstance(st.env[k], tuple))]
        # ---- find the heaps the body may change (fixpoint of dry runs)
        wset = {}     # heap -> set of numeral addresses or None (= everything)
        saved_collect = self.collect
        self.collect = False
        try:
            for _ in range(6):
                s = st.copy()
                self.loop_havoc(s, modenv, wset)
                s.written = []
                new = {}
                for s2, sig in self.loop_body(s, cond, body, inc, n):
                    if sig is not None:
                        continue      # leaves the loop: its effects are not part of the iteration
                    for w in s2.written:
                        a = num(w[1]) if w[1] is not None and z3.is_expr(w[1]) else None
                        if w[0] == 'M' and len(w) > 2 and a is not None:
                            new.setdefault('M', set())
                            if new['M'] is not None:
                                new['M'].add((a, w[2]))
                        elif a is not None:
                            new.setdefault(w[0], set())
                            if new[w[0]] is not None:
                                new[w[0]].add(a)
                        else:
                            new[w[0]] = None
                changed = False
                for k, v in new.items():
                    if k not in wset:
                        wset[k] = v
                        changed = True
                    elif wset[k] is not None:
                        if v is None:
                            wset[k] = None
                            changed = True
                        elif not v <= wset[k]:
                            wset[k] = wset[k] | v
                            changed = True
                if not changed:
                    break
            else:
                raise Unsupported('loop write set does not stabilise')
            # ---- Houdini
            entry = st
            E = View(self, dict(entry.H))
            cands = self.candidates(entry, E, modenv, wset, cond, body, inc, n)
            live = []
            patience = getattr(self.curspec, 'patience', 1500)
            todo = []
            for lab, fn in cands:
                try:
                    g = fn(View(self, entry.H), entry.env)
                except Unsupported:
                    continue
                except KeyError:
                    continue
                if g is None:
                    continue
                todo.append((lab, fn, g))
            oks = self.decide([(entry.facts, g, patience if isinstance(lab, Own) else min(patience, 1500)) for lab, fn, g in todo])
            for (lab, fn, g), ok in zip(todo, oks):
                if ok:
                    live.append((lab, fn))
                else:
                    self.opts.get('dbg', lambda *a: None)('  not on entry: ' + lab)
            self.opts.get('dbg', lambda *a: None)('loop %s entry: %d/%d candidates' % (self.loc(n), len(live), len(cands)))
            for rnd in range(12):
                s = st.copy()
                self.loop_havoc(s, modenv, wset)
                self.assume_cands(s, live)
                outs = self.loop_body(s, cond, body, inc, n)
                drop = set()
                for s2, sig in outs:
                    if sig is not None and sig[0] not in ('continue',):
                        continue
                    js = [i for i in range(len(live)) if i not in drop]
                    oks = self.decide([(s2.facts, live[i][1](View(self, s2.H), s2.env), min(patience, 2000) if live[i][0].startswith(('var', 'cell.')) else patience) for i in js])
                    drop |= {i for i, ok in zip(js, oks) if not ok}
                if not drop:
                    break
                self.opts.get('dbg', lambda *a: None)('  drop: %s' % [live[i][0] for i in drop])
                live = [x for i, x in enumerate(live) if i not in drop]
            else:
                live = []
        finally:
            self.collect = saved_collect
        self.loop_log.append((self.loc(n), [l for l, _ in live]))
        self.opts.get('dbg', lambda *a: None)('loop %s invariants: %s' % (self.loc(n), [l for l, _ in live]))
        # ---- the real pass: entry obligations, arbitrary iteration, exit
        for lab, fn in live:
            self.oblige(st, fn(View(self, st.H), st.env), 'loop invariant holds on entry: ' + lab, n, kind='loop')
        s = st.copy()
        self.loop_havoc(s, modenv, wset)
        self.assume_cands(s, live)
        measures = self.measures(st, s, cond, n)
        mvals0 = None
        out = []
        head = s.copy()
        for s2, c in self.eval_cond(s, cond):
            # exit
            se = s2.copy()
            se.facts.append(Not(c))
            if not z3.is_true(c) and self.feasible(se):
                out.append((se, None))
            # iterate
            sb = s2
            sb.facts.append(c)
            if z3.is_false(c) or not self.feasible(sb):
                continue
            mv0 = [(lab, fn(View(self, head.H), head.env)) for lab, fn in measures]
            ends = []
            for s3, sig in self.ex(sb, body):
                if sig is None or sig[0] == 'continue':
                    if inc is not None:
                        for s4, _v in self.ev(s3, inc):
                            ends.append(s4)
                    else:
                        ends.append(s3)
                elif sig[0] == 'break':
                    out.append((s3, None))
                else:
                    out.append((s3, sig))
            for s3 in ends:
                for lab, fn in live:
                    self.oblige(s3, fn(View(self, s3.H), s3.env), 'loop invariant preserved: ' + lab, n, kind='loop')
            if self.collect and self.opts.get('termination', True) and ends:
                self.terminates(ends, mv0, measures, n)
        return out

    def terminates(self, ends, mv0, measures, n):
        """one candidate measure must decrease on every path and be bounded below"""
        for i, (lab, m0) in enumerate(mv0):
            ok = True
            gs = []
            for s3 in ends:
                m1 = measures[i][1](View(self, s3.H), s3.env)
                if isinstance(m1, tuple):
                    g = Or(And(m1[0] < m0[0], m0[0] >= 0), And(m1[0] == m0[0], m1[1] < m0[1], m0[1] >= 0))
                else:
                    g = And(m1 < m0, m0 >= 0)
                gs.append((s3, g))
                if self.check_goal(s3.facts, g, 1500) != z3.unsat:
                    ok = False
                    break
            if ok:
                for s3, g in gs:
                    self.oblige(s3, g, 'loop terminates: %s decreases' % lab, n, kind='term')
                return
        self.obls.append(Obligation([], FALSE, 'loop terminates (no decreasing measure found)', self.loc(n), (), 'term'))

    def loop_havoc(self, st, modenv, wset):
        for k in modenv:
            if k in st.env and z3.is_expr(st.env[k]):
                v = fresh('lv')
                st.env[k] = v
                ty = self.vartype.get(k) if hasattr(self, 'vartype') else None
                t = self.var_ty(k)
                if t:
                    self.rng(st, v, t)
            elif k in st.env and isinstance(st.env[k], (Ref, FnPtr)):
                raise Unsupported('loop changes a pointer to a field')
        for h, addrs in wset.items():
            if addrs is None:
                st.H[h] = fresh(h, self.heap(st.H, h).sort())
            elif h == 'M':
                for a, ln in addrs:
                    for i in range(ln if isinstance(ln, int) else 0):
                        b = fresh('byte')
                        st.facts.append(And(b >= 0, b <= 255))
                        st.H['M'] = store(self.heap(st.H, 'M'), IV(a + i), b)
            else:
                for a in addrs:
                    st.H[h] = store(self.heap(st.H, h), IV(a), fresh(h + '.at'))
        self.name_heaps(st, {})

    def var_ty(self, key):
        vid = key[1]
        if not hasattr(self, '_vty'):
            self._vty = {}
        if vid not in self._vty:
            for F in self.stack:
                for p in F.params:
                    self._vty[p.a['id']] = self.P.ty(p.t)

                def w(n):
                    if n.k == 'VarDecl':
                        try:
                            self._vty[n.a['id']] = self.P.ty(n.t)
                        except Unsupported:
                            pass
                    for x in n.c:
                        if x is not None:
                            w(x)
                w(F.body)
        return self._vty.get(vid)

    def assume_cands(self, s, live):
        for lab, fn in live:
            g = fn(View(self, s.H), s.env)
            self.assume(s, g)

    def loop_body(self, s, cond, body, inc, n):
        """one iteration from the (havocked) head, returns states at the back edge and other exits"""
        out = []
        for s2, c in self.eval_cond(s, cond):
            s2.facts.append(c)
            if z3.is_false(c) or not self.feasible(s2):
                continue
            for s3, sig in self.ex(s2, body):
                if sig is None or sig[0] == 'continue':
                    if inc is not None:
                        for s4, _v in self.ev(s3, inc):
                            out.append((s4, None))
                    else:
                        out.append((s3, None))
                else:
                    out.append((s3, sig))
        return out

    def visible_vars(self, st):
        """(key, type, value) of scalar locals of the current function"""
        d = len(self.stack)
        res = []
        for k, v in st.env.items():
            if isinstance(k, tuple) and k[0] == d and z3.is_expr(v):
                t = self.var_ty(k)
                if t:
                    res.append((k, t, v))
        return res

    def candidates(self, st, E, modenv, wset, cond, body, inc, n):
        out = []
        d = len(self.stack)
        # frame for local cells in havocked heaps
        for h, addrs in wset.items():
            if addrs is not None:
                continue
            seen = set()
            t = st.H.get(h)
            while t is not None and t.decl().kind() == z3.Z3_OP_STORE:
                a, i, v = t.children()
                na = num(i)
                if na is not None and na < 0 and na not in seen:
                    seen.add(na)
                    out.append(('%s[local %d] unchanged' % (h, na),
                                (lambda h, i, v: lambda S, env: S.f(h, i) == v)(h, i, select(st.H[h], i))))
                t = a
            for v in st.env.values():
                if isinstance(v, tuple) and v[0] == 'mem' and v[2][0] in ('int', 'ptr') and h == self.cellname(v[2]) and num(v[1]) is not None and num(v[1]) not in seen:
                    seen.add(num(v[1]))
                    out.append(('%s[local %d] unchanged' % (h, num(v[1])), (lambda h, i, v: lambda S, env: S.f(h, i) == v)(h, v[1], select(st.H[h], v[1]))))
            if h == 'M':
                continue
            # only objects other than the pre-existing ones are written
        # integer variables
        ints = [(k, t, v) for k, t, v in self.visible_vars(st) if t[0] == 'int' and k in modenv]
        stable = [(k, t, v) for k, t, v in self.visible_vars(st) if t[0] == 'int' and k not in modenv]
        for k, t, v0 in ints:
            out.append(('var>=entry', (lambda k, v0: lambda S, env: env[k] >= v0)(k, v0)))
            out.append(('var<=entry', (lambda k, v0: lambda S, env: env[k] <= v0)(k, v0)))
            for k2, t2, v2 in stable:
                out.append(('var<=var', (lambda k, k2: lambda S, env: env[k] <= env[k2])(k, k2)))
                out.append(('var<=var+1', (lambda k, k2: lambda S, env: env[k] <= env[k2] + 1)(k, k2)))
        # pointer variables that are never null
        for k, t, v in self.visible_vars(st):
            if t[0] == 'ptr' and k in modenv:
                out.append(('ptr!=0', (lambda k: lambda S, env: env[k] != 0)(k)))
        sp = self.curspec
        if sp is not None:
            c = Ctx(self, self.entryS, View(self, st.H), self.entry_args)
            c.E = E
            c.st = st
            c.vals = self.entry_vals
            out += self.frame_candidates(sp, c, wset)
            out += sp.loop_candidates(self, c, st, E, modenv, wset, self.visible_vars(st))
        return out

    def frame_candidates(self, sp, c, wset):
        """heaps that the contract lets change at certain places only"""
        out = []
        try:
            ms = sp.mods(c)
        except Exception:
            return out
        x = z3.Int('x')
        byt = [m for m in ms if m[0] == 'bytes']
        if byt and wset.get('M', 0) is None and not any(m[0] == 'M' for m in ms):
            out.append(('nothing else in M is changed', lambda S, env: forall([x], Implies(And(x >= 0, *[Or(x < m[1], x >= m[1] + m[2]) for m in byt]), s_sel(S.h('M'), x) == s_sel(self.entryS.h('M'), x)), [s_sel(S.h('M'), x)])))
        for h, addrs in wset.items():
            if addrs is not None or h == 'M' or any(m[0] == 'all' and m[1] == h for m in ms):
                continue
            at = [m[2] for m in ms if m[0] == 'at' and m[1] == h and not isinstance(m[2], Ref)]
            if self.entryS.h(h).sort() != AI:
                continue
            x = z3.Int('x')

            def fr(S, env, h=h, at=at):
                return forall([x], Implies(And(x >= 0, *[x != a for a in at]), s_sel(S.h(h), x) == s_sel(self.entryS.h(h), x)), [s_sel(S.h(h), x)])
            out.append(('nothing else in %s is changed' % h, fr))
        return out

    def measures(self, entry, s, cond, n):
        out = []
        sp = self.curspec
        for k, t, v in self.visible_vars(s):
            if t[0] == 'int':
                out.append(('v', (lambda k: lambda S, env: term(env[k]))(k)))
        ints = [(k, t, v) for k, t, v in self.visible_vars(s) if t[0] == 'int']
        for k, t, v in ints:
            for k2, t2, v2 in ints:
                if k != k2:
                    out.append(('v2-v', (lambda k, k2: lambda S, env: env[k2] - env[k] + 1)(k, k2)))
        # v < bound in the condition
        if sp is not None:
            c = Ctx(self, self.entryS, View(self, s.H), self.entry_args)
            c.E = View(self, dict(entry.H))
            c.vals = self.entry_vals
            out = sp.loop_measures(self, c, s, self.visible_vars(s)) + out
        return out

    # ------------------------------------------------------------------ verify one function
    def verify(self, F, sp):
        self.obls, self.stack, self.curspec = [], [F], sp
        self.local_next = -LOCAL_STEP
        self.loop_log = []
        st = State()
        args = []
        for i, p in enumerate(F.params):
            t = self.P.ty(p.t)
            v = sp.param(self, st, i, t)
            if v is None:
                v = z3.Const('a%d.%s' % (i, F.name), I)
                self.rng(st, v, t)
                if t[0] == 'ptr':
                    st.facts.append(v >= 0)
            args.append(v)
        H0 = {}
        st.H = H0
        S0 = View(self, H0)
        c = Ctx(self, S0, S0, args)
        c.st = st
        c.fn = F
        c.entry = True
        self.entryS, self.entry_args = S0, args
        sp.setup(c)
        self.entry_vals = c.vals
        for ax in sp.axioms(c):
            self.assume(st, ax)
        for lab, g in sp.pre(c):
            self.assume(st, g)
        for inv in sp.invs(c):
            for lab, g in inv.conj(S0):
                self.assume(st, g)
        st.regions = list(sp.regions(c))
        if not self.feasible(st, 800):
            self.obls.append(Obligation([], FALSE, 'precondition is satisfiable (vacuity check)', F.name, (), 'vacuity'))
            return self.obls
        if sp.verify_cases:
            self.oblige(st, sp.exhaustive(c), 'the cases of the contract are exhaustive', None, kind='post')
        entryH = dict(st.H)
        st.H = dict(entryH)
        self.entryS = View(self, entryH)
        self.bind_params(st, F, args)
        ends = self.ex(st, F.body)
        self.npaths = len(ends)
        if not ends:
            self.obls.append(Obligation([], FALSE, 'function has a terminating path (vacuity check)', F.name, (), 'vacuity'))
        rt = self.P.ty(F.ret)
        for s, sig in ends:
            r = None
            if sig is not None and sig[0] == 'return':
                r = sig[1]
            elif sig is not None:
                raise Unsupported('signal %s out of function' % (sig[0],))
            elif rt[0] != 'void' and F.name != 'main':
                r = fresh('noret')
            if any(v.decl().kind() == z3.Z3_OP_STORE for v in s.H.values()):
                self.name_heaps(s, entryH)
            cases = [None]
            if sp.verify_cases:
                cases = sp.cases(None)
            for case in cases:
              sx = s.copy() if case is not None else s
              self.verify_exit(sx, F, sp, args, r, entryH, case)
        return self.obls

    def verify_exit(self, s, F, sp, args, r, entryH, case):
            c = Ctx(self, View(self, entryH), View(self, s.H), args, r)
            c.st = s
            c.fn = F
            c.vals = dict(self.entry_vals)
            c.entry = False
            c.case = case
            if case is not None:
                s.facts += sp.case_facts(c)
                if not self.feasible(s, 1500):
                    return
            sp.exit_setup(c)
            ghosts = sp.ghost_heaps(c)
            if all(self.heap(s.H, g).eq(self.heap(entryH, g)) for g in ghosts):
                sp.ghost(c)
                for f in c.facts:
                    self.assume(s, f)
            elif ghosts:
                sp.ghost_skipped(c)
                gp = sp.ghost_post(c)
                for f in c.facts:
                    self.assume(s, f)
                for lab, g in gp:
                    self.oblige(s, g, 'postcondition: ' + lab, None, kind='post')
            for lab, g in sp.lemmas(c):
                # proved here, then used for the obligations below
                self.oblige(s, g, 'lemma: ' + lab, None, kind='post')
                s.facts.append(g)
            for lab, g in sp.post_all(c):
                self.oblige(s, g, 'postcondition: ' + lab, None, kind='post')
            for inv in sp.invs(c):
                for lab, g in inv.conj(c.S1):
                    self.oblige(s, g, 'invariant restored: ' + lab, None, kind='post')
            # frame
            if sp.check_frame:
                self.frame_obls(s, c, sp, entryH)

    def frame_obls(self, s, c, sp, entryH):
        ms = sp.mods(c)
        allh = {m[1] for m in ms if m[0] == 'all'}
        at = {}
        for m in ms:
            if m[0] == 'at' and not isinstance(m[2], Ref):
                at.setdefault(m[1], []).append(m[2])
        byt = [m for m in ms if m[0] == 'bytes']
        anyM = any(m[0] == 'M' for m in ms)
        ghosts = set(sp.ghost_heaps(c)) | set(sp.ghost_frames(c))
        for h, t in s.H.items():
            if h not in entryH:
                t0 = self.heap(entryH, h)
            else:
                t0 = entryH[h]
            if t.eq(t0) or h in allh or h in ghosts or h == 'errno':
                continue
            x = fresh('fx')
            excl = [x >= 0] + [x != a for a in at.get(h, [])]
            if h == 'M':
                if anyM:
                    continue
                excl += [Or(x < b[1], x >= b[1] + b[2]) for b in byt]
            if h == 'cell.32':
                excl.append(x != ERRNO)     # errno
            excl += sp.frame_excl(c, h, x)
            self.oblige(s, Implies(And(*excl), select(t, x) == select(t0, x)),
                        'frame: nothing else in %s is changed' % h, None, kind='post')


# ---------------------------------------------------------------------- specs
class Spec:
    key = None
    inline = False
    check_frame = True
    props = ()
    ghosts = ()
    verify_cases = False      # the contract distinguishes cases, each with its own frame

    def case_facts(self, c):
        return []

    def exhaustive(self, c):
        return TRUE

    def __init__(self, key=None):
        if key:
            self.key = key

    def applies(self, eng, st, args):
        return True

    def fix_args(self, eng, st, args):
        return args

    def param(self, eng, st, i, t):
        return None

    def setup(self, c):
        pass

    def exit_setup(self, c):
        pass

    def axioms(self, c):
        return []

    def pre(self, c):
        return []

    def post(self, c):
        return []

    def post_all(self, c):
        return self.post(c)

    def lemmas(self, c):
        """facts about the state at the exit, proved before the postconditions and used for them"""
        return []

    def hints(self, c):
        """lists a call is about: goals on all lists L are split into L being one of these or not"""
        return []

    def invs(self, c):
        return []

    def mods(self, c):
        return []

    def ghost(self, c):
        pass

    def ghost_skipped(self, c):
        pass

    def ghost_heaps(self, c):
        return self.ghosts

    def ghost_frames(self, c):
        return ()

    def cases(self, c):
        return [None]

    def regions(self, c):
        return []

    def new_regions(self, c):
        return []

    def frame_excl(self, c, h, x):
        return []

    def loop_candidates(self, eng, c, st, E, modenv, wset, vars_):
        return []

    def loop_measures(self, eng, c, s, vars_):
        return []
