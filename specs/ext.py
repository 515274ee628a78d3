"""Assumed models of external functions (libc)."""
import z3
from vcg import *


def x_memcpy(eng, st, args, n):
    d, s, ln = args
    if isinstance(d, Ref) or isinstance(s, Ref):
        raise Unsupported('memcpy of a scalar field')
    eng.access(st, d, ln, n, True)
    eng.access(st, s, ln, n, False)
    eng.oblige(st, Or(ln <= 0, d + ln <= s, s + ln <= d), 'memcpy ranges do not overlap', n)
    M = eng.hget(st, 'M')
    c = num(ln)
    if c is not None and c <= 40:
        for i in range(c):
            b = select(M, eng.addk(s, i))
            M2 = store(M if i == 0 else st.H['M'], eng.addk(d, i), b)
            st.H['M'] = M2
    else:
        M2 = fresh('M', AI)
        x = z3.Int('x')
        st.facts.append(forall([x], z3.Select(M2, x) == z3.If(And(x >= d, x < d + ln), z3.Select(M, x - d + s), z3.Select(M, x)),
                               [z3.Select(M2, x)]))
        st.H['M'] = M2
    st.written.append(('M', d, c if c is not None else 'n'))
    return [(st, d)]


def x_malloc(eng, st, args, n):
    """assumed: malloc succeeds and returns fresh memory"""
    from lists import alloc_obj
    t = getattr(eng, 'alloc_ty', None)
    if t and t[0] == 'ptr' and t[1][0] == 'struct' and t[1][1] in eng.opts.get('freeable', ()):
        eng.alloc_ty = None
        return alloc_obj(eng, st, t[1][1])
    p = fresh('malloc')
    st.facts.append(And(p > 0, eng.tagof(p) == 0))
    for b, sz in st.regions:
        st.facts.append(Or(p + args[0] <= b, b + sz <= p))
    st.regions.append((p, args[0]))
    return [(st, p)]


def x_free(eng, st, args, n):
    from lists import free_obj
    c = n.c[1]
    while c.k in ('ImplicitCastExpr', 'CStyleCastExpr', 'ParenExpr'):
        c = c.c[0]
    t = eng.P.ty(c.t)
    if t[0] == 'ptr' and t[1][0] == 'struct' and t[1][1] in eng.opts.get('freeable', ()):
        return free_obj(eng, st, t[1][1], args[0], n)
    raise Unsupported('free of an untyped object')


EXT = {'memcpy': x_memcpy, 'malloc': x_malloc, 'free': x_free}
