"""Verify functions: symbolic execution + discharge, in parallel worker processes."""
import os, sys, time, json, re, pickle, traceback, select as _sel, signal
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'specs'))
import z3
from cfront import Program, Unsupported
import vcg
from vcg import Engine, Obligation

TIMEOUTS = [(4000, 0, False), (6000, 7, False), (3000, 3, True)]

PATIENT = [(20000, 0, False), (20000, 11, False)]


def discharge(eng, o, budget=TIMEOUTS):
    if o.status == 'proved':
        return
    t = time.time()
    if z3.is_false(o.goal) and not o.hyps:
        o.status, o.backend, o.info = 'failed', 'engine', ''
        return
    for to, seed, mb in budget:
        eng.backend = 'z3'
        r = eng.check_goal(o.hyps, o.goal, to, seed, mb)
        if r == z3.unsat:
            o.status, o.backend = 'proved', eng.backend
            break
        if r == z3.sat:
            o.status, o.backend = 'failed', 'z3'
            break
    else:
        o.status, o.backend = 'failed', 'z3 (unknown)'
    o.time = time.time() - t


def tags_of(label):
    m = re.search(r'\[((?:C\d\d,?)+)\]', label)
    return tuple(m.group(1).split(',')) if m else ()


def verify_fn(prog, specs, ext, opts, key, spec):
    """-> dict result (picklable)"""
    t0 = time.time()
    F = prog.find_any(key)
    if F is None:
        return {'key': key, 'missing': True, 'obls': [], 'time': 0, 'calls': []}
    eng = Engine(prog, specs, ext, opts=dict(opts, **getattr(spec, 'opts', {})))
    eng.deadline = min(t0 + opts.get('se_limit', 300), opts.get('deadline', t0 + 1e6) + 100)
    res = {'key': key, 'file': F.file, 'obls': [], 'unsupported': None}
    try:
        eng.verify(F, spec)
    except Unsupported as e:
        res['unsupported'] = str(e)
    except (KeyError, IndexError, AttributeError, TypeError, z3.Z3Exception) as e:
        if opts.get('raise'):
            raise
        res['unsupported'] = 'engine: %s %s' % (type(e).__name__, traceback.format_exc()[-600:])
    res['se_time'] = time.time() - t0
    # identical obligations on different paths are discharged once
    todo = []
    if res['unsupported'] is None:
        todo = eng.obls
    par = opts.get('par', 1)
    dl, maxf, rel, nf = opts.get('deadline'), opts.get('max_fail'), opts.get('relevant'), 0
    if maxf and getattr(spec, 'split', 1) > 1:
        for o in todo:
            if rel and not rel(o.label):
                o.status = 'skipped'
        discharge_par(eng, todo, spec.split, dl, maxf)
    elif maxf:
        for o in todo:
            if rel and not rel(o.label):
                o.status = 'skipped'
            elif nf >= maxf or (dl and time.time() > dl):
                o.status = o.status or 'skipped'
            else:
                discharge(eng, o)
                if o.status == 'failed' and o.backend == 'z3 (unknown)' and not (dl and time.time() > dl) and nf < 1 and eng.scale > 1:
                    discharge(eng, o, PATIENT[:1])
                nf += o.status == 'failed'
    elif par > 1 and len([o for o in todo if o.status is None]) > 6:
        discharge_par(eng, todo, par)
    else:
        for o in todo:
            discharge(eng, o)
    for o in todo:
        res['obls'].append({'label': o.label, 'loc': o.loc, 'kind': o.kind, 'status': o.status,
                            'backend': o.backend, 'time': round(o.time, 3), 'info': o.info})
    res['time'] = time.time() - t0
    res['paths'] = eng.npaths
    res['calls'] = sorted(eng.called_specs)
    res['inlined'] = sorted(eng.inlined)
    res['externs'] = sorted(eng.used_externs)
    res['loops'] = eng.loop_log
    return res


def discharge_par(eng, obls, par, dl=None, maxf=None):
    pend = [i for i, o in enumerate(obls) if o.status is None]
    kids = []
    for k in range(par):
        mine = pend[k::par]
        if not mine:
            continue
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            out = []
            nf = 0
            try:
                for i in mine:
                    o = obls[i]
                    if (maxf and nf >= maxf) or (dl and time.time() > dl):
                        o.status = 'skipped'
                    else:
                        discharge(eng, o)
                        if dl and o.status == 'failed' and o.backend == 'z3 (unknown)' and time.time() < dl and nf < 1:
                            discharge(eng, o, PATIENT[:1])
                        nf += o.status == 'failed'
                    out.append((i, o.status, o.backend, o.time, o.info))
            finally:
                with os.fdopen(w, 'wb') as f:
                    pickle.dump(out, f)
                os._exit(0)
        os.close(w)
        kids.append((pid, r))
    for pid, r in kids:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        for i, s, b, t, info in (pickle.loads(data) if data else []):
            o = obls[i]
            o.status, o.backend, o.time, o.info = s, b, t, info
    for i in pend:
        if obls[i].status is None:
            obls[i].status, obls[i].backend = 'failed', 'worker died'


def retry(res):
    return any(o['status'] == 'failed' and o['backend'] == 'z3 (unknown)' for o in res['obls']) or 'time limit' in (res.get('unsupported') or '')


COST = ['rmc_pub_timeout_process', 'process_subscriber_timeout', 'rmc_pub_context_get_pending', 'rmc_pub_packet_ack', 'pub_packet_ack']


def called(prog, specs, roots):
    """the functions with contracts that are referred to from the roots (a guess at what will be needed, to start early)"""
    byname = {}
    for k in specs:
        byname.setdefault(k.split(':')[-1], []).append(k)
    out, todo, seen = [], [prog.find_any(k) for k in roots], set()
    while todo:
        F = todo.pop()
        if F is None or id(F) in seen:
            continue
        seen.add(id(F))
        stack = [F.body]
        while stack:
            n = stack.pop()
            if n is None:
                continue
            if n.k == 'DeclRefExpr' and n.a['ref'][0] == 'FunctionDecl':
                nm = n.a['ref'][1]
                G = prog.find(nm, F.file)
                for k in byname.get(nm, []):
                    if G is not None and prog.find_any(k) is G and k not in roots and k not in out:
                        out.append(k)
                todo.append(G)
            stack.extend(n.c)
    return out


def verify_many(prog, specs, ext, opts, roots, jobs=8):
    """verify the roots and, transitively, every function whose contract was used"""
    results = {}
    queue = list(roots)
    try:
        queue += called(prog, specs, roots)
    except (KeyError, AttributeError, TypeError):
        pass
    queue.sort(key=lambda k: COST.index(k) if k in COST else len(COST))
    seen = set(queue)
    running = {}
    again, first = [], {}
    while queue or running or again:
        if not queue and not running:
            queue, again = again, []
        while queue and len(running) < jobs:
            key = queue.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                o = dict(opts)
                if key in first:
                    # a time limit may have been the reason: once more, with more of it
                    o['scale'] = 3
                try:
                    res = verify_fn(prog, specs, ext, o, key, specs[key])
                except BaseException as e:
                    res = {'key': key, 'obls': [], 'unsupported': 'engine: ' + traceback.format_exc()[-800:], 'time': 0, 'calls': []}
                with os.fdopen(w, 'wb') as f:
                    pickle.dump(res, f)
                os._exit(0)
            os.close(w)
            running[r] = (pid, key, b'')
        rd, _, _ = _sel.select(list(running), [], [], 5)
        for r in rd:
            d = os.read(r, 1 << 16)
            pid, key, buf = running[r]
            if d:
                running[r] = (pid, key, buf + d)
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del running[r]
            try:
                res = pickle.loads(buf)
            except Exception:
                res = {'key': key, 'obls': [], 'unsupported': 'worker died', 'time': 0, 'calls': []}
            if key in first and res.get('unsupported') and not first[key].get('unsupported'):
                res = first[key]
            results[key] = res
            if opts.get('max_fail') and key not in first and retry(res) and not opts.get('settled', bool)() and time.time() < opts['deadline'] - 60:
                first[key] = res
                again.append(key)
                if os.environ.get('VDEBUG'):
                    print('again', key, res.get('unsupported'), res.get('se_time'), res.get('time'), [(o['label'], o['loc'], o['time']) for o in res['obls'] if o['status'] == 'failed'], file=sys.stderr)
            for k in res.get('calls', []):
                if k not in seen:
                    seen.add(k)
                    queue.append(k)
    need, todo = set(), list(roots)
    while todo:
        k = todo.pop()
        if k not in need:
            need.add(k)
            todo += results.get(k, {}).get('calls', [])
    return {k: r for k, r in results.items() if k in need}


def report(results, verbose=False):
    ok = True
    for k in sorted(results):
        r = results[k]
        n = len(r['obls'])
        bad = [o for o in r['obls'] if o['status'] != 'proved']
        print('%-45s %4d obligations %3d failed  %5.1fs (se %.1f) paths %s %s' % (
            k, n, len(bad), r.get('time', 0), r.get('se_time', 0), r.get('paths', '-'),
            ('UNSUPPORTED ' + r['unsupported']) if r.get('unsupported') else ('MISSING' if r.get('missing') else '')))
        for o in bad:
            print('      FAIL %s | %s | %s %.1fs' % (o['loc'], o['label'], o['backend'], o['time']))
        if verbose:
            for l in r.get('loops', []):
                print('      loop', l)
            for o in sorted(r['obls'], key=lambda o: -o['time'])[:3]:
                print('      slow %.2f %s %s' % (o['time'], o['label'], o['loc']))
        ok = ok and not bad and not r.get('unsupported') and not r.get('missing')
    return ok


def all_specs():
    import importlib
    specs, ext = {}, {}
    for m in ('circ', 'lists', 'pubspec', 'subspec', 'connspec', 'rmcspec', 'readspec', 'rmcsub'):
        try:
            mod = importlib.import_module(m)
        except ModuleNotFoundError as e:
            if e.name != m:
                raise
            continue
        for s in mod.SPECS:
            specs[s.key] = s
        ext.update(getattr(mod, 'EXT', {}))
    import ext as e
    ext = dict(e.EXT, **ext)
    return specs, ext


if __name__ == '__main__':
    P = Program().load()
    specs, ext = all_specs()
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    if '-q' in sys.argv:
        TIMEOUTS[:] = [(3000, 0, False)]
    opts = {'raise': '-r' in sys.argv, 'par': 8 if '-p' in sys.argv else 1}
    if '-d' in sys.argv:
        opts['dbg'] = lambda *a: print(*a, file=sys.stderr)
    keys = []
    for a in args:
        keys += [k for k in specs if re.search(a, k)]
    if '-1' in sys.argv:
        for k in keys:
            r = verify_fn(P, specs, ext, opts, k, specs[k])
            report({k: r}, '-v' in sys.argv)
    else:
        t = time.time()
        res = verify_many(P, specs, ext, opts, keys)
        print(report(res, '-v' in sys.argv), time.time() - t)
