"""check.py PROPERTY: verify the contracts that state the property on /repo's current sources."""
import os, sys, time, json, re, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run as R
from fzrun import Build, collect
from props import PROPS
from cfront import Program, Unsupported

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIMIT = 560          # seconds after which undecided obligations are left undecided


def relevant(label, prop):
    t = R.tags_of(label)
    return not t or prop in t


def known_findings():
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'KNOWN-FINDING: property=(\S+) (.*)', l.strip())
            if m:
                out.append((m.group(1), m.group(2)))
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    cfg = PROPS[prop]
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)

    # native harness, concurrently with the proof
    b = Build()
    try:
        rc = go(prop, tier, seed, t0, cfg, rdir, b)
    finally:
        b.close()
    sys.stdout.flush()
    os._exit(rc)


def go(prop, tier, seed, t0, cfg, rdir, b):
    thorough = tier == 'thorough'
    fzsecs = cfg.get('fzsecs', 4) * (15 if thorough else 1)
    runs = []
    for h in cfg['fz']:
        if b.build(h):
            runs += b.start(h, prop, fzsecs, 4 if thorough else 2, seed)

    # ---- deductive part
    note = None
    results = {}
    specs, ext = R.all_specs()
    roots = [k for k in specs if any(re.search(r, k) for r in cfg['roots'])]
    try:
        P = Program().load()
        opts = {'deadline': t0 + LIMIT, 'relevant': (lambda l: relevant(l, prop)), 'max_fail': 3, 'settled': (lambda: any(r[0].poll() not in (None, 0) for r in runs)),
                'slow': thorough}
        roots = [k for k in roots if P.find_any(k) is not None or ':' not in k]
        results = R.verify_many(P, specs, ext, opts, roots)
    except Unsupported as e:
        note = 'front end: %s' % e
    except Exception as e:
        note = 'engine: ' + traceback.format_exc()[-800:]

    total = discharged = 0
    solver = 0.0
    failed, undecided, unsupported = [], [], []
    backends = {}
    fns = {}
    for k in sorted(results):
        r = results[k]
        if r.get('missing'):
            unsupported.append('%s: not in the sources any more' % k)
            continue
        if r.get('unsupported'):
            unsupported.append('%s: %s' % (k, r['unsupported']))
            continue
        n = d = 0
        for o in r['obls']:
            if not relevant(o['label'], prop):
                continue
            n += 1
            solver += o['time']
            if o['status'] == 'proved':
                d += 1
                backends[o['backend'] or 'engine'] = backends.get(o['backend'] or 'engine', 0) + 1
            elif o['status'] == 'failed':
                failed.append((k, o))
            else:
                undecided.append((k, o))
        fns[k] = {'obligations': n, 'discharged': d, 'paths': r.get('paths', 0), 'file': r.get('file'), 'seconds': round(r.get('time', 0), 1), 'symbolic_execution_s': round(r.get('se_time', 0), 1)}
        total += n
        discharged += d
    # ---- native part
    stats, bad = collect(runs, fzsecs + 30)
    if not bad and (failed or unsupported or note or undecided):
        # look for a concrete failing history
        more = []
        for h in cfg['fz']:
            if h in b.bins:
                more += b.start(h, prop, 25 if not thorough else 90, max(2, 8 // len(cfg['fz'])), seed + 17)
        s2, bad = collect(more, 60 if not thorough else 150)
        for k in s2:
            stats[k] += s2[k]

    viol = None
    path = os.path.join(rdir, '%s.txt' % prop)
    if bad or failed:
        with open(path, 'w') as f:
            f.write('property %s\n' % prop)
            if failed:
                f.write('\nobligations that are not discharged:\n')
                for k, o in failed:
                    f.write('  %s: %s (%s) at %s, back end answer: %s\n' % (k, o['label'], o['kind'], o['loc'], o['backend']))
                    if o.get('info'):
                        f.write('      %s\n' % (o['info'],))
            if bad:
                f.write('\nfailing history against the real code (harness fz/%s.cc, seed %s): %s\n' % (bad['harness'], bad['seed'], bad['what']))
                f.write('replay: VERIF_SEED ignored; cd /verif && ./replay %s %s %s\n\n' % (bad['harness'], prop, bad['seed']))
                f.write(bad['output'])
        viol = 'VIOLATION property=%s replay=%s' % (prop, path) + ('' if bad else ' no-failing-input-found')

    assumptions = ['see DESIGN.md: trusted base']
    ext_used = sorted({e for r in results.values() for e in r.get('externs', [])})
    inl = sorted({e for r in results.values() for e in r.get('inlined', [])})
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': cfg.get('level', 'proof'),
          'coverage': {'obligations': total, 'discharged': discharged,
                       'checker_cmd': 'python3-vt engine/check.py %s' % prop,
                       'trusted_base': ['clang-18 AST', 'the verification condition generator engine/vcg.py', 'z3'] +
                       ['contract of external function ' + e for e in ext_used] + cfg.get('trusted', []),
                       'functions_under_contract': fns, 'functions_inlined': inl, 'discharged_by': backends,
                       'solver_seconds': round(solver, 1),
                       'not_decided': ['%s: %s' % (k, o['label']) for k, o in undecided] + unsupported + ([note] if note else []),
                       'bounded_native_replay': {'harness': cfg['fz'], 'histories': stats['histories'], 'stopped_early': stats['stopped'],
                                                 'build_errors': b.err,
                                                 'bounded_functions': cfg.get('bounded', []),
                                                 'note': 'random histories against the real code; bounded, not counted as proved'}},
          'assumptions': assumptions + cfg.get('assume', []),
          'wall_s': round(time.time() - t0, 1)}
    if viol:
        ev['violations'] = [{'replay': path, 'what': (bad or {}).get('what') or failed[0][1]['label']}]
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: %d of %d obligations discharged over %d functions, %d native histories, %.1fs' % (
        prop, discharged, total, len(fns), stats['histories'], time.time() - t0))
    for u in unsupported[:5]:
        print('  not decided: %s' % u[:300])
    if note:
        print('  ' + note[:600])
    if b.err:
        print('  harness build failed: ' + str(b.err)[:600])
    for k, o in failed[:8]:
        print('  not discharged: %s: %s (%s)' % (k, o['label'], o['loc']))
    if bad:
        print('  failing history: %s' % bad['what'])
    for p, w in known_findings():
        if p == prop:
            print('KNOWN-FINDING: property=%s %s' % (p, w))
    if viol:
        print(viol)
        return 1
    if total == 0 and stats['histories'] == 0:
        print('nothing could be checked')
        return 2
    return 0


if __name__ == '__main__':
    try:
        main()
    except Exception:
        traceback.print_exc()
        sys.stdout.flush()
        os._exit(2)
