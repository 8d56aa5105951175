"""check <PROPERTY> [quick|thorough]: decide one property on the current tree."""
import importlib, json, os, sys, time
import dump, ctx

VERIF = dump.VERIF
EVID = os.environ.get('PA_EVIDENCE', os.path.join(VERIF, 'evidence'))
SPECS = ['flow', 'place', 'control', 'safety', 'config', 'cli', 'graph', 'watch', 'written']


def table():
    t = {}
    for m in SPECS:
        M = importlib.import_module('specs.' + m)
        for k in dir(M):
            if k.startswith('jobs_'):
                t[k[5:]] = (M, getattr(M, k))
    return t


def known():
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: '):
                d = dict(x.split('=', 1) for x in l[7:].split(' ', 2)[:2])
                out[(d['property'], d['key'])] = l[7:].split(' ', 2)[2] if l.count(' ') > 2 else ''
    return out


def main(argv):
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    T = table()
    if prop not in T:
        print('unknown property', prop)
        return 2
    M, jobs = T[prop]
    path, h, rebuilt = dump.ensure()
    J = jobs(tier)
    ctx.DEADLINE = t0 + (600 if tier == 'quick' else 4 * 3600)
    res = ctx.run_jobs(path, J)
    viol, weak = {}, {}
    for r in res:
        for k, v in r['viol'].items():
            viol.setdefault(k, v)
        for k, v in r['weak'].items():
            weak.setdefault(k, v)
        if 'anchor' in r or 'crash' in r:
            # nothing is claimed about this scenario: that is not an alarm
            print('UNDECIDED: property=%s %s: %s' % (prop, r['name'], 'not found: ' + r['anchor'] if 'anchor' in r else r['crash']))
    K = known()
    listed = {k: v for k, v in viol.items() if (prop, k) in K}
    new = {k: v for k, v in viol.items() if (prop, k) not in K}
    evidence(prop, tier, t0, res, viol, weak, listed, h)
    if os.environ.get('PA_DEV'):
        for r in res:
            print('  %-40s %5.1fs paths %d steps %d und %d taint %d obl %s %s' % (r['name'], r['wall'], r['stats']['paths'], r['stats']['steps'], r['nund'], r['stats']['tainted'], r['oblig'], r.get('crash', '')))
            for u in r['undecided'][:6]:
                print('      ?', u)
            if r['unmodelled']:
                print('      unmodelled', r['unmodelled'])
        for k, v in weak.items():
            print('  (on inexact path)', k, v['where'], v['taint'][:3])
    for k, v in sorted(listed.items()):
        print('KNOWN-FINDING: property=%s %s (%s)' % (prop, k, v['message']))
    if new:
        d = os.path.join(dump.BUILD, 'replay')
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, prop + '.json')
        json.dump(new, open(f, 'w'), indent=1)
        for k, v in sorted(new.items()):
            print('%s: %s  [rule %s] in %s (%s)' % (v['where'], v['message'], k, v['at'], v['scenario']))
            for x in v['path']:
                print('      ', x)
        print('VIOLATION property=%s replay=%s' % (prop, f))
        return 1
    print('%s holds on what was analysed: %d scenarios, %d paths, %.1fs' % (prop, len(res), sum(r['stats']['paths'] for r in res), time.time() - t0))
    return 0


def evidence(prop, tier, t0, res, viol, weak, listed, h):
    tot = {}
    obl = {}
    fns = set()
    for r in res:
        for k, v in r['stats'].items():
            tot[k] = tot.get(k, 0) + v
        for k, v in r['oblig'].items():
            obl[k] = obl.get(k, 0) + v
        fns |= set(r['functions'])
    M, jobs = table()[prop]
    ex = getattr(M, 'EXPLAIN', {}).get(prop, '')
    E = dict(
        property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='other',
        coverage=dict(
            explanation='Abstract interpretation of the type-checked MIR of the current /repo source. ' + ex,
            source_hash=h,
            scenarios=len(res), paths=tot.get('paths', 0), abstract_steps=tot.get('steps', 0), call_sites_evaluated=tot.get('calls', 0),
            loop_heads=tot.get('loop_heads', 0), states_merged_at_loop_heads=tot.get('cut', 0),
            obligations=obl, functions_analysed=len(fns), functions=sorted(fns)[:80],
            undecided_paths=tot.get('undecided', 0), inexact_paths=tot.get('tainted', 0),
            undecided_reasons=sorted(set(u for r in res for u in r['undecided']))[:10],
            unmodelled_calls=sorted(set(u for r in res for u in r['unmodelled']))[:20],
            scenarios_not_analysed=[r['name'] + ': ' + (r.get('crash') or 'not found: ' + r['anchor']) for r in res if 'crash' in r or 'anchor' in r],
            per_scenario=[dict(name=r['name'], paths=r['stats']['paths'], undecided=r['nund'], wall_s=round(r['wall'], 2)) for r in res],
            violations=sorted(viol), known_findings=sorted(listed), reported_only_on_inexact_paths=sorted(weak)),
        wall_s=round(time.time() - t0, 2))
    os.makedirs(os.path.join(EVID), exist_ok=True)
    json.dump(E, open(os.path.join(EVID, prop + '.json'), 'w'), indent=1)
