#!/usr/bin/env python3-vt
"""check.py <property> [quick|thorough]: decide one property of /repo's current source by static analysis."""
import importlib, json, os, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.setrecursionlimit(20000)
from sa.program import AnalysisBroken, REPO
from sa.ctx import Ctx

VARIANTS = [('default', None), ('no-checksum', {'SALTICIDAE_NOCHECKSUM': True}), ('no-stat', {'SALTICIDAE_MSG_STAT': False}),
            ('debug-log', {'SALTICIDAE_DEBUG_LOG': True}), ('no-check', {'SALTICIDAE_NOCHECK': True})]


OUT = os.environ.get('VERIF_OUT', os.path.join(HERE, 'evidence'))


def known(pid):
    f = os.path.join(HERE, 'known_findings.txt')
    res = {}
    if os.path.exists(f):
        for line in open(f):
            line = line.rstrip('\n')
            if line.startswith('known: property=%s ' % pid):
                body = line.split(' ', 2)[2]
                sig, _, text = body.partition(' | ')
                res[sig.strip()] = text.strip()
    return res


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    mod = importlib.import_module('sa.rules.' + pid.lower())
    variants = VARIANTS if tier == 'thorough' else VARIANTS[:1]
    ctxs = []
    for name, ov in variants:
        if ov and name in getattr(mod, 'SKIP_VARIANTS', ()):
            continue
        c = None
        try:
            c = Ctx(pid, ov)
            mod.check(c)
        except (AnalysisBroken, RecursionError) as e:
            # the rest of the rules could not be decided; what was already found to fail is reported all the same
            print('ANALYSIS-BROKEN property=%s configuration=%s %s' % (pid, name, e if isinstance(e, AnalysisBroken) else 'recursion'))
            kn = known(pid)
            if c is None or not [v for v in c.viol if v[0] not in kn]:
                return 2
        ctxs.append((name, c))
    kn = known(pid)
    viol = []
    print('property %s: %s' % (pid, mod.TITLE))
    nob = nbad = 0
    rules = {}
    for name, c in ctxs:
        print('configuration %s: %d translation units, %d roots, %d abstract paths, %d functions inlined'
              % (name, len(c.prog.tus), len(c.roots), c.npaths, len(c.fn_seen)))
        for r, (n, bad) in sorted(c.obs.items()):
            print('  rule %-28s %5d obligations at %3d sites, %d failed -- %s'
                  % (r, n, len(c.sites[r]), bad, mod.RULES.get(r, '')))
            nob += n
            nbad += bad
            x = rules.setdefault(r, {'rule': mod.RULES.get(r, ''), 'obligations': 0, 'sites': set()})
            x['obligations'] += n
            x['sites'] |= c.sites[r]
        if not c.obs:
            print('ANALYSIS-BROKEN property=%s no obligation generated' % pid)
            return 2
        for v in c.viol:
            if not any(w[0] == v[0] for w in viol):
                viol.append(v)
    new = [v for v in viol if v[0] not in kn]
    for sig, where, text, path in viol:
        if sig in kn:
            print('KNOWN-FINDING: property=%s %s' % (pid, kn[sig] or text))
    os.makedirs(OUT, exist_ok=True)
    c0 = ctxs[0][1]
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
          'coverage': {'explanation': mod.EXPLAIN, 'configurations': [n for n, _ in ctxs],
                       'translation_units': c0.prog.tus, 'roots': sorted(set().union(*[c.roots for _, c in ctxs])),
                       'abstract_paths': sum(c.npaths for _, c in ctxs),
                       'functions_inlined': len(set().union(*[c.fn_seen for _, c in ctxs])),
                       'obligations': nob, 'discharged': nob - nbad,
                       'rules': {r: {'rule': x['rule'], 'obligations': x['obligations'], 'sites': sorted(x['sites'])[:60]}
                                 for r, x in sorted(rules.items())}},
          'assumptions': getattr(mod, 'ASSUME', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    with open(os.path.join(OUT, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    if new:
        rp = os.path.join(OUT, 'replay-%s.txt' % pid)
        with open(rp, 'w') as f:
            for sig, where, text, path in new:
                f.write('%s\n  at %s\n  %s\n' % (sig, where, text))
                for l in path:
                    f.write('    ' + l + '\n')
        for sig, where, text, path in new:
            print('  FAILED %s at %s: %s' % (sig, where, text))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('property %s holds: %d obligations discharged%s' % (pid, nob, ' (%d known findings)' % (len(viol)) if viol else ''))
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN', e)
        rc = 2
    except Exception:
        import traceback
        traceback.print_exc()
        print('ANALYSIS-BROKEN internal error')
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
