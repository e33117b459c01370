#!/usr/bin/env python3
"""python3 check.py <property> [--thorough]

Decides one property from /repo's current sources by static analysis.
exit 0: holds; exit 1: VIOLATION line and a replay file; exit 2: the analysis could not be carried out."""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
os.environ.setdefault('PYTHONHASHSEED', '0')


def known(pid):
    out = []
    fn = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(fn):
        for l in open(fn):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                out.append(l.split(' ', 2)[2])
    return out


def main():
    pid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv else 'quick'
    t0 = time.time()
    from rules.common import Report, Broken, BuildError, FAILED
    mod = importlib.import_module('rules.' + pid.lower())
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    evf = os.path.join(HERE, 'evidence', pid + '.json')
    vf = os.path.join(HERE, 'evidence', pid + '.violation.txt')
    for f in (evf, vf):
        if os.path.exists(f):
            os.remove(f)
    rep = Report(pid)
    broken = None
    try:
        mod.run(rep, tier)
        if not rep.obl:
            raise Broken('no obligations were generated')
        for k in getattr(mod, 'NEED', ()):
            if not rep.instances.get(k):
                raise Broken('no instances of: ' + k)
    except (Broken, BuildError) as e:
        broken = '%s: %s' % (type(e).__name__, e)
    except Exception:
        broken = traceback.format_exc()
    kn = known(pid)
    viols, seen = [], []
    for w, m in rep.viols:
        k = next((k for k in kn if k in '%s %s' % (w, m)), None)
        if k:
            if k not in seen:
                seen.append(k)
                print('KNOWN-FINDING: property=%s %s' % (pid, k))
        else:
            viols.append((w, m))
    wall = time.time() - t0
    if FAILED:
        rep.inst('analyses that failed', len(FAILED))
        rep.assumptions += ['not analysed: ' + x for x in FAILED[:20]]
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other',
              coverage=dict(explanation=rep.rule or mod.__doc__.strip(), obligations=rep.obl, discharged=rep.ok,
                            functions_analysed=len(rep.functions), functions=sorted(rep.functions)[:200],
                            loops_summarised=rep.loops, instructions_interpreted=rep.instrs, events=rep.events,
                            instances=rep.instances, samples=rep.samples),
              assumptions=list(getattr(mod, 'ASSUMES', [])) + rep.assumptions, wall_s=round(wall, 2), violations=len(viols))
    if broken:
        ev['coverage']['analysis_error'] = broken[-2000:]
    json.dump(ev, open(evf, 'w'), indent=1)
    if viols:
        with open(vf, 'w') as f:
            f.write('property %s violated; rule: %s\nre-run: python3 check.py %s%s\n\n' % (
                pid, (rep.rule or mod.__doc__).strip(), pid, ' --thorough' if tier == 'thorough' else ''))
            for w, m in viols[:200]:
                f.write('%s: %s\n\n' % (w, m))
        for w, m in viols[:5]:
            print('  %s: %s' % (w, m[:600]))
        print('VIOLATION property=%s replay=%s' % (pid, vf))
        return 1
    if broken:
        print('ANALYSIS-ERROR property=%s %s' % (pid, broken))
        return 2
    print('%s holds: %d/%d obligations, %d functions, %.1f s' % (pid, rep.ok, rep.obl, len(rep.functions), wall))
    return 0


if __name__ == '__main__':
    sys.exit(main())
