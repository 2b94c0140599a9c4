#!/usr/bin/env python3
"""Runs one property's check: check.py C04 [--tier quick|thorough]"""
import sys, os, json, time, argparse, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from build import AnalysisBroken, VERIF, build_irdump, tree_tag
from report import Report
import props, absint

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    if a.tier == 'thorough': absint.SCALE = 4
    R = Report()
    spec = props.PROPS[a.prop]
    broken = []
    groups = []
    for g in spec['groups'] + (spec.get('thorough', []) if a.tier == 'thorough' else []):
        n0 = len(R.items)
        try: g(R)
        except AnalysisBroken as x: broken.append('%s: %s' % (g.__name__, x))
        except Exception as x:
            broken.append('%s: internal error %s: %s' % (g.__name__, type(x).__name__, x)); R.note(traceback.format_exc()[-1500:])
        groups.append({'group': getattr(g, '__name__', str(g)), 'obligations': len(R.items) - n0})
    known = load_known(a.prop)
    viol = []; kf = []
    seen = set()
    for rule, sub, ok, wh, msg in R.violations():
        k = next((k for k in known if k['rule'] == rule and k['subject'] in sub), None)
        if k: kf.append((k, sub))
        elif (rule, sub, wh, msg) not in seen: seen.add((rule, sub, wh, msg)); viol.append((rule, sub, wh, msg))
    for k in {id(k): k for k, _ in kf}.values(): print('KNOWN-FINDING: property=%s %s' % (a.prop, k['text']))
    rdir = os.path.join(VERIF, 'evidence', 'reports'); os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, a.prop + '.txt')
    with open(rp, 'w') as f:
        for rule, sub, wh, msg in viol: f.write('VIOLATED [%s] %s\n   at %s\n   %s\n' % (rule, sub, wh, msg))
        for rule, sub, ok, wh, msg in R.undecided(): f.write('undecided [%s] %s at %s: %s\n' % (rule, sub, wh, msg))
        for rule, sub, ok, wh, msg in R.discharged(): f.write('holds [%s] %s\n' % (rule, sub))
        for n in R.notes: f.write('note: %s\n' % n)
    rules = {}
    for rule, sub, ok, wh, msg in R.items:
        r = rules.setdefault(rule, {'obligations': 0, 'discharged': 0, 'undecided': 0, 'violated': 0})
        r['obligations'] += 1; r['discharged' if ok else 'undecided' if ok is None else 'violated'] += 1
    ev = {'property': a.prop, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': spec.get('level', 'other'),
          'coverage': {'explanation': spec['explain'], 'rules': rules, 'obligations': len(R.items), 'discharged': len(R.discharged()), 'undecided': len(R.undecided()),
                       'groups': groups, 'analysed': {k: {'count': len(v), 'names': sorted(v)[:60]} for k, v in R.analysed.items()},
                       'samples': ['%s | %s | %s' % (x[0], x[1], {True: 'holds', None: 'undecided', False: 'violated'}[x[2]]) for x in R.items[:: max(1, len(R.items) // 25)]][:30],
                       'undecided_list': ['%s | %s | %s | %s' % (x[0], x[1], x[3], x[4]) for x in R.undecided()][:40],
                       'source_tree': tree_tag(), 'notes': R.notes, 'analysis_broken': broken},
          'assumptions': spec.get('assume', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    json.dump(ev, open(os.path.join(VERIF, 'evidence', a.prop + '.json'), 'w'), indent=1)
    if a.v: print(open(rp).read())
    for rule, sub, wh, msg in viol[:40]: print('  [%s] %s\n      at %s: %s' % (rule, sub, wh, msg))
    print('%s: %d obligations, %d discharged, %d undecided, %d violated (%.1fs)' % (a.prop, len(R.items), len(R.discharged()), len(R.undecided()), len(viol), time.time() - t0))
    if viol:
        print('VIOLATION property=%s replay=%s' % (a.prop, rp)); return 1
    # a group that lost its anchors leaves its obligations undecided; without any obligation left there is no answer
    for b in broken: print('ANALYSIS-BROKEN ' + b[:600])
    if len(broken) == len(groups) or not R.discharged():
        print('ANALYSIS-BROKEN no obligation was decided'); return 2
    return 0

def load_known(prop):
    out = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.json')
    if os.path.exists(p):
        for k in json.load(open(p))['open']:
            if k['property'] == prop: out.append(k)
    return out

if __name__ == '__main__':
    try: sys.exit(main())
    except AnalysisBroken as x:
        print('ANALYSIS-BROKEN', x); sys.exit(2)
