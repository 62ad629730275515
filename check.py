#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough]

Decides one property of /repo's current tree by static analysis, writes
/verif/evidence/<property>.json, prints KNOWN-FINDING / UNDECIDED / VIOLATION
lines.  exit 0: nothing violated; 1: violation; 2: the analysis could not be
carried out (the sources or the witnesses do not compile, most obligations
undecidable)."""
import json
import os
import re
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.setrecursionlimit(100000)

import build
import lawrun
import props


def known(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('known: property=%s ' % pid):
                body = ln.split(' ', 2)[2]
                key, _, what = body.partition(' :: ')
                out.append((key.strip()[len('key='):], what))
    return out


def law_part(cfg, tier, ev):
    """run the law witnesses of a property, in every configuration of the tier"""
    findings = []
    for group in cfg.get('laws', []):
        files = group['files']
        confs = [('asserts', [])]
        if tier == 'thorough' and not group.get('assert_only'):
            confs.append(('NDEBUG', ['-DNDEBUG']))
        for cname, extra in confs:
            text, info = build.build([os.path.join(HERE, 'laws', f) for f in files], dirs=group.get('dirs', build.MATH_DIRS),
                                     only=group.get('only'), module=group.get('module', ()), override=group.get('override', ()), shape=group.get('shape', False), extra=extra + group.get('flags', []))
            names = info['laws']
            if group.get('select'):
                names = [n for n in names if re.match('law_(%s)$' % group['select'], n)]
                if not names:
                    raise build.BuildError('no law matches %s in %s' % (group['select'], files))
            if tier == 'quick':
                names = [n for n in names if not n.startswith('law_t_')]
            res = lawrun.run_laws(text, names, limit={'quick': 240, 'thorough': 600}[tier],
                                  shape=group.get('shape', False))
            for r in res:
                ev['laws'] += 1
                ev['obligations'] += r['obligations']
                ev['functions'].update(r['functions'])
                ev['law_names'].append('%s [%s]: %d obligations, %.1f s' % (r['law'], cname, r['obligations'], r['wall']))
                nd = len(r['undecided'])
                if r['error']:
                    ev['undecided'].append({'law': r['law'], 'config': cname, 'why': r['error'][:600]})
                    nd = max(1, r['obligations'])
                    ev['obligations'] += 1 if not r['obligations'] else 0
                for u in r['undecided']:
                    ev['undecided'].append({'law': r['law'], 'config': cname, 'why': '[%s] %s when %s' % (u['tag'], u['msg'][:300], u['guard'][:300])})
                ev['undecided_n'] += nd
                for f in r['findings']:
                    f = dict(f)
                    f['config'] = cname
                    f['functions'] = r['functions']
                    f['key'] = '%s:%s' % (f['law'], f['tag'])
                    f['rule'] = 'law'
                    findings.append(f)
            ev['sources'].update(info['sources'])
    return findings


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if pid not in props.PROPS:
        print('unknown property', pid)
        return 2
    cfg = props.PROPS[pid]
    t0 = time.time()
    ev = {'laws': 0, 'obligations': 0, 'functions': set(), 'law_names': [], 'undecided': [], 'undecided_n': 0,
          'sources': set(), 'extra': {}}
    try:
        findings = law_part(cfg, tier, ev)
        for an in cfg.get('analyses', []):
            r = an(tier)
            findings += r['findings']
            ev['obligations'] += r['obligations']
            ev['functions'].update(r.get('functions', []))
            ev['sources'].update(r.get('sources', []))
            ev['undecided'] += r.get('undecided', [])
            ev['undecided_n'] += len(r.get('undecided', []))
            ev['extra'][r['name']] = r.get('evidence', {})
    except build.BuildError as e:
        print('ERROR: the sources or the witnesses do not compile:\n' + str(e)[-3000:])
        return 2
    kn = known(pid)
    new = []
    seen_known = {}
    for f in findings:
        for k, what in kn:
            if f['key'] == k:
                seen_known[k] = what
                break
        else:
            new.append(f)
    wall = time.time() - t0
    evid = os.path.join(HERE, 'evidence')
    os.makedirs(evid, exist_ok=True)
    viol = []
    replay = os.path.join(evid, '%s-violation.json' % pid)
    if new:
        with open(replay, 'w') as fh:
            json.dump({'property': pid, 'tier': tier, 'reproduce': 'cd /verif && python3-vt check.py %s --tier %s' % (pid, tier),
                       'findings': new[:200]}, fh, indent=1, default=str)
        viol = [{'key': f['key'], 'what': f['msg'][:600], 'where': (f.get('loc') or '')[:600], 'when': (f.get('guard') or '')[:400]}
                for f in new[:40]]
    elif os.path.exists(replay):
        os.remove(replay)
    n = ev['obligations']
    und = ev['undecided_n']
    discharged = max(0, n - und - len({(f['key'], f.get('msg')) for f in findings}))
    with open(os.path.join(evid, pid + '.json'), 'w') as fh:
        json.dump({
            'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
            'level': cfg['level'],
            'coverage': {
                'explanation': cfg['note'],
                'obligations': n, 'discharged': discharged,
                'checker_cmd': 'python3-vt /verif/check.py %s --tier %s' % (pid, tier),
                'trusted_base': cfg.get('trusted', props.TRUSTED),
                'rule': cfg['technique'],
                'functions_analysed': sorted(ev['functions']),
                'sources': sorted(ev['sources']),
                'witnesses': ev['law_names'],
                'undecided': ev['undecided'][:60],
                'analyses': ev['extra'],
                'known_findings': sorted(seen_known),
                'violation_list': viol,
            },
            'assumptions': props.ASSUMPTIONS,
            'wall_s': round(wall, 2),
            'violations': len(new)}, fh, indent=1, default=str)
    for k, what in sorted(seen_known.items()):
        print('KNOWN-FINDING: property=%s %s [%s]' % (pid, what, k))
    for u in ev['undecided'][:20]:
        print('UNDECIDED: %s' % (str(u)[:600]))
    print('%s: %d obligations over %d repository functions, %d undecided, %.1f s' %
          (pid, n, len(ev['functions']), und, wall))
    if new:
        for f in new[:15]:
            print('  [%s] %s' % (f['key'], f['msg'][:500]))
            if f.get('guard'):
                print('      when %s' % f['guard'][:300])
            if f.get('loc'):
                print('      at %s' % f['loc'][:400])
            if f.get('functions'):
                print('      code reached: %s' % ', '.join(f['functions'])[:500])
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    if n == 0 or und > max(3, n * 0.5):
        print('ERROR: the analysis decides too little of the current tree')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
