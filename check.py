#!/usr/bin/env python3-vt
"""Decide one property of /repo's current source:  check.py <ID> [--list]

exit 0: the rule holds at every construct analysed (known findings are printed),
exit 1: a VIOLATION line names the property and the file with the constructs,
exit 2: the analysis itself could not run (self-test failed, source unreadable).
"""
import importlib
import json
import os
import sys
import time
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
warnings.simplefilter('ignore')

from sa.framework import Context, known_pattern, load_known, PROPS  # noqa


def selftests():
    from sa import selftest
    bad = 0
    for pid in sorted(PROPS):
        st = selftest.run(pid, importlib.import_module('sa.rules.' + PROPS[pid]))
        print('%s: %d examples, %d failed' % (pid, st['count'], len(st['failed'])))
        for f in st['failed']:
            print('  ' + f)
        bad += len(st['failed'])
    return 2 if bad else 0


def main(argv):
    if len(argv) == 2 and argv[1] == '--selftest':
        return selftests()
    if len(argv) < 2 or argv[1] not in PROPS:
        print('usage: check.py %s' % '|'.join(sorted(PROPS)))
        return 2
    pid = argv[1]
    listing = '--list' in argv
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    mod = importlib.import_module('sa.rules.' + PROPS[pid])
    from sa import selftest
    st = selftest.run(pid, mod)
    if st['failed']:
        for f in st['failed']:
            print('SELFTEST %s: %s' % (pid, f))
        print('the analysis no longer recognises its own examples; no verdict')
        return 2
    ctx = Context(tier=tier)
    res = mod.run(ctx)
    known = load_known(HERE, pid)
    seen, new = set(), []
    uniq = {}
    for f in res.findings:
        uniq.setdefault(f.key, f)
    for f in sorted(uniq.values(), key=lambda f: f.key):
        key = f.key if f.key in known else ctx.proj.canonical(f.key)
        if key not in known:
            key = known_pattern(HERE, pid, key, f.msg)
        if key in known:
            seen.add(key)
            print('KNOWN-FINDING: property=%s %s: %s' % (pid, key, known[key]))
        else:
            new.append(f)
    for f in new:
        print('%s: %s' % (f.key, f.msg))
    for n in res.notes:
        print('note: ' + n)
    evdir = os.environ.get('WAFO_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    cov = dict(res.coverage)
    cov['explanation'] = res.explanation
    cov['rule'] = res.rule
    cov['samples'] = res.samples[:25]
    cov['selftest_examples'] = st['count']
    cov['not_analysed'] = ctx.not_analysed()
    cov['known_findings_seen'] = sorted(seen)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': res.assumptions, 'wall_s': round(time.time() - t0, 2),
          'violations': len(new)}
    with open(os.path.join(evdir, pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, sort_keys=True, default=str)
    print('%s: %s; %d findings (%d known)' % (
        pid, ', '.join('%s=%s' % kv for kv in sorted(res.coverage.items())
                       if isinstance(kv[1], (int, float))), len(uniq), len(seen)))
    if new:
        vp = os.path.join(evdir, pid + '.violations.json')
        with open(vp, 'w') as fh:
            json.dump([{'key': f.key, 'message': f.msg, 'where': f.where} for f in new], fh, indent=1)
        print('VIOLATION property=%s replay=%s' % (pid, vp))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv))
