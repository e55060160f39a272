#!/usr/bin/env python3
"""seedtable.py: run every check on a copy of /repo with each planted change and write the table in DESIGN.md.

Developer tool; no registered check uses it.
"""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = '/tmp/seedtable'
MARK = '<!-- seeded table -->'


def run(d, p):
    r = subprocess.run(['python3-vt', H + '/check.py', p], capture_output=True, text=True,
                       env=dict(os.environ, WAFO_REPO=d, WAFO_EVIDENCE=d + '/ev'))
    return p, r.returncode


def main():
    sys.path.insert(0, H)
    props = [c['property'] for c in json.load(open(H + '/MANIFEST.json'))['checks']]
    rows = []
    for i in sorted(os.listdir(H + '/seeded')):
        meta = json.load(open('%s/seeded/%s/meta.json' % (H, i)))
        d = WORK + '/' + i
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        shutil.copytree('/repo/src', d + '/src', ignore=shutil.ignore_patterns('*.so', '__pycache__', '*.dat'))
        subprocess.check_call(['git', 'apply', '--unsafe-paths', '--directory=' + d, '%s/seeded/%s/patch.diff' % (H, i)], cwd='/')
        with ThreadPoolExecutor(7) as ex:
            hit = [p for p, rc in ex.map(lambda p: run(d, p), props) if rc == 1]
        shutil.rmtree(d, ignore_errors=True)
        print(i, meta['property'], hit)
        rows.append('| %s | %s | %s | %s |' % (i, meta['property'], ' '.join(meta['what_it_breaks'].split())[:150].replace('|', '/'),
                                             ', '.join(hit) or 'none'))
    s = open(H + '/DESIGN.md').read()
    s = s[:s.index(MARK)] + MARK + '\n| change | property | what it breaks | reported by |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n'
    open(H + '/DESIGN.md', 'w').write(s)


main()
