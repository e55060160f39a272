"""Run a rule over small example trees whose verdicts are known.

selftest/<ID>/<name>.py holds a module; lines marked ``# BAD key-fragment`` name the
findings the rule must report (a substring of key or message), and any other finding is
a failure of the rule.  A rule that matches nothing on the real tree still has to find
its examples here on every run.
"""
import os
import re
import shutil
import tempfile
from .framework import Context
from .project import Project

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(pid, mod):
    d = os.path.join(HERE, 'selftest', pid)
    out = {'count': 0, 'failed': []}
    if not os.path.isdir(d):
        return out
    for fn in sorted(os.listdir(d)):
        if not fn.endswith('.py'):
            continue
        path = os.path.join(d, fn)
        text = open(path).read()
        want = re.findall(r'# BAD (.+)', text)
        tmp = tempfile.mkdtemp(prefix='sa_self_')
        try:
            os.makedirs(os.path.join(tmp, 'wafo'))
            open(os.path.join(tmp, 'wafo', '__init__.py'), 'w').close()
            shutil.copy(path, os.path.join(tmp, 'wafo', fn))
            ctx = Context(proj=Project(tmp, minimum=1, inlining=False))
            res = mod.run(ctx, selftest=True)
        except Exception as e:                       # noqa
            out['failed'].append('%s: %s: %s' % (fn, type(e).__name__, e))
            continue
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        keys = {}
        for f in res.findings:
            keys.setdefault(f.key, []).append(f.msg)
        used = set()
        for w in want:
            w = w.strip()
            hit = [k for k, f in keys.items() if w in k or any(w in m for m in f)]
            out['count'] += 1
            if not hit:
                out['failed'].append('%s: expected finding %r not reported' % (fn, w))
            used.update(hit)
        out['count'] += len(re.findall(r'# OK', text))
        for k in keys:
            if k not in used:
                out['failed'].append('%s: unexpected finding %s: %s' % (fn, k, keys[k][0]))
    return out
