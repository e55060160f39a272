#!/usr/bin/env python3
"""Writes sa/uses.json: for each method, the constructor options and contents of its object that influence it today."""
import ast
import json
import os
import sys
import warnings
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.setrecursionlimit(20000)
warnings.simplefilter('ignore')
from sa.framework import Context, Result  # noqa
from sa.rules import effective as R  # noqa

LABELS = {'title', 'xlab', 'ylab', 'zlab', 'labels', 'plotter', 'date', 'name', 'note', 'children', 'plot_args', 'plot_kwds', 'trace', 'longname',
          'shortname', 'info', 'x_trace', 'y_trace', 'plot_args_children'}
SKIP = ('plot', 'setlabels', 'setplotter', 'labelfig', 'copy', '__init__', '__str__', '__repr__', '__getattr__', '_labelfig', '_get_plot_labels',
        '_fit_summary_text', '__ne__', '__eq__', 'profile', 'profile_probability', 'profile_quantile')


def options(c):
    out = {'data', 'args'}
    for k in c.classes():
        i = k.methods.get('__init__')
        if i is None:
            continue
        out |= set(i.params[1:])
        if i.kwarg is not None:
            for n in ast.walk(i.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == i.params[0]:
                    out.add(n.attr.lstrip('_'))
    return out - LABELS


def main():
    ctx = Context()
    rule = R.Rule(ctx, Result(rule='', explanation=''), False)
    out = {}
    for q, f in sorted(ctx.proj.funcs.items()):
        if f.parent is not None or f.cls is None or not f.is_method or q not in rule.sums or '@' in q:
            continue
        if f.name in SKIP or f.name.startswith(('plot', '_plot')):
            continue
        for c in [f.cls]:
            u = R.own_uses(rule, f)
            if u is None:
                continue
            u &= options(c)
            if u:
                own = f.name.startswith('_') and f.name != '__call__'
                out[q + ('(%s)' % ','.join(f.params[1:]) if own else '')] = ' '.join(sorted(u))
    with open(H + '/sa/uses.json', 'w') as fh:
        json.dump(out, fh, indent=0, sort_keys=True)
        fh.write('\n')
    print(len(out), sum(len(v.split()) for v in out.values()))


main()
