"""Flow-insensitive data dependence inside one function: which parameters an expression is
computed from, and through which constructs (used for memo keys)."""
import ast
import re
import string
from .project import walk_local

LOSSLESS_CALLS = {'repr', 'tuple', 'str', 'frozenset', 'sorted', 'float', 'bytes', 'tobytes', 'tolist', 'type', 'len_'}
LOSSY_CALLS = {'round', 'int', 'hash', 'len', 'id', 'around', 'rint', 'floor', 'ceil', 'abs', 'bool', 'format_float',
               'sum', 'max', 'min', 'mean', 'size', 'shape', 'sign', 'int32', 'float32', 'round_'}


def assigns(func):
    """name -> [value expressions] (loops, with and for targets included)."""
    out = {}

    def add(t, v):
        if isinstance(t, ast.Name):
            out.setdefault(t.id, []).append(v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = v.elts if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts) else [v] * len(t.elts)
            for x, y in zip(t.elts, vs):
                add(x, y)
        elif isinstance(t, ast.Starred):
            add(t.value, v)
    for n in walk_local(func.body if isinstance(func.node, ast.Lambda) else func.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                add(t, n.value)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)) and n.value is not None:
            add(n.target, n.value)
        elif isinstance(n, ast.For):
            add(n.target, n.iter)
        elif isinstance(n, ast.NamedExpr):
            add(n.target, n.value)
        elif isinstance(n, ast.withitem) and n.optional_vars is not None:
            add(n.optional_vars, n.context_expr)
    return out


def depends(func, expr, defs=None, seen=None):
    """parameters (and attributes of the receiver, as 'self.x') that expr is computed from"""
    defs = assigns(func) if defs is None else defs
    seen = set() if seen is None else seen
    out = set()
    params = set(func.all_params())
    stack = [expr]
    while stack:
        e = stack.pop()
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == 'self':
            out.add('self.' + e.attr)
            continue
        if isinstance(e, ast.Name):
            if e.id in params and e.id != 'self':
                out.add(e.id)
            if e.id in defs and e.id not in seen:
                seen.add(e.id)
                stack.extend(defs[e.id])
            continue
        if isinstance(e, ast.Call):
            if not isinstance(e.func, ast.Name):
                stack.append(e.func)
            elif e.func.id in params or e.func.id in defs:
                stack.append(e.func)
            stack.extend(e.args)
            stack.extend(k.value for k in e.keywords)
            continue
        stack.extend(ast.iter_child_nodes(e))
    return out


def injective(func, expr, defs=None, seen=None):
    """parameters recoverable from the value of expr (what a lookup key distinguishes)"""
    defs = assigns(func) if defs is None else defs
    seen = set() if seen is None else seen
    params = set(func.all_params())
    e = expr
    if isinstance(e, ast.Name):
        out = set()
        if e.id in defs and e.id not in seen:
            seen = seen | {e.id}
            sets = [injective(func, d, defs, seen) for d in defs[e.id]]
            out = set.intersection(*sets) if sets else set()
            if e.id in params and all(_only_self(d, e.id) for d in defs[e.id]):
                out |= {e.id}
        elif e.id in params:
            out = {e.id}
        return out
    if isinstance(e, ast.Attribute):
        if isinstance(e.value, ast.Name) and e.value.id == 'self':
            return {'self.' + e.attr}
        return set()
    if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
        out = set()
        for x in e.elts:
            out |= injective(func, x, defs, seen)
        return out
    if isinstance(e, ast.Starred):
        return injective(func, e.value, defs, seen)
    if isinstance(e, ast.BinOp):
        if isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Constant) and isinstance(e.left.value, str):
            return _percent(func, e, defs, seen)
        if isinstance(e.op, ast.Add):       # string/tuple concatenation
            return injective(func, e.left, defs, seen) | injective(func, e.right, defs, seen)
        return set()
    if isinstance(e, ast.JoinedStr):
        out = set()
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                spec = ''
                if v.format_spec is not None:
                    spec = ''.join(c.value for c in ast.walk(v.format_spec) if isinstance(c, ast.Constant))
                if _spec_ok(spec, v.conversion in (114, 115)):
                    out |= injective(func, v.value, defs, seen)
        return out
    if isinstance(e, ast.Call):
        n = e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, 'id', '')
        if n == 'format' and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Constant):
            return _format(func, e, defs, seen)
        if n in LOSSLESS_CALLS:
            out = set()
            for a in e.args:
                out |= injective(func, a, defs, seen)
            if isinstance(e.func, ast.Attribute) and not e.args:
                out |= injective(func, e.func.value, defs, seen)
            return out
        if n == 'join' and e.args:
            return injective(func, e.args[0], defs, seen)
        return set()
    return set()


def _only_self(d, name):
    """x = float(x), x = tuple(x): the parameter keeps its identity"""
    return (isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id in ('float', 'tuple', 'str')
            and len(d.args) == 1 and isinstance(d.args[0], ast.Name) and d.args[0].id == name)


def _spec_ok(spec, conv=False):
    if conv and not spec:
        return True
    if not spec:
        return True          # str() of floats round-trips
    m = re.match(r'^[<>=^+\- #0-9]*(\.(\d+))?([a-zA-Z%]?)$', spec)
    if not m:
        return False
    t, p = m.group(3), m.group(2)
    if t in ('d', 's', 'r', 'x', 'c', 'b', 'o', '') and p is None:
        return True
    return p is not None and int(p) >= 17 and t in ('g', 'e')


def _format(func, e, defs, seen):
    out = set()
    auto = 0
    kw = {k.arg: k.value for k in e.keywords}
    try:
        parts = list(string.Formatter().parse(e.func.value.value))
    except ValueError:
        return set()
    for _, field, spec, conv in parts:
        if field is None:
            continue
        if field == '':
            i, auto = auto, auto + 1
            v = e.args[i] if i < len(e.args) else None
        elif field.isdigit():
            v = e.args[int(field)] if int(field) < len(e.args) else None
        else:
            v = kw.get(field)
        if v is not None and _spec_ok(spec or '', conv in ('r', 's')):
            out |= injective(func, v, defs, seen)
    return out


def _percent(func, e, defs, seen):
    specs = re.findall(r'%[#0\- +]*(\d*)(\.\d+)?([a-zA-Z])', e.left.value)
    vals = list(e.right.elts) if isinstance(e.right, ast.Tuple) else [e.right]
    out = set()
    for (w, p, t), v in zip(specs, vals):
        if t in 'drsxi' and not p or (p and int(p[1:]) >= 17 and t in 'ge'):
            out |= injective(func, v, defs, seen)
    return out
