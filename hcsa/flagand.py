"""Intersections of flags: places where a sample is only flagged when two flag arrays agree."""
import ast
import re

POSITIVE = re.compile(r'flag|mask|bad|nans?$|xants', re.I)
NEGATIVE = re.compile(r'unflag|not_flag|no_flag|good|nonflag|flagged_or|flags_are|inv_|_ok', re.I)
THROUGH = {'copy', 'astype', 'reshape', 'array', 'asarray', 'repeat', 'squeeze', 'ravel', 'flatten', 'deepcopy', 'any', 'all', 'max', 'min', 'broadcast_to', 'expand_dims'}


def positive(n):
    """the expression is an (un-negated) array of flags"""
    if isinstance(n, ast.Subscript):
        return positive(n.value)
    if isinstance(n, ast.Name):
        return bool(POSITIVE.search(n.id)) and not NEGATIVE.search(n.id)
    if isinstance(n, ast.Attribute):
        return bool(POSITIVE.search(n.attr)) and not NEGATIVE.search(n.attr)
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Invert):
        v = n.operand
        return isinstance(v, ast.Call) and name(v.func) == 'isfinite'
    if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.BitOr, ast.BitAnd)):
        return positive(n.left) and positive(n.right)
    if isinstance(n, ast.Call):
        f = name(n.func)
        if f in ('isnan', 'isinf'):
            return True
        if f in THROUGH:
            if isinstance(n.func, ast.Attribute) and not (isinstance(n.func.value, ast.Name) and n.func.value.id in ('np', 'numpy', 'copy')):
                return positive(n.func.value)
            return bool(n.args) and positive(n.args[0])
        if f in ('logical_or', 'logical_and') and len(n.args) >= 2:
            return all(positive(a) for a in n.args[:2])
    return False


def name(f):
    return f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ''


def intersections(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.BitAnd) and positive(n.left) and positive(n.right):
            yield n
        elif isinstance(n, ast.AugAssign) and isinstance(n.op, ast.BitAnd) and positive(n.target) and positive(n.value):
            yield n
        elif isinstance(n, ast.Call) and name(n.func) in ('logical_and', 'bitwise_and') and len(n.args) >= 2 and positive(n.args[0]) and positive(n.args[1]):
            yield n


def reductions(tree):
    """number of reductions that flag only what every input flags (an intersection written as all/min/prod)"""
    k = 0
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and name(n.func) in ('all', 'min', 'amin', 'prod', 'reduce', 'intersection', 'isclose', 'intersect1d'):
            k += 1
        elif isinstance(n, ast.Call) and name(n.func) in ('logical_and', 'bitwise_and'):
            k += 1
    return k
