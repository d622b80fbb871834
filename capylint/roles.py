"""Interval analysis that also tracks which local holds which pointer / size parameter of the entry point."""
from .facts import CALLS, CTORS
from .util import strip_casts, path, pstr, canon
from .interval import IntervalClient, get, put, kill, INF, conversions, lossy


def role_of(st, n):
    if n is not None:
        types, inner = conversions(n)
        if types and inner is not None and lossy(types, (inner.t or '').replace('const ', '')):
            return None
    n = strip_casts(n)
    if n is not None and n.k == 'DeclRefExpr' and n.v is not None:
        return var_role(st, n.v)
    return None


def var_role(st, v):
    key = 'R:v%d' % v
    for k, a, b in st:
        if k == key:
            return a
    return None


def add_role(st, v, role):
    key = 'R:v%d' % v
    return frozenset([x for x in st if x[0] != key] + [(key, role, role)])


class RoleClient(IntervalClient):
    """inlines every repository function that is handed a tracked value"""
    max_inline = 6

    def on_node(self, st, n, ctx):
        rs = None
        if n.k == 'DeclStmt':
            rs = [(d['v'], role_of(st, d['i'])) for d in n.a.get('d', ()) if d.get('i') is not None]
        elif n.k == 'BinaryOperator' and n.op == '=':
            p = path(n.c[0])
            if p is not None and len(p) == 1 and p[0][0] == 'v':
                rs = [(p[0][1], role_of(st, n.c[1]))]
        out = IntervalClient.on_node(self, st, n, ctx)
        if rs:
            out2 = []
            for s in out:
                for v, role in rs:
                    if role is not None:
                        s = add_role(s, v, role)
                out2.append(s)
            return out2
        return out

    def inline(self, st, call, fn, ctx):
        if fn.cfg is None or ctx.depth > self.max_inline:
            return False
        return any(a is not None and role_of(st, a) is not None for a in call.c)

    def enter(self, st, call, fn, ctx):
        new = IntervalClient.enter(self, st, call, fn, ctx)
        for p, a in zip(fn.params, self.args_of(call, fn)):
            role = role_of(st, a) if a is not None else None
            if role is not None:
                new = add_role(new, p['v'], role)
        for role in known_roles(st):
            lo, hi = interval_of(st, role)
            new = put(new, 'I:' + role, lo, hi)
        return new

    @staticmethod
    def args_of(call, fn):
        args = call.c
        if call.k == 'CXXOperatorCallExpr' and fn.cls and not fn.static:
            args = args[1:]
        return args

    def leave(self, before, after, call, fn, ctx):
        # a by-value parameter's interval also holds for the (unchanged) argument
        return IntervalClient.leave(self, before, after, call, fn, ctx)


def interval_of(st, role):
    """tightest interval known about any local with this role"""
    lo, hi = -INF, INF
    for k, a, b in st:
        if k.startswith('R:v') and a == role:
            l, h = get(st, k[2:])
            lo, hi = max(lo, l), min(hi, h)
        elif k == 'I:' + role:
            lo, hi = max(lo, a), min(hi, b)
    return lo, hi


def known_roles(st):
    out = set()
    for k, a, b in st:
        if k.startswith('R:v'):
            out.add(a)
        elif k.startswith('I:'):
            out.add(k[2:])
    return out
