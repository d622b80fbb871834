"""Interval facts about integer-valued access paths, path-sensitively (client of flow.Explorer).

state: frozenset of (key, lo, hi); key is the canonical access path of a variable or field; pointers
use [1,inf) for "known non-null" and [0,0] for "known null".
"""
import re
from .facts import CALLS, CTORS
from .util import strip_casts, path, pstr, canon, aliases, callee
from .flow import Client, is_expected

INF = float('inf')


def get(st, key):
    for k, lo, hi in st:
        if k == key:
            return lo, hi
    return -INF, INF


def put(st, key, lo, hi):
    l = [(k, a, b) for (k, a, b) in st if k != key]
    if lo != -INF or hi != INF:
        l.append((key, lo, hi))
    return frozenset(l)


def kill(st, tok):
    if not st:
        return st
    pat = re.compile(r'(?<![\w.])' + re.escape(tok) + r'(?![\w])')
    return frozenset(x for x in st if not pat.search(x[0]))


RANGE = {}
for _n, _b in (('char', 8), ('short', 16), ('int', 32), ('long', 64), ('long long', 64)):
    RANGE['unsigned ' + _n] = (0, 2 ** _b - 1)
    RANGE[_n] = (-2 ** (_b - 1), 2 ** (_b - 1) - 1)
RANGE['signed char'] = RANGE['char']


def conversions(n):
    """integer types a value passes through on its way out of the expression, innermost first; and the innermost node"""
    out = []
    while n is not None:
        if n.ic and str(n.ic).replace('const ', '') in RANGE:
            out.append(str(n.ic).replace('const ', ''))
        if n.k in ('CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr') and n.c and n.c[0] is not None:
            t = (n.t or '').replace('const ', '')
            if t in RANGE:
                out.append(t)
            n = n.c[0]
            continue
        break
    out.reverse()
    # the value's own type first
    return out, n


def convert(lohi, types):
    lo, hi = lohi
    for t in types:
        a, b = RANGE[t]
        if lo < a or hi > b:
            lo, hi = a, b
    return lo, hi


def bounded(lohi, t):
    """a variable of that type cannot hold more than its type"""
    if (t or '').replace('const ', '') in RANGE:
        a, b = RANGE[t.replace('const ', '')]
        return max(lohi[0], a), min(lohi[1], b)
    return lohi


def lossy(types, own):
    """narrower than the variable the value comes from"""
    if own not in RANGE:
        return False
    w = RANGE[own][1] - RANGE[own][0]
    return any(RANGE[t][1] - RANGE[t][0] < w for t in types)


class IntervalClient(Client):
    def __init__(self, facts, inline_pred=None):
        self.facts = facts
        self.inline_pred = inline_pred

    # value of an expression
    def eval(self, st, n):
        if n is None:
            return -INF, INF
        types, inner = conversions(n)
        own = (inner.t or '').replace('const ', '') if inner is not None else ''
        if lossy(types, own):
            lo, hi = bounded(self.eval_inner(st, n), own)
            return convert((lo, hi), types)
        return self.eval_inner(st, n)

    def eval_inner(self, st, n):
        n = strip_casts(n)
        if n is None:
            return -INF, INF
        c = n.cvi()
        if c is not None:
            return c, c
        if n.k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr'):
            return 0, 0
        if n.k == 'UnaryOperator' and n.op == '&':
            return 1, INF
        if n.k == 'CXXNewExpr' or n.k == 'CXXThisExpr':
            return 1, INF
        if n.k in CALLS:
            v = get(st, '#r%d' % n.id)
            if v != (-INF, INF):
                return v
        k = canon(n)
        if k is not None:
            v = get(st, k)
            if v != (-INF, INF):
                return v
        if n.k == 'CXXMemberCallExpr' and n.n in ('size', 'length') and not n.c:
            return 0, INF
        if n.k == 'BinaryOperator' and n.op in ('+', '-', '*'):
            a, b = self.eval(st, n.c[0]), self.eval(st, n.c[1])
            try:
                if n.op == '+':
                    return a[0] + b[0], a[1] + b[1]
                if n.op == '-':
                    return a[0] - b[1], a[1] - b[0]
                if a[0] >= 0 and b[0] >= 0:
                    return a[0] * b[0], (INF if INF in (a[1], b[1]) else a[1] * b[1])
            except Exception:
                pass
        t = n.t or ''
        if t.startswith('unsigned') or t in ('bool',):
            return 0, (1 if t == 'bool' else INF)
        return -INF, INF

    def refine(self, st, cond, truth):
        c = strip_casts(cond)
        if c is None:
            return st
        if c.k == 'UnaryOperator' and c.op == '!':
            return self.refine(st, c.c[0], not truth)
        if c.k == 'CXXOperatorCallExpr' and c.op == '!' :
            return self.refine(st, c.c[0], not truth)
        if c.k in ('BinaryOperator', 'CXXRewrittenBinaryOperator', 'CXXOperatorCallExpr') and c.op in ('<', '>', '<=', '>=', '==', '!=') and len(c.c) == 2:
            a, b, op = c.c[0], c.c[1], c.op
            if not truth:
                op = {'<': '>=', '>': '<=', '<=': '>', '>=': '<', '==': '!=', '!=': '=='}[op]
            st = self._cmp(st, a, op, b)
            if st is None:
                return None
            inv = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}[op]
            return self._cmp(st, b, inv, a)
        if c.k in CALLS:
            lo, hi = get(st, '#r%d' % c.id)
            if lo == hi == 0:
                return None if truth else st
            if lo > 0 or hi < 0:
                return st if truth else None
        k = canon(c)
        if k is not None:
            lo, hi = get(st, k)
            if truth:
                if lo == 0 and hi == 0:
                    return None
                if (c.t or '').endswith('*') or lo >= 0:
                    return put(st, k, max(lo, 1), hi)
            else:
                if lo > 0 or hi < 0:
                    return None
                return put(st, k, 0, 0)
        return st

    def _cmp(self, st, a, op, b):
        # comparing an unsigned cast of a possibly negative value proves nothing about its sign
        k = canon(a)
        if k is None or strip_casts(a).cvi() is not None:
            return st
        lo, hi = get(st, k)
        blo, bhi = self.eval(st, b)
        types, inner = conversions(a)
        own = (inner.t or '').replace('const ', '') if inner is not None else ''
        if lossy(types, own) and convert(bounded((lo, hi), own), types) != bounded((lo, hi), own):
            # the comparison sees a wrapped value: decide it, but learn nothing
            wlo, whi = convert(bounded((lo, hi), own), types)
            if (op == '<' and wlo >= bhi) or (op == '<=' and wlo > bhi) or (op == '>' and whi <= blo) or (op == '>=' and whi < blo):
                return None
            return st
        signed_to_unsigned = self._sign_lost(a)
        if signed_to_unsigned and lo < 0:
            return st
        if op == '<':
            hi = min(hi, bhi - 1)
        elif op == '<=':
            hi = min(hi, bhi)
        elif op == '>':
            lo = max(lo, blo + 1)
        elif op == '>=':
            lo = max(lo, blo)
        elif op == '==':
            lo, hi = max(lo, blo), min(hi, bhi)
        elif op == '!=':
            if blo == bhi:
                if lo == blo:
                    lo += 1
                if hi == blo:
                    hi -= 1
        if lo > hi:
            return None
        return put(st, k, lo, hi)

    @staticmethod
    def _sign_lost(a):
        """explicit or implicit conversion of a signed value to an unsigned type"""
        n = a
        unsigned = False
        while n is not None:
            if n.ic and str(n.ic).startswith('unsigned'):
                unsigned = True
            if n.k in ('CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr') and n.c:
                if (n.t or '').startswith('unsigned'):
                    unsigned = True
                n = n.c[0]
                continue
            break
        return unsigned and n is not None and not (n.t or '').startswith('unsigned') and (n.t or '') in (
            'int', 'long', 'short', 'char', 'signed char', 'long long')

    def tri(self, st, c):
        """truth of a condition in this state: True, False or None (unknown)"""
        c = strip_casts(c)
        if c is None:
            return None
        if c.k == 'UnaryOperator' and c.op == '!':
            t = self.tri(st, c.c[0])
            return None if t is None else not t
        if c.k == 'BinaryOperator' and c.op in ('&&', '||'):
            a, b = self.tri(st, c.c[0]), self.tri(st, c.c[1])
            if c.op == '&&':
                return False if a is False or b is False else (True if a and b else None)
            return True if a or b else (False if a is False and b is False else None)
        v = c.cvi()
        if v is not None:
            return bool(v)
        if self.on_branch(st, c, True, None) is None:
            return False
        if self.on_branch(st, c, False, None) is None:
            return True
        return None

    def value(self, st, n, t):
        if (t or '').replace('const ', '') == 'bool':
            v = self.tri(st, n)
            return (0, 1) if v is None else (int(v), int(v))
        return self.eval(st, n)

    def on_return(self, st, n, ctx):
        # what the call evaluates to, for the caller
        if n.c and n.c[0] is not None and ctx.depth > 1:
            t = ctx.fn.rt or ''
            if t == 'bool':
                v = self.tri(st, n.c[0])
                if v is not None:
                    return put(st, '#ret', int(v), int(v))
            elif t in ('int', 'long', 'unsigned long', 'unsigned int', 'short', 'unsigned short', 'unsigned char', 'char'):
                lo, hi = self.eval(st, n.c[0])
                if (lo, hi) != (-INF, INF):
                    return put(st, '#ret', lo, hi)
        return st

    # client interface
    def on_node(self, st, n, ctx):
        r = self.use(st, n, ctx)
        if r is not None:
            st = r
        if n.k == 'DeclStmt':
            for d in n.a.get('d', ()):
                key = 'v%d' % d['v']
                lohi = self.value(st, d['i'], d['t']) if d.get('i') is not None and not d.get('ref') else (-INF, INF)
                st = kill(st, key)
                if lohi != (-INF, INF):
                    st = put(st, key, *lohi)
            return [st]
        if n.k == 'BinaryOperator' and n.op == '=':
            p = path(n.c[0])
            if p is not None:
                lohi = self.value(st, n.c[1], n.c[0].t)
                st = kill(st, pstr(p))
                if lohi != (-INF, INF):
                    st = put(st, pstr(p), *lohi)
            return [st]
        if n.k == 'CompoundAssignOperator' or (n.k == 'UnaryOperator' and n.op in ('++', '--')):
            p = path(n.c[0])
            if p is not None:
                lo, hi = get(st, pstr(p))
                st = kill(st, pstr(p))
                if n.op == '++' and lo != -INF:
                    st = put(st, pstr(p), lo, INF)
            return [st]
        if n.k == 'CXXOperatorCallExpr' and n.op and n.op.endswith('=') and n.op not in ('==', '!=', '<=', '>='):
            p = path(n.c[0])
            if p is not None:
                st = kill(st, pstr(p))
            return [st]
        if n.k == 'CXXMemberCallExpr' and not n.cst and n.obj is not None and n.n not in ('begin', 'end', 'at', 'value', 'operator*', 'operator->', 'back', 'front', 'data'):
            p = path(n.obj)
            if p is not None and len(p) >= 1:
                st = kill(st, pstr(p))
            return [st]
        return [st]

    def use(self, st, n, ctx):
        """rule hook"""
        return None

    def on_branch(self, st, cond, truth, ctx):
        return self.refine(st, cond, truth)

    def on_switch(self, st, b, idx, succ, ctx):
        if b.cond is None:
            return st
        k = canon(strip_casts(b.cond))
        if k is None:
            return st
        lab = succ.lab
        if lab is not None and lab.k == 'CaseStmt':
            cv = strip_casts(lab.c[0]).cvi()
            if cv is not None:
                lo, hi = get(st, k)
                # several labels may share the block: only usable when the block has one label
                if lab.c[1] is None or lab.c[1].k != 'CaseStmt':
                    if cv < lo or cv > hi:
                        return None
                    return put(st, k, cv, cv)
        return st

    def inline(self, st, call, fn, ctx):
        return self.inline_pred is not None and fn.cfg is not None and self.inline_pred(st, call, fn, ctx)

    def enter(self, st, call, fn, ctx):
        r = self.use(st, call, ctx)
        new = frozenset()
        args = call.c
        if call.k == 'CXXOperatorCallExpr' and fn.cls and not fn.static:
            args = args[1:]
        for p, a in zip(fn.params, args):
            if a is None:
                continue
            lo, hi = self.eval(st, a)
            if (lo, hi) != (-INF, INF):
                new = put(new, 'v%d' % p['v'], lo, hi)
        return new

    def leave(self, before, after, call, fn, ctx):
        args = call.c
        if call.k == 'CXXOperatorCallExpr' and fn.cls and not fn.static:
            args = args[1:]
        st = put(before, '#r%d' % call.id, *get(after, '#ret'))
        for p, a in zip(fn.params, args):
            if a is None or p['t'].endswith('&') and not p['t'].startswith('const'):
                continue
            lo, hi = get(after, 'v%d' % p['v'])
            if (lo, hi) == (-INF, INF):
                continue
            k = canon(a)
            if k is not None and strip_casts(a).cvi() is None:
                l0, h0 = get(st, k)
                st = put(st, k, max(lo, l0), min(hi, h0))
        if call.k == 'CXXMemberCallExpr' and not call.cst and call.obj is not None:
            p = path(call.obj)
            if p is not None:
                st = kill(st, pstr(p))
        return st
