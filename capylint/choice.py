"""Which constants does a piece of code select for each enumerator of the enumeration it looks at?

For a function, a subject (an expression of enumeration type, identified by its access path) and an enumerator, the part of the control flow
graph that can be reached when the subject has that value is computed by deciding every condition that only depends on the subject, and the
constants in that part are collected: texts, elements of constant tables indexed with the subject, returned numbers, enumerators, members.
"""
import re
from .facts import CALLS, CTORS
from .util import strip_casts, all_nodes, callee, branch_cond, split_not, lambda_fns, path, pstr
from .origins import clean

OPT = re.compile(r'std::optional<(?:const )?([\w:() ]+)>')


class Choice:
    def __init__(self, facts):
        self.facts = facts
        self.enums = {}
        for k, e in facts.enums.items():
            for nm in (e.get('td'), e['q'], k):
                if nm:
                    self.enums[nm] = e
        self.globals = {}
        for g in facts.globals:
            if g['var'].get('i') is not None:
                self.globals[g['q']] = g
        self.memo = {}
        self._loc = {}

    # -- subjects
    def enum_of(self, n):
        """(enumeration, optional?) an expression has the type of"""
        t = clean(n.t or '').strip()
        m = OPT.match(t)
        if m:
            t = m.group(1).strip()
        e = self.enums.get(t)
        return e

    def locals(self, f):
        if f.key not in self._loc:
            d, w = {}, set()
            for n in all_nodes(f):
                if n.k == 'DeclStmt':
                    for x in n.a.get('d', ()):
                        d[x['v']] = x.get('i')
                elif n.k in ('BinaryOperator', 'CompoundAssignOperator') and n.op.endswith('=') and n.op not in ('==', '!=', '<=', '>='):
                    x = strip_casts(n.c[0])
                    if x is not None and x.k == 'DeclRefExpr':
                        w.add(x.v)
                elif n.k == 'CXXOperatorCallExpr' and n.op == '=' and n.c:
                    x = strip_casts(n.c[0])
                    if x is not None and x.k == 'DeclRefExpr':
                        w.add(x.v)
            self._loc[f.key] = (d, w)
        return self._loc[f.key]

    def key(self, f, n, depth=0):
        """access path of a value, seen through dereferences, value(), casts and locals that are set once"""
        x = strip_casts(n)
        if x is None or depth > 12:
            return None
        if x.k in CTORS and len(x.c) == 1 and x.c[0] is not None:
            return self.key(f, x.c[0], depth + 1)
        if x.k == 'CXXOperatorCallExpr' and x.op in ('*', '->') and len(x.c) == 1:
            return self.key(f, x.c[0], depth + 1)
        if x.k == 'UnaryOperator' and x.op == '*':
            return self.key(f, x.c[0], depth + 1)
        if x.k == 'CXXMemberCallExpr' and x.n in ('value', 'get', 'operator*', 'operator->', 'to_underlying') and x.obj is not None:
            return self.key(f, x.obj, depth + 1)
        if x.k == 'CallExpr' and x.n in ('to_underlying', 'move', 'forward', 'as_const') and len(x.c) == 1:
            return self.key(f, x.c[0], depth + 1)
        if x.k == 'CXXMemberCallExpr' and x.a.get('cst') and not x.c and x.obj is not None and self.enum_of(x) is not None:
            b = self.key(f, x.obj, depth + 1)
            return b + '.' + x.n + '()' if b is not None else None
        if x.k == 'DeclRefExpr' and x.v is not None:
            d, w = self.locals(f)
            if x.v in d and x.v not in w and d[x.v] is not None:
                i = strip_casts(d[x.v])
                if i is not None and i.k not in ('CallExpr',) or i is not None and i.n in ('to_underlying', 'move'):
                    k = self.key(f, i, depth + 1)
                    if k is not None:
                        return k
            return 'v%d' % x.v
        if x.k == 'CXXThisExpr':
            return 'this'
        if x.k == 'MemberExpr' and x.c and x.c[0] is not None:
            b = self.key(f, x.c[0], depth + 1)
            return b + '.' + x.n if b is not None else None
        if x.k == 'MemberExpr':
            return 'this.' + x.n
        return None

    def variant(self, f, v):
        """what a local obtained with get_if looks into"""
        d, w = self.locals(f)
        i = strip_casts(d.get(v)) if d.get(v) is not None else None
        if i is not None and i.k == 'CallExpr' and i.n == 'get_if' and i.c:
            a = strip_casts(i.c[0])
            if a is not None and a.k == 'UnaryOperator' and a.op == '&':
                return self.key(f, a.c[0])
        return None

    def subjects(self, f):
        """{key: enumeration} of the values of enumeration type a function looks at"""
        out = {}
        for n in all_nodes(f):
            if n.k in ('DeclRefExpr', 'MemberExpr', 'CXXOperatorCallExpr', 'CXXMemberCallExpr', 'UnaryOperator') and n.dk != 'enumc':
                e = self.enum_of(n)
                if e is not None:
                    k = self.key(f, n)
                    if k is not None:
                        out[k] = e
        return out

    # -- evaluation
    def ev(self, f, n, s, v, depth=0):
        """value of an expression when subject s is v (None: not known)"""
        x = strip_casts(n)
        if x is None or depth > 20:
            return None
        if x.cvi() is not None:
            return x.cvi()
        if x.k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr'):
            return 0
        if x.k == 'CXXBoolLiteralExpr':
            return int(bool(x.cvi()))
        if self.enum_of(x) is not None or x.k in ('DeclRefExpr', 'MemberExpr'):
            if self.key(f, x) == s:
                if OPT.match(clean(x.t or '')) or (x.t or '').rstrip(' const').endswith('*'):
                    return 1      # asked whether it is there
                return v
        k = x.k
        if k == 'UnaryOperator' and x.op == '!':
            a = self.ev(f, x.c[0], s, v, depth + 1)
            return None if a is None else int(not a)
        if k == 'UnaryOperator' and x.op in ('+', '-'):
            a = self.ev(f, x.c[0], s, v, depth + 1)
            return None if a is None else (-a if x.op == '-' else a)
        if k == 'CXXMemberCallExpr' and x.n in ('has_value', 'operator bool') and x.obj is not None:
            if self.key(f, x.obj) == s:
                return 1
            return None
        if k == 'DeclRefExpr' and x.v is not None:
            w = self.variant(f, x.v)
            if w is not None and s.startswith('v'):
                m = re.match(r'v(\d+)$', s)
                if m and int(m.group(1)) != x.v and self.variant(f, int(m.group(1))) == w:
                    return 0
            d, wr = self.locals(f)
            if x.v in d and x.v not in wr and d[x.v] is not None and clean(x.t or '') in ('bool', 'int', 'unsigned int', 'long', 'unsigned long'):
                return self.ev(f, d[x.v], s, v, depth + 1)
            return None
        if k in ('BinaryOperator', 'CXXOperatorCallExpr', 'CXXRewrittenBinaryOperator') and len(x.c) == 2:
            a, b = self.ev(f, x.c[0], s, v, depth + 1), self.ev(f, x.c[1], s, v, depth + 1)
            op = x.op
            if op == '&&':
                if a == 0 or b == 0:
                    return 0
                return None if a is None or b is None else 1
            if op == '||':
                if a or b:
                    return 1
                return None if a is None or b is None else 0
            if a is None or b is None:
                return None
            try:
                return {'==': lambda: int(a == b), '!=': lambda: int(a != b), '<': lambda: int(a < b), '>': lambda: int(a > b),
                        '<=': lambda: int(a <= b), '>=': lambda: int(a >= b), '+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b,
                        '&': lambda: a & b, '|': lambda: a | b, '<<': lambda: a << b, '>>': lambda: a >> b}[op]()
            except (KeyError, ValueError):
                return None
        if k == 'ConditionalOperator':
            c = self.ev(f, x.c[0], s, v, depth + 1)
            if c is None:
                a, b = self.ev(f, x.c[1], s, v, depth + 1), self.ev(f, x.c[2], s, v, depth + 1)
                return a if a == b else None
            return self.ev(f, x.c[1] if c else x.c[2], s, v, depth + 1)
        return None

    # -- reachability
    def reach(self, f, s, v):
        cfg = f.cfg
        seen, work = {cfg.entry}, [cfg.entry]
        while work:
            b = cfg.blocks[work.pop()]
            if b.nr:
                continue
            succs = [x for x in b.succs]
            if b.tk == 'SwitchStmt' and b.cond is not None:
                c = self.ev(f, b.cond, s, v)
                if c is not None:
                    hit = [x for x in succs if x >= 0 and c in self.labels(cfg.blocks[x].lab)]
                    succs = hit or [x for x in succs if x >= 0 and not self.labels(cfg.blocks[x].lab)]
            elif len(succs) == 2 and b.cond is not None:
                cnd, pol = split_not(branch_cond(b))
                c = self.ev(f, cnd, s, v)
                if c is not None:
                    succs = [succs[0] if bool(c) == pol else succs[1]]
            for x in succs:
                if x >= 0 and x not in seen:
                    seen.add(x)
                    work.append(x)
        return seen

    @staticmethod
    def labels(lab):
        out = []
        while lab is not None and lab.k == 'CaseStmt':
            cv = strip_casts(lab.c[0])
            cv = cv.cvi() if cv is not None else None
            out.append(cv)
            if len(lab.c) > 1 and lab.c[1] is not None and lab.c[1].k == 'CaseStmt':
                lab = lab.c[1]
            else:
                nxt = [c for c in lab.c[1:] if c is not None and c.k == 'CaseStmt']
                lab = nxt[0] if nxt else None
        return out

    # -- tables
    def table(self, f, o):
        """elements of a constant table"""
        x = strip_casts(o)
        i = None
        if x is not None and x.k == 'DeclRefExpr':
            if x.v is not None and x.v in self.locals(f)[0]:
                i = self.locals(f)[0][x.v]
            elif x.q in self.globals:
                i = self.globals[x.q]['var']['i']
        elif x is not None and x.k == 'MemberExpr' and x.q in self.globals:
            i = self.globals[x.q]['var']['i']
        x = strip_casts(i) if i is not None else None
        while x is not None and x.k in ('ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXFunctionalCastExpr') or x is not None and x.k in CTORS:
            x = strip_casts(x.c[0]) if x.c else None
        for _ in range(3):
            if x is not None and x.k == 'InitListExpr' and len(x.c) == 1 and x.c[0] is not None and strip_casts(x.c[0]) is not None and \
                    strip_casts(x.c[0]).k == 'InitListExpr':
                x = strip_casts(x.c[0])
        if x is None or x.k not in ('InitListExpr', 'CXXStdInitializerListExpr'):
            return None
        return [self.atom(c) for c in x.c]

    @staticmethod
    def atom(c):
        y = strip_casts(c)
        for _ in range(6):
            if y is not None and (y.k in CTORS or y.k in ('MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'UserDefinedLiteral',
                                                           'ExprWithCleanups')) and y.c:
                y = strip_casts(y.c[0])
        if y is None:
            return None
        if y.k == 'StringLiteral':
            return y.s
        if y.cvi() is not None:
            return ('#', y.cvi())
        return None

    # -- constants
    def consts(self, f, s, v, busy=()):
        """the constants in the code of f that can be reached when s has value v: texts, ('#', n), ('E', name), ('M', member)"""
        k = (f.key, s, v)
        if k in self.memo:
            return self.memo[k]
        if k in busy or f.cfg is None or len(busy) > 8:
            return frozenset()
        out = set()
        for bi in self.reach(f, s, v):
            b = f.cfg.blocks[bi]
            if b.nr:
                continue
            for e in b.e:
                if not isinstance(e, tuple):
                    self.collect(f, e, s, v, out, busy + (k,))
        r = frozenset(out)
        self.memo[k] = r
        return r

    def collect(self, f, n, s, v, out, busy):
        stack = [n]
        while stack:
            x = stack.pop()
            if x is None or x.k == 'LambdaExpr':
                continue
            if x.k == 'ConditionalOperator':
                c = self.ev(f, x.c[0], s, v)
                stack += [x.c[1], x.c[2]] if c is None else [x.c[1] if c else x.c[2]]
                continue
            if x.k in ('IfStmt', 'ForStmt', 'WhileStmt', 'SwitchStmt', 'CXXForRangeStmt', 'DoStmt', 'CompoundStmt', 'CXXTryStmt'):
                continue
            if x.k == 'StringLiteral' and x.s is not None:
                out.add(x.s)
                continue
            if x.k == 'ReturnStmt' and x.c and x.c[0] is not None:
                c = self.ev(f, x.c[0], s, v)
                if c is not None and self.key(f, x.c[0]) != s:
                    out.add(('#', c))
            if x.k == 'MemberExpr' and x.dk == 'field':
                out.add(('M', x.n))
                for y in x.c[0].walk():
                    if y.k == 'DeclRefExpr' and y.dk == 'enumc':
                        out.add(('E', y.n))
            base = idx = None
            if x.k == 'CXXMemberCallExpr' and x.n == 'at' and x.obj is not None and x.c:
                base, idx = x.obj, x.c[0]
            elif x.k == 'CXXOperatorCallExpr' and x.op == '[]' and len(x.c) == 2 or x.k == 'ArraySubscriptExpr' and len(x.c) == 2:
                base, idx = x.c[0], x.c[1]
            elif x.k == 'CallExpr' and x.n == 'get' and False:
                pass
            if base is not None and self.depends(f, idx, s):
                t = self.table(f, base)
                i = self.ev(f, idx, s, v)
                if t is not None and i is not None:
                    a = t[i] if 0 <= i < len(t) else ('OUT', len(t))
                    if a is not None:
                        out.add(a)
                    else:
                        out.add(('?', ''))
                    stack.append(idx)
                    continue
            if x.k in CALLS or x.k in CTORS:
                g = callee(self.facts, x)
                if g is not None and not g.dep and g.body is not None:
                    args = x.c[1:] if x.k == 'CXXOperatorCallExpr' and g.cls else x.c
                    for p, a in zip(g.params, args):
                        if a is None:
                            continue
                        if self.key(f, a) == s and (self.enum_of(strip_casts(a)) is not None):
                            out |= self.consts(g, 'v%d' % p['v'], v, busy)
                        else:
                            c = self.ev(f, a, s, v) if self.depends(f, a, s) else None
                            if c is not None and clean(p['t']) in ('int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned char'):
                                out |= self.consts(g, 'v%d' % p['v'], c, busy)
                    if x.k == 'CXXMemberCallExpr' and x.obj is not None:
                        b = self.key(f, x.obj)
                        if b is not None and (s == b or s.startswith(b + '.')):
                            out |= self.consts(g, 'this' + s[len(b):], v, busy)
            stack += [c for c in x.c if c is not None]
            if x.obj is not None:
                stack.append(x.obj)
            if x.k == 'DeclStmt':
                stack += [d['i'] for d in x.a.get('d', ()) if d.get('i') is not None]

    def depends(self, f, n, s):
        x = strip_casts(n)
        if x is None:
            return False
        for y in x.walk():
            if y.k in ('DeclRefExpr', 'MemberExpr') and self.key(f, y) == s:
                return True
        if x.k == 'DeclRefExpr' and x.v is not None:
            d, w = self.locals(f)
            if x.v in d and d[x.v] is not None and d[x.v] is not n and x.v not in w:
                return self.depends(f, d[x.v], s) if strip_casts(d[x.v]) is not x else False
        return False

    def selected(self, f, s, e):
        """{enumerator: constants selected for it and not for every enumerator}"""
        sets = {x[0]: self.consts(f, s, x[1]) for x in e['e']}
        common = frozenset.intersection(*sets.values()) if sets else frozenset()
        return {k: c - common for k, c in sets.items()}


def build(facts):
    c = getattr(facts, '_choice', None)
    if c is None:
        c = facts._choice = Choice(facts)
    return c
