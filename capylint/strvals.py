"""Which texts can a string expression denote?  Flow-insensitive, interprocedural; HOLE marks unknown parts."""
import re
from .facts import CALLS, CTORS, rel
from .util import strip_casts, all_nodes, callee, repo_fns, lit_str

HOLE = '\x00'
LIMIT = 120


class StrVals:
    def __init__(self, facts):
        self.facts = facts
        self.sites = {}       # callee key -> [(fn, call)]
        self.defs = {}        # (tu, v) -> [(fn, 'set'|'add', node)]
        self.globals = {}
        for g in facts.globals:
            self.globals.setdefault(g['q'], g)
        for f in repo_fns(facts):
            for n in all_nodes(f):
                if n.k in CALLS or n.k in CTORS:
                    if n.f:
                        self.sites.setdefault(n.f, []).append((f, n))
                if n.k == 'DeclStmt':
                    for d in n.a.get('d', ()):
                        if d.get('i') is not None:
                            self.defs.setdefault((f.tu, d['v']), []).append((f, 'set', d['i']))
                elif n.k == 'BinaryOperator' and n.op == '=':
                    self._def(f, n.c[0], 'set', n.c[1])
                elif n.k == 'CXXOperatorCallExpr' and n.op in ('=', '+=') and len(n.c) == 2:
                    self._def(f, n.c[0], 'set' if n.op == '=' else 'add', n.c[1])
                elif n.k == 'CXXMemberCallExpr' and n.n in ('append', 'push_back', 'insert', 'replace', 'assign') and n.obj is not None:
                    self._def(f, n.obj, 'add', None)
                elif n.k == 'CallExpr' and n.n in ('format_to', 'back_inserter') and n.c:
                    self._def(f, n.c[0], 'add', None)
        self.params = {}
        for f in repo_fns(facts):
            for i, p in enumerate(f.params):
                self.params[(f.tu, p['v'])] = (f, i)
        self.memo = {}

    def _def(self, f, lhs, how, rhs):
        x = strip_casts(lhs)
        if x is not None and x.k == 'DeclRefExpr' and x.v is not None:
            self.defs.setdefault((f.tu, x.v), []).append((f, how, rhs))

    def vals(self, f, n, depth=0, busy=()):
        """set of texts with HOLEs; {HOLE} when nothing is known"""
        n = strip_casts(n)
        if n is None or depth > 12:
            return {HOLE}
        key = (id(f), n.id)
        if key in busy:
            return set()
        busy = busy + (key,)
        r = self._vals(f, n, depth, busy)
        if len(r) > LIMIT:
            return {HOLE}
        return r

    def _vals(self, f, n, depth, busy):
        k = n.k
        if k == 'StringLiteral':
            return {n.s if n.s is not None else HOLE}
        t = (n.t or '')
        if 'PdfName' in t:
            return {'/' + HOLE}
        if k in CTORS or k == 'CXXDefaultArgExpr' or k == 'InitListExpr':
            a = [x for x in n.c if x is not None]
            if not a:
                return {''}
            return self.vals(f, a[0], depth + 1, busy)
        if k == 'UserDefinedLiteral' and n.c:
            return self.vals(f, n.c[0], depth + 1, busy)
        if k == 'ConditionalOperator':
            return self.vals(f, n.c[1], depth + 1, busy) | self.vals(f, n.c[2], depth + 1, busy)
        if k == 'CharacterLiteral' and n.cvi() is not None:
            return {chr(n.cvi() & 255)}
        if k == 'DeclRefExpr':
            if n.v is not None:
                d = self.latest(f, n)
                if d is not None:
                    return self.vals(f, d, depth + 1, busy)
                return self.var(f, n.v, depth, busy)
            if n.dk == 'global':
                g = self.globals.get(n.q)
                if g is not None and g['var'].get('i') is not None:
                    return self.elems(f, g['var']['i'], depth, busy)
            return {HOLE}
        if k == 'CXXMemberCallExpr':
            if n.n and (n.n.startswith('operator ') or n.n in ('c_str', 'data', 'sv', 'view', 'value')) and n.obj is not None:
                return self.vals(f, n.obj, depth + 1, busy)
            if n.n in ('at', 'front', 'back') and n.obj is not None:
                return self.table(f, n.obj, depth, busy)
            if n.n == 'substr':
                return {HOLE}
        if k == 'CXXOperatorCallExpr' and n.op == '[]':
            return self.table(f, n.c[0], depth, busy)
        if k == 'ArraySubscriptExpr':
            return self.table(f, n.c[0], depth, busy)
        if k in ('CXXOperatorCallExpr', 'BinaryOperator') and n.op == '+' and len(n.c) == 2:
            a, b = self.vals(f, n.c[0], depth + 1, busy), self.vals(f, n.c[1], depth + 1, busy)
            return {x + y for x in a for y in b} if len(a) * len(b) <= LIMIT else {HOLE}
        if k == 'CXXOperatorCallExpr' and n.op == '*' and len(n.c) == 1:
            return self.vals(f, n.c[0], depth + 1, busy)
        if k == 'CallExpr' and n.n == 'format' and n.c:
            fs = self.vals(f, n.c[0], depth + 1, busy)
            out = set()
            for s in fs:
                out |= self.fill(f, s, n.c[1:], depth, busy)
            return out
        if k in CALLS:
            g = callee(self.facts, n)
            if g is not None and not g.dep and depth < 8:
                q = self.quoted(g, n)
                if q is not None:
                    return q
                out = set()
                for r in all_nodes(g):
                    if r.k == 'ReturnStmt' and r.c and r.c[0] is not None:
                        out |= self.vals(g, r.c[0], depth + 1, busy)
                return out or {HOLE}
        return {HOLE}

    def fill(self, f, s, args, depth, busy):
        parts = re.split(r'(\{[^{}]*\})', s.replace('{{', '\x01').replace('}}', '\x02'))
        outs = {''}
        i = 0
        for p in parts:
            if p.startswith('{') and p.endswith('}'):
                v = {HOLE}
                if p == '{}' and i < len(args) and args[i] is not None and self.texty(args[i].t):
                    v = self.vals(f, args[i], depth + 1, busy)
                i += 1
                outs = {a + b for a in outs for b in v} if len(outs) * len(v) <= LIMIT else {a + HOLE for a in outs}
            else:
                outs = {a + p for a in outs}
        return {o.replace('\x01', '{').replace('\x02', '}') for o in outs}

    @staticmethod
    def texty(t):
        return t is not None and ('char' in t)

    def table(self, f, obj, depth, busy):
        o = strip_casts(obj)
        if o is not None and o.k == 'DeclRefExpr' and o.dk == 'global':
            g = self.globals.get(o.q)
            if g is not None and g['var'].get('i') is not None:
                return self.elems(f, g['var']['i'], depth, busy)
        if o is not None and o.k == 'DeclRefExpr' and o.v is not None:
            ds = self.defs.get((f.tu, o.v), [])
            if len(ds) == 1 and ds[0][1] == 'set' and strip_casts(ds[0][2]).k in ('InitListExpr',):
                return self.elems(f, ds[0][2], depth, busy)
        return {HOLE}

    def elems(self, f, init, depth, busy):
        out = set()
        for x in init.walk():
            if x.k == 'StringLiteral':
                out.add(x.s)
        return out or {HOLE}

    def latest(self, f, use):
        """the assignment that certainly determines a local at this use (straight-line code only)"""
        if len(self.defs.get((f.tu, use.v), ())) < 2 or (f.tu, use.v) in self.params:
            return None
        dn = getattr(f, '_defnodes', None)
        if dn is None:
            dn = f._defnodes = {}
            for (tu, v), l in self.defs.items():
                for (g, how, rhs) in l:
                    if g is f:
                        dn.setdefault(v, []).append((how, rhs))
        x = use
        while x.parent is not None:
            p = x.parent
            if p.k == 'CompoundStmt':
                i = next((j for j, c in enumerate(p.c) if c is x), None)
                if i is None:
                    return None
                for s in reversed(p.c[:i]):
                    if s is None:
                        continue
                    if s.k == 'CXXOperatorCallExpr' and s.op == '=' or s.k == 'BinaryOperator' and s.op == '=':
                        l = strip_casts(s.c[0])
                        if l is not None and l.k == 'DeclRefExpr' and l.v == use.v:
                            return s.c[1]
                    if s.k == 'DeclStmt' and any(d['v'] == use.v for d in s.a.get('d', ())):
                        return next(d for d in s.a['d'] if d['v'] == use.v).get('i')
                    if any(y.k == 'DeclRefExpr' and y.v == use.v and not self._readonly(y) for y in s.walk()):
                        return None
            elif p.k in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt'):
                if any(y.k == 'DeclRefExpr' and y.v == use.v and y is not use and not self._readonly(y) for y in p.walk()):
                    return None
            elif p.k == 'LambdaExpr':
                return None
            x = p
        return None

    @staticmethod
    def _readonly(y):
        p = y.parent
        while p is not None and p.k in CTORS:
            p = p.parent
        if p is None:
            return False
        if p.k in ('CXXMemberCallExpr',) and p.cst:
            return True
        if p.k in CALLS and y in p.c and not (p.k == 'CXXOperatorCallExpr' and p.op in ('=', '+=')):
            return p.n in ('add_token', 'add_token_pair', 'add_token_with_slash', 'write_bytes')
        return False

    def var(self, f, v, depth, busy):
        key = (f.tu, v)
        ds = self.defs.get(key, [])
        out = set()
        add = False
        for (g, how, rhs) in ds:
            if how == 'add' or rhs is None:
                add = True
            else:
                out |= self.vals(g, rhs, depth + 1, busy)
        if key in self.params:
            g, i = self.params[key]
            ss = self.sites.get(g.key, ())
            if not ss or g.externc:
                out.add(HOLE)
            for (h, call) in ss:
                args = call.c
                if call.k == 'CXXOperatorCallExpr' and g.cls and not g.static:
                    args = args[1:]
                if i < len(args) and args[i] is not None:
                    out |= self.vals(h, args[i], depth + 1, busy)
                else:
                    out.add(HOLE)
        if not out and not ds:
            return {HOLE}
        if add:
            # texts assembled piecewise: the first pieces are not ordered here
            if out and all(o for o in out):
                return {o + HOLE for o in out}
            return {HOLE}
        return out

    def quoted(self, g, call):
        """what the quoting functions produce, from the byte-level analysis of their bodies"""
        from . import charflow
        if not hasattr(self, '_q'):
            self._q = {}
        if g.key not in self._q:
            self._q[g.key] = None
            if rel(g.file).startswith('src/') and charflow.candidate(g):
                res = charflow.analyse(self.facts, g)
                kinds = {k for i in res for k in res[i] if res[i][k] is None}
                self._q[g.key] = kinds or None
        kinds = self._q[g.key]
        if not kinds:
            return None
        if 'name' in kinds:
            from .rules.p05 import leading
            env = {}
            for p, a in zip(g.params, call.c):
                x = a
                if x is not None and x.k == 'CXXDefaultArgExpr' and x.c:
                    x = x.c[0]
                v = charflow.Interp(self.facts).num(x, {}, None) if x is not None else None
                if v is not None:
                    env[p['v']] = ('N', v)
            return {'/' + HOLE} if leading(self.facts, g, env) else {HOLE}
        if 'lit' in kinds:
            return {'(' + HOLE + ')'}
        return {HOLE}
