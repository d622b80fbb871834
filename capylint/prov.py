"""Provenance: which parameters of the public C functions a written value is computed from.

Demand-driven, backward, flow-insensitive, with access paths (fields are followed through copies, containers, optionals,
variants and record initialisers) and with call strings (a helper's parameter is resolved at the call it was reached
through).  An object handed in through the C interface is resolved through everything that stores into its field anywhere.

atoms: ('p', function, parameter index, path)   parameter of an extern "C" function
       ('c', node key)                          literal / enumerator
       ('?', node key)                          not understood
"""
from .facts import CALLS, CTORS, rel
from .util import strip_casts, all_nodes, callee, repo_fns, lambda_fns
from .origins import clean, failure, PUSH, ELEM, PASSFN
from . import origins

INT = 'capypdf::internal::'
LIMIT = 60
ARITH = ('+', '-', '*', '/', '%', '<<', '>>', '&', '|', '^')


def chooses(n):
    """a condition that selects between values, rather than being one"""
    p = n
    while p.parent is not None:
        q = p.parent
        if q.k in ('ConditionalOperator', 'IfStmt'):
            return q.c and q.c[0] is p or q.k == 'IfStmt'
        if not (q.k.endswith('CastExpr') or q.k == 'ParenExpr'):
            return False
        p = q
    return False


class Prov:
    def __init__(self, facts):
        self.facts = facts
        self.o = origins.build(facts)
        self.vdefs = {}      # (tu, v) -> [(path, fn, expr)]
        self.fdefs = {}      # (cls, field) -> [(path, fn, expr)]  path starts with (cls, field)
        self.adefs = {}      # the same, for assignments through a pointer or reference into a larger object
        self.fills = {}
        self.visits = {}     # lambda key -> [(fn, call, subject expr)]
        # single-field value classes (u8string, LimitDouble, handles, ..) stand for what they hold
        hasfn = {f.cls for f in facts.fns.values() if f.cls and f.n[0] not in '~' and f.n != f.cls.rsplit('::', 1)[-1] and
                 not f.n.startswith('operator')}
        self.trans = {q for q, r in facts.records.items() if len(r['fields']) == 1 and not r.get('bases') and
                      (q.startswith(INT) and q in hasfn or q.startswith('CapyPDF_') or q.startswith('_capyPDF'))}
        self.noobj = False   # do not follow the contents of the document's tables (handles only)
        self.memo = {}
        self._refs = None
        for f in repo_fns(facts):
            for n in all_nodes(f):
                self.scan(f, n)
            for i in f.inits:
                if i.get('i') is not None and i.get('m') and f.cls not in self.trans:
                    self.fdefs.setdefault((f.cls, i['m']), []).append((((f.cls, i['m']),), f, i['i']))

    # ---- definitions
    def lhs(self, f, n):
        """(base node, path) of an lvalue"""
        path = []
        n = strip_casts(n)
        for _ in range(30):
            if n is None:
                return None, ()
            k = n.k
            if k == 'MemberExpr' and n.dk == 'field':
                if not (n.cls or '').startswith('std::') and n.cls not in self.trans:
                    path.insert(0, (n.cls, n.n))
                n = strip_casts(n.c[0]) if n.c else None
                if n is None:
                    return ('this',), tuple(path)
            elif k in ('UnaryOperator',) and n.op in ('*', '&') or k == 'ArraySubscriptExpr':
                n = strip_casts(n.c[0])
            elif k == 'CXXOperatorCallExpr' and n.op in ('*', '->', '[]') and n.c:
                n = strip_casts(n.c[0])
            elif k == 'CXXMemberCallExpr' and n.n in ELEM and n.obj is not None and (n.cls or '').startswith(('std::', '__gnu_cxx')):
                n = strip_casts(n.obj)
            elif k == 'CallExpr' and n.q in PASSFN and n.c:
                n = strip_casts(n.c[0])
            elif k == 'CXXThisExpr':
                return ('this',), tuple(path)
            elif k == 'DeclRefExpr' and n.v is not None:
                return ('v', f.tu, n.v), tuple(path)
            else:
                return None, tuple(path)
        return None, ()

    def isref(self, f, v):
        if self._refs is None:
            self._refs = set()
            for g in repo_fns(self.facts):
                for m in all_nodes(g):
                    if m.k == 'DeclStmt':
                        for d in m.a.get('d', ()):
                            if d.get('ref') or '&' in d.get('t', '') or '&' in d.get('ts', ''):
                                self._refs.add((g.tu, d['v']))
        return (f.tu, v) in self._refs

    def define(self, f, target, expr, extra=()):
        base, path = self.lhs(f, target)
        path = path + extra
        if base is not None and base[0] == 'v':
            self.vdefs.setdefault(base[1:], []).append((path, f, expr))
        for i in range(len(path)):
            self.fdefs.setdefault(path[i], []).append((path[i:], f, expr))
        if path:
            x = strip_casts(target)
            while x is not None and x.k == 'MemberExpr' and x.c:
                y = strip_casts(x.c[0])
                if y is not None and y.k == 'DeclRefExpr' and (x.a.get('arrow') or '*' in y.t or self.isref(f, y.v)):
                    self.adefs.setdefault(path[0], []).append((path, f, expr))
                    break
                x = y

    def scan(self, f, n):
        k = n.k
        if k in CALLS:
            # an object handed to a function that fills it in
            for x in ([n.obj] if n.obj is not None else []) + list(n.c):
                x = strip_casts(x)
                if x is not None and x.k == 'UnaryOperator' and x.op == '&':
                    x = strip_casts(x.c[0])
                if x is not None and x.k == 'DeclRefExpr' and x.v is not None and clean(x.t).startswith(INT):
                    g = callee(self.facts, n)
                    if g is not None and g.body is not None and not (x is strip_casts(n.obj) and g.const):
                        self.fills.setdefault((f.tu, x.v), []).append((f, n, g))
        if k == 'DeclStmt':
            for d in n.a.get('d', ()):
                if d.get('i') is not None:
                    self.vdefs.setdefault((f.tu, d['v']), []).append(((), f, d['i']))
                for b in d.get('bind', ()):
                    if b.get('e') is not None and b['e'].k == 'DeclRefExpr' and d.get('i') is not None:
                        # a member of a pair / tuple: bound through a hidden variable
                        self.vdefs.setdefault((f.tu, b['v']), []).append(((), f, d['i']))
                    elif b.get('e') is not None:
                        self.vdefs.setdefault((f.tu, b['v']), []).append(((), f, b['e']))
        elif k == 'BinaryOperator' and n.op == '=' or k == 'CXXOperatorCallExpr' and n.op == '=' and len(n.c) == 2:
            self.define(f, n.c[0], n.c[1])
        elif k in ('CompoundAssignOperator', 'BinaryOperator', 'CXXOperatorCallExpr') and n.op in ('+=', '-=', '|=', '*=', '/=') and len(n.c) == 2:
            self.define(f, n.c[0], n.c[1])
        elif k == 'CXXMemberCallExpr' and n.n in PUSH and n.obj is not None:
            a = [x for x in n.c if x is not None and x.k != 'CXXDefaultArgExpr']
            if len(a) > 1 and n.n in ('insert', 'emplace', 'insert_or_assign', 'try_emplace', 'assign'):
                for x in a:
                    self.define(f, n.obj, x)
                return
            if n.n == 'emplace_back' and len(a) > 1:
                el = self.elem_record(n.obj.t)
                if el is not None:
                    for name, x in zip(self.o.fields.get(el, ()), a):
                        self.define(f, n.obj, x, ((el, name),))
                    return
            if n.n == 'emplace' and len(a) == 1 or n.n == 'emplace_back' and len(a) == 1:
                pass
            for x in a:
                self.define(f, n.obj, x)
        elif k in CALLS and n.n in ('memcpy', 'strcpy') and n.c:
            self.define(f, n.c[0], n.c[1])
        elif k == 'CallExpr' and n.n in ('swap', 'exchange') and len(n.c) == 2 and callee(self.facts, n) is None:
            self.define(f, n.c[0], n.c[1])
            if n.n == 'swap':
                self.define(f, n.c[1], n.c[0])
        elif k == 'CXXMemberCallExpr' and n.n == 'swap' and n.obj is not None and len(n.c) == 1 and callee(self.facts, n) is None:
            self.define(f, n.obj, n.c[0])
            self.define(f, n.c[0], n.obj)
        if k == 'InitListExpr' and n.a.get('rec') and n.a['rec'] not in self.trans:
            for fl, x in zip(n.a.get('flds') or (), n.c):
                if x is not None and x.k != 'CXXDefaultInitExpr':
                    self.fdefs.setdefault((n.a['rec'], fl), []).append((((n.a['rec'], fl),), f, x))
        elif k == 'CXXParenListInitExpr':
            t = clean(n.t)
            for fl, x in zip(self.paren_fields(t), n.c):
                if x is not None and fl is not None:
                    self.fdefs.setdefault((t, fl), []).append((((t, fl),), f, x))
        if k == 'CallExpr' and n.n == 'visit' and len(n.c) > 1:
            l = lambda_fns(self.facts, n.c[0])
            x = strip_casts(n.c[0])
            if not l and x is not None and x.k == 'DeclRefExpr' and x.v is not None:
                for m in all_nodes(f):
                    if m.k == 'DeclStmt':
                        for d in m.a.get('d', ()):
                            if d['v'] == x.v and d.get('i') is not None:
                                l = lambda_fns(self.facts, d['i'])
            for g in l:
                self.visits.setdefault(g.key, []).append((f, n, n.c[1]))

    def paren_fields(self, t):
        r = self.facts.records.get(t)
        return [None] * len((r or {}).get('bases') or ()) + list(self.o.fields.get(t, ()))

    def elem_record(self, t):
        t = clean(t)
        if '<' in t:
            inner = t[t.index('<') + 1:].split(',')[0].rstrip('> ')
            if inner in self.o.fields:
                return inner
        return None

    # ---- queries
    def of(self, f, n, path=(), ctx=(), handles=False):
        self.steps = 0
        self.cuts = set()
        if handles != self.noobj:
            self.noobj = handles
            self.memo = {}
        return self.src(f, n, tuple(path), tuple(ctx), frozenset(), 0)

    def src(self, f, n, path, ctx, busy, depth):
        n0, n = n, strip_casts(n)
        if n is None:
            return frozenset()
        m = n0
        while m is not None:
            if m.ick == 'FloatingToIntegral' or m.ck == 'FloatingToIntegral':
                r = self.src1(f, n, path, ctx, busy, depth)
                return r | {('a', (f.key, n.id), 'truncation')} if any(a[0] == 'p' for a in r) else r
            if m is n or not m.c:
                break
            m = m.c[0]
        return self.src1(f, n, path, ctx, busy, depth)

    def src1(self, f, n, path, ctx, busy, depth):
        key = (f.key, n.id, path, ctx)
        if key in self.memo:
            return self.memo[key]
        if key in busy or depth > LIMIT:
            self.cuts.add(key if key in busy else 'depth')
            return frozenset()
        self.steps += 1
        if self.steps > 200000:
            self.cuts.add('depth')
            return frozenset([('?', 'limit')])
        return self.cached(key, busy, lambda b: self._src(f, n, path, ctx, b, depth + 1))

    def cached(self, key, busy, fn):
        saved, self.cuts = self.cuts, set()
        r = fn(busy | {key})
        self.cuts.discard(key)
        if not self.cuts or not busy:
            self.memo[key] = r
        self.cuts |= saved
        return r

    def many(self, f, ns, ctx, busy, depth, path=()):
        out = frozenset()
        for x in ns:
            if x is not None:
                out |= self.src(f, x, path, ctx, busy, depth)
        return out

    def _src(self, f, n, path, ctx, busy, d):
        k = n.k
        if k in ('IntegerLiteral', 'FloatingLiteral', 'StringLiteral', 'CharacterLiteral', 'CXXBoolLiteralExpr', 'CXXNullPtrLiteralExpr') or (
                k == 'DeclRefExpr' and n.dk == 'enumc'):
            return frozenset([('c', (f.key, n.id))])
        if k == 'MemberExpr':
            if n.dk != 'field':
                return self.many(f, n.c, ctx, busy, d)
            if (n.cls or '').startswith('std::'):
                return self.src(f, n.c[0], path, ctx, busy, d) if n.c else frozenset()
            p = ((n.cls, n.n),) + path if n.cls not in self.trans else path
            if not n.c or n.c[0] is None:
                return self.this(f, p, ctx, busy, d)
            return self.src(f, n.c[0], p, ctx, busy, d)
        if k == 'CXXThisExpr':
            return self.this(f, path, ctx, busy, d)
        if k == 'DeclRefExpr':
            if n.v is not None:
                return self.var(f, n.v, path, ctx, busy, d)
            if n.dk == 'global':
                return frozenset([('c', (f.key, n.id))])
            return frozenset()
        if k == 'UnaryOperator' and n.op in ('*', '&', '++', '--'):
            return self.src(f, n.c[0], path, ctx, busy, d)
        if k == 'ArraySubscriptExpr':
            return self.indexed(f, n.c[0], n.c[1:], path, ctx, busy, d)
        if k == 'CXXOperatorCallExpr' and n.op in ('*', '->', '++', '--') and n.c and callee(self.facts, n) is None:
            return self.src(f, n.c[0], path, ctx, busy, d)
        if k == 'CXXOperatorCallExpr' and n.op == '[]' and callee(self.facts, n) is None:
            return self.indexed(f, n.c[0], n.c[1:], path, ctx, busy, d)
        if k == 'ConditionalOperator':
            out = self.many(f, n.c[1:], ctx, busy, d, path)
            if all(a[0] == 'c' for a in out):
                out |= self.src(f, n.c[0], (), ctx, busy, d)
            return out
        if k == 'BinaryOperator' and n.op in ('=', ','):
            return self.src(f, n.c[1], path, ctx, busy, d)
        if k == 'BinaryOperator' and n.op in ARITH or k == 'UnaryOperator' and n.op in ('-', '~', '!'):
            out = self.many(f, n.c, ctx, busy, d)
            return out | {('a', (f.key, n.id), n.op)} if any(a[0] == 'p' for a in out) else out
        if k == 'BinaryOperator' and n.op == '==' and len(n.c) == 2 and any(
                x is not None and strip_casts(x).k in ('IntegerLiteral', 'CXXBoolLiteralExpr') and x.cvi() == 0 for x in n.c) and not chooses(n):
            out = self.many(f, n.c, ctx, busy, d)
            return out | {('a', (f.key, n.id), '!')} if any(a[0] == 'p' for a in out) else out
        if k == 'InitListExpr' or k == 'CXXParenListInitExpr':
            rec = n.a.get('rec') or (clean(n.t) if k == 'CXXParenListInitExpr' else None)
            if rec in self.trans:
                return self.many(f, n.c, ctx, busy, d, path)
            fl = n.a.get('flds') or self.paren_fields(clean(n.t))
            a = [x for x in n.c]
            if rec and path and path[0][0] == rec:
                for name, x in zip(fl, a):
                    if name == path[0][1]:
                        return self.src(f, x, path[1:], ctx, busy, d) if x is not None else frozenset()
                # a base class sub-object may hold it
                return self.many(f, [x for x in a if x is not None and x.k == 'InitListExpr'], ctx, busy, d, path)
            if rec and path and rec.startswith(INT) and not (len([x for x in a if x is not None]) == 1 and path[0][0] != rec and self.derives(rec, path[0][0])):
                hit = frozenset()
                for x in a:
                    if x is not None and (x.k in ('InitListExpr',) or self.derives(rec, path[0][0])):
                        hit |= self.src(f, x, path, ctx, busy, d)
                return hit
            return self.many(f, a, ctx, busy, d, path)
        if k == 'CXXNewExpr' or k == 'CXXDefaultInitExpr' or k == 'ExprWithCleanups':
            return self.many(f, n.c, ctx, busy, d, path)
        if k == 'LambdaExpr':
            return frozenset()
        if k in CTORS:
            g = callee(self.facts, n)
            a = [x for x in n.c if x is not None]
            if clean(n.t) in self.trans:
                return self.many(f, a, ctx, busy, d, path)
            if g is not None and g.cls and (g.cls.startswith(INT) or g.cls.startswith('_capyPDF')):
                if path and path[0][0] == g.cls:
                    out = frozenset()
                    hit = False
                    for i in g.inits:
                        if i.get('m') == path[0][1] and i.get('i') is not None:
                            out |= self.src(g, i['i'], path[1:], ctx + ((f.key, n.id, g.key),), busy, d)
                            hit = True
                    for p, h, e in self.fdefs.get(path[0], ()):
                        if h is g and self.match(p, path) is not None and not hit:
                            q = self.match(p, path)
                            out |= self.src(g, e, q, ctx + ((f.key, n.id, g.key),), busy, d)
                            hit = True
                    return out
                if path and len(a) == 1:
                    return self.src(f, a[0], path, ctx, busy, d)
                return self.many(f, a, ctx, busy, d, path if len(a) == 1 else ())
            if path and len(a) > 1:
                # standard container / optional / pair: any argument may hold it
                return self.many(f, a, ctx, busy, d, path)
            return self.many(f, a, ctx, busy, d, path)
        if k in CALLS:
            return self.call(f, n, path, ctx, busy, d)
        return self.many(f, list(n.kids()), ctx, busy, d)

    def indexed(self, f, obj, idx, path, ctx, busy, d):
        """an element of a table: the index says where a value comes from only when the table is a fixed one"""
        out = self.src(f, obj, path, ctx, busy, d)
        if len(idx) == 1 and idx[0].cvi() is not None:
            return frozenset(('p', a[1], a[2], ('[%d]' % idx[0].cvi(),)) if a[0] == 'p' and a[3] == () else a for a in out)
        if all(a[0] == 'c' for a in out):
            x = strip_casts(obj)
            if self.noobj or x is not None and x.k == 'DeclRefExpr':
                out |= self.many(f, idx, ctx, busy, d)
        return out

    def case_of(self, f, e):
        """('k', function, parameter, label): the definition is under that label of a switch over a public parameter"""
        if not f.externc:
            return frozenset()
        n = e
        while n is not None and n.parent is not None:
            p = n.parent
            if p.k == 'CompoundStmt' and p.parent is not None and p.parent.k == 'SwitchStmt':
                kids = [x for x in p.c if x is not None]
                i = kids.index(n) if n in kids else -1
                while i >= 0 and kids[i].k not in ('CaseStmt', 'DefaultStmt'):
                    i -= 1
                if i < 0 or kids[i].k != 'CaseStmt':
                    return frozenset()
                sw = p.parent
                cond = [x for x in sw.c if x is not None and x is not p]
                for c in cond[-1:]:
                    x = strip_casts(c)
                    if x is not None and x.k == 'DeclRefExpr' and (('v', f.tu, x.v) in self.o.params):
                        g, pi = self.o.params[('v', f.tu, x.v)]
                        lab = [y for y in kids[i].walk() if y.k == 'DeclRefExpr' and y.dk == 'enumc']
                        # fall-through: labels nested directly inside one another
                        out, y = set(), kids[i]
                        while y is not None and y.k == 'CaseStmt':
                            l = strip_casts(y.c[0])
                            if l is not None and l.n:
                                out.add(('k', g.n, pi, l.n))
                            y = y.c[-1] if y.c[-1] is not y.c[0] else None
                        return frozenset(out)
                return frozenset()
            n = p
        return frozenset()

    def derives(self, rec, base):
        r = self.facts.records.get(rec)
        return bool(r) and base in (r.get('bases') or ())

    def call(self, f, n, path, ctx, busy, d):
        g = callee(self.facts, n)
        a = [x for x in n.c if x is not None]
        if g is not None and g.cls in self.trans and not g.static and n.obj is not None and g.const:
            return self.src(f, n.obj, path, ctx, busy, d)
        if g is not None and (g.body is not None) and not g.externc:
            if len(ctx) > 12 or any(c[2] == g.key for c in ctx):
                return self.many(f, a + ([n.obj] if n.obj is not None else []), ctx, busy, d)
            c2 = ctx + ((f.key, n.id, g.key),)
            out = frozenset()
            some = False
            for x in all_nodes(g):
                if x.k == 'ReturnStmt' and x.c and x.c[0] is not None and not failure(x.c[0]):
                    out |= self.src(g, x.c[0], path, c2, busy, d)
                    some = True
            if some and any(x[0] != 'c' for x in out):
                return out
            # a result whose construction is not followed depends on what was handed in
            obj = [n.obj] if n.obj is not None and not path else []
            return out | self.many(f, a + obj, ctx, busy, d)
        if n.k == 'CXXMemberCallExpr' and n.obj is not None:
            if n.n == 'at' or n.n == 'find':
                return self.indexed(f, n.obj, a, path, ctx, busy, d)
            if n.n in ('size', 'length', 'empty', 'count'):
                return frozenset()   # how many there are is not where a value comes from
            if n.n in ('has_value', 'operator bool', 'contains'):
                return self.src(f, n.obj, (), ctx, busy, d)
            if n.n == 'value_or':
                return self.src(f, n.obj, path, ctx, busy, d) | self.many(f, a, ctx, busy, d, path)
            return self.src(f, n.obj, path, ctx, busy, d) | self.many(f, a, ctx, busy, d)
        if n.k == 'CallExpr' and n.q in PASSFN and n.c:
            return self.src(f, n.c[0], path, ctx, busy, d)
        if n.k == 'CallExpr' and (n.n in ('make_unique', 'make_shared')):
            t = None
            return self.many(f, a, ctx, busy, d, path if len(a) == 1 else ())
        if n.q in ('std::min', 'std::max', 'std::exchange'):
            return self.many(f, a, ctx, busy, d, path)
        # a function object stored in a variable
        return self.many(f, a, ctx, busy, d)

    @staticmethod
    def match(defpath, query):
        """remaining path when a definition of defpath answers the query; () when it defines a part of it; None otherwise"""
        m = min(len(defpath), len(query))
        if defpath[:m] != query[:m]:
            return None
        return query[len(defpath):] if len(defpath) <= len(query) else ()

    def var(self, f, v, path, ctx, busy, d):
        out = frozenset()
        key = ('v', f.tu, v)
        for p, g, e in self.vdefs.get((f.tu, v), ()):
            q = self.match(p, path)
            if q is not None:
                out |= self.src(g, e, q, ctx, busy, d)
        defs = self.vdefs.get((f.tu, v), ())
        if len(defs) > 1 and out and all(a[0] == 'c' for a in out):
            # a choice between constants shows what the choice depends on
            for p, g, e in defs:
                x = e
                while x.parent is not None and x.parent.k != 'LambdaExpr':
                    y = x.parent
                    if y.k == 'IfStmt' and len(y.c) >= 3 and any(z is x for z in y.c[-2:]) and y.c[-3] is not None:
                        out |= self.src(g, y.c[-3], (), ctx, busy, d)
                        break
                    if y.k == 'SwitchStmt':
                        c = [z for z in y.c if z is not None and z.k != 'CompoundStmt']
                        out |= self.src(g, c[-1], (), ctx, busy, d) if c else frozenset()
                        break
                    x = y
        if path:
            for h, call, g in self.fills.get((f.tu, v), ()):
                if any(c[2] == g.key for c in ctx):
                    continue
                for p, h2, e in self.fdefs.get(path[0], ()):
                    if h2 is g:
                        q = self.match(p, path)
                        if q is not None:
                            out |= self.src(g, e, q, ctx + ((h.key, call.id, g.key),), busy, d)
        if key in self.o.params:
            g, i = self.o.params[key]
            out |= self.param(g, i, path, ctx, busy, d)
        return out

    def param(self, g, i, path, ctx, busy, d):
        # reached through a known call?
        for j in range(len(ctx) - 1, -1, -1):
            fk, cid, gk = ctx[j]
            if gk == g.key:
                h = self.facts.fns.get(fk)
                call = h.nodes.get(cid) if h is not None else None
                if call is None:
                    break
                if call.k == 'CallExpr' and call.n == 'visit' and g.is_lambda:
                    return self.src(h, call.c[1], path, ctx[:j], busy, d)
                a = self.o.args_of(call, g)
                if i < len(a) and a[i] is not None:
                    x = a[i]
                    if x.k == 'CXXDefaultArgExpr' and x.c:
                        x = x.c[0]
                    return self.src(h, x, path, ctx[:j], busy, d)
                return frozenset()
        if g.externc:
            if path:
                c = path[0][0]
                if c.startswith(INT) or c.startswith('_capyPDF'):
                    return self.globaldefs(path, busy, d) | {('v', g.n, i, tuple(x[1] for x in path))}
            return frozenset([('p', g.n, i, tuple(x[1] for x in path))])
        if g.is_lambda and g.key in self.visits:
            out = frozenset()
            for h, call, subj in self.visits[g.key]:
                out |= self.src(h, subj, path, (), busy, d)
            return out
        out = frozenset()
        for h, call in self.o.sites.get(g.key, ()):
            a = self.o.args_of(call, g)
            if i < len(a) and a[i] is not None:
                x = a[i]
                if x.k == 'CXXDefaultArgExpr' and x.c:
                    x = x.c[0]
                out |= self.src(h, x, path, (), busy, d)
        return out

    def this(self, f, path, ctx, busy, d):
        for j in range(len(ctx) - 1, -1, -1):
            fk, cid, gk = ctx[j]
            if gk == f.key:
                h = self.facts.fns.get(fk)
                call = h.nodes.get(cid) if h is not None else None
                if call is None:
                    break
                if call.k in CTORS:
                    return self.src(h, call, path, ctx[:j], busy, d) if path else frozenset()
                if call.obj is not None:
                    return self.src(h, call.obj, path, ctx[:j], busy, d)
                if call.k == 'CXXOperatorCallExpr' and call.c:
                    return self.src(h, call.c[0], path, ctx[:j], busy, d)
                break
        if path:
            return self.globaldefs(path, busy, d)
        return frozenset()

    def globaldefs(self, path, busy, d):
        while len(path) > 1 and (path[0][0] in (INT + 'PdfWriter', INT + 'PdfGenerator') or path[1][0] == origins.DOC):
            path = path[1:]
        key = ('glob', path)
        if key in self.memo:
            return self.memo[key]
        if key in busy:
            self.cuts.add(key)
            return frozenset()
        if self.noobj and path[0][0] == origins.DOC and (len(path) == 1 or 'obj' in path[-1][1]):
            return frozenset()

        def run(b2):
            out = frozenset()
            for k in range(len(path)):
                for p, g, e in (self.adefs if k else self.fdefs).get(path[k], ()):
                    q = self.match(p, path[k:])
                    if q is not None:
                        out |= self.src(g, e, q, (), b2, d) | self.case_of(g, e)
            if not any(p in self.fdefs for p in path[-1:]):
                out |= {('n', path[-1][0], path[-1][1])}
            return out
        return self.cached(key, busy, run)


def build(facts):
    p = getattr(facts, '_prov', None)
    if p is None:
        p = facts._prov = Prov(facts)
    return p
