"""Canonical terms: which value an expression denotes, through locals, single-assignment fields, getters and call strings.

  ('this', cls)  ('p', fn, i)  ('v', tu, id)  ('g', name)  ('n', constant)
  ('.', field, base)  ('at', container, index)  ('elem', container)  ('call', fn, object, arguments ..)  ('?', fn, node, chain)
Two equal terms without '?' denote the same value wherever nothing was written in between; terms that contain '?' are undecided.
"""
from .facts import CALLS, CTORS
from .util import strip_casts, callee, all_nodes
from .flow import is_unexpected
from .origins import clean
from . import origins

PASS = ('value', 'get', 'operator->', 'operator*', 'v')
MOVE = ('std::move', 'std::forward', 'std::as_const')
IDX = ('at', 'operator[]')


class Terms:
    def __init__(self, facts):
        self.facts = facts
        self.o = origins.build(facts)
        self._locals = {}
        self.one = set()     # classes of which only one object is around

    def scan(self, f):
        """(initialisers, assignments by access path, variables written otherwise) of the locals of a function"""
        if f.key in self._locals:
            return self._locals[f.key]
        init, asg, dirty = {}, {}, set()
        for n in all_nodes(f):
            if n.k == 'DeclStmt':
                for d in n.a.get('d', ()):
                    if d.get('v') is not None:
                        init[d['v']] = (d.get('i'), d.get('t', ''), d.get('ref'))
            elif n.k == 'BinaryOperator' and n.op == '=' or n.k == 'CXXOperatorCallExpr' and n.op == '=' and len(n.c) == 2:
                p = self.lpath(n.c[0])
                if p is not None:
                    asg.setdefault(p, []).append(n.c[1])
            elif n.k == 'CompoundAssignOperator' or n.k == 'UnaryOperator' and n.op in ('++', '--'):
                p = self.lpath(n.c[0])
                if p is not None:
                    dirty.add(p[0])
        self._locals[f.key] = (init, asg, dirty)
        return self._locals[f.key]

    def lpath(self, n):
        n = strip_casts(n)
        out = []
        while n is not None and n.k == 'MemberExpr' and n.dk == 'field' and n.c:
            out.append(n.n)
            n = strip_casts(n.c[0])
        if n is not None and n.k == 'DeclRefExpr' and n.v is not None:
            return (n.v,) + tuple(reversed(out))
        return None

    def unknown(self, f, n, chain):
        return ('?', f.key, n.id if n is not None else 0, chain)

    def of(self, f, n, chain=(), depth=0):
        x = strip_casts(n)
        if x is None or depth > 40:
            return self.unknown(f, n, chain)
        d = depth + 1
        k = x.k
        if self.one:
            c = clean(x.t).replace('const ', '').rstrip(' *&')
            if c in self.one:
                return ('this', c)
        if k == 'MemberExpr' and x.dk == 'field' and x.c:
            return self.field(f, x.c[0], x.n, chain, d)
        if k == 'CXXThisExpr':
            return self.this(f, chain, d)
        if k == 'DeclRefExpr':
            return self.var(f, x, chain, d)
        if k == 'UnaryOperator' and x.op in ('*', '&', '+') and x.c:
            return self.of(f, x.c[0], chain, d)
        if x.cvi() is not None:
            return ('n', x.cvi())
        if k == 'CXXBoolLiteralExpr':
            return ('n', 1 if x.a.get('cv') else 0)
        if k in CTORS:
            a = [y for y in x.c if y is not None and y.k != 'CXXDefaultArgExpr']
            if len(a) == 1 and (clean(a[0].t) == clean(x.t) or 'optional<' in (x.t or '') or 'expected<' in (x.t or '')):
                return self.of(f, a[0], chain, d)
            return self.unknown(f, x, chain)
        if k == 'ArraySubscriptExpr' and len(x.c) == 2:
            return ('at', self.of(f, x.c[0], chain, d), self.of(f, x.c[1], chain, d))
        if k in CALLS:
            if k == 'CallExpr' and x.q in MOVE and x.c:
                return self.of(f, x.c[0], chain, d)
            if k == 'CXXOperatorCallExpr' and x.c:
                if x.op == '[]' and len(x.c) == 2:
                    return ('at', self.of(f, x.c[0], chain, d), self.of(f, x.c[1], chain, d))
                if x.op in ('*', '->') and len(x.c) == 1:
                    return self.deref(f, x.c[0], chain, d)
            if k == 'CXXMemberCallExpr' and x.obj is not None:
                a = [y for y in x.c if y is not None]
                if x.n == 'at' and len(a) == 1:
                    return ('at', self.of(f, x.obj, chain, d), self.of(f, a[0], chain, d))
                if x.n in PASS and not a and callee(self.facts, x) is None:
                    return self.of(f, x.obj, chain, d)
            r = self.ret(f, x, chain)
            if r is not None:
                g, y, c2 = r
                return self.of(g, y, c2, d)
            if k != 'CXXOperatorCallExpr' and callee(self.facts, x) is not None:
                g = callee(self.facts, x)
                args = tuple(self.of(f, a, chain, d) if a is not None else None for a in x.c)
                o = self.of(f, x.obj, chain, d) if x.obj is not None else None
                return ('call', g.key, o) + args
        return self.unknown(f, x, chain)

    def iter_over(self, f, v):
        """the container an iterator variable starts at the beginning of, or None"""
        i = strip_casts(self.scan(f)[0].get(v, (None,))[0])
        while i is not None and i.k in CTORS and i.c and i.c[0] is not None:
            i = strip_casts(i.c[0])
        if i is not None and i.k in CALLS and i.n in ('begin', 'cbegin'):
            return i.obj if i.obj is not None else (i.c[0] if i.c else None)
        return None

    def is_iter(self, f, x):
        return x is not None and x.k == 'DeclRefExpr' and x.v is not None and (
            (x.n or '').startswith('__begin') or self.iter_over(f, x.v) is not None)

    def deref(self, f, n, chain, d):
        x = strip_casts(n)
        if self.is_iter(f, x):
            o = self.iter_over(f, x.v)
            if o is not None:
                return ('elem', self.of(f, o, chain, d))
            i = strip_casts(self.scan(f)[0].get(x.v, (None,))[0])
            if i is not None:
                return ('elem', self.of(f, i, chain, d))
        return self.of(f, n, chain, d)

    def ret(self, f, call, chain):
        """the one value a called function returns on success"""
        g = callee(self.facts, call)
        if g is None or g.body is None or (g.key in [c[2] for c in chain]):
            return None
        rets = []
        for n in all_nodes(g):
            if n.k == 'ReturnStmt' and n.c and n.c[0] is not None:
                y = strip_casts(n.c[0])
                z = y
                while z is not None and z.k in CTORS and len([q for q in z.c if q is not None]) == 1 and not is_unexpected(z.t):
                    z = strip_casts([q for q in z.c if q is not None][0])
                if z is not None and (is_unexpected(z.t) or z.k in CALLS and is_unexpected(z.t)):
                    continue
                rets.append(y)
        if len(rets) != 1:
            return None
        return g, rets[0], chain + ((f.key, call.id, g.key),)

    def this(self, f, chain, d):
        if chain and chain[-1][2] == f.key:
            c = self.facts.fns.get(chain[-1][0])
            call = c.nodes.get(chain[-1][1]) if c is not None else None
            if call is not None and call.obj is not None:
                return self.of(c, call.obj, chain[:-1], d)
        return ('this', f.cls)

    def arg(self, f, i, chain):
        if chain and chain[-1][2] == f.key:
            c = self.facts.fns.get(chain[-1][0])
            call = c.nodes.get(chain[-1][1]) if c is not None else None
            if call is not None:
                a = self.o.args_of(call, f)
                if i < len(a) and a[i] is not None:
                    y = a[i]
                    if y.k == 'CXXDefaultArgExpr':
                        y = y.c[0] if y.c else None
                    if y is not None:
                        return c, y, chain[:-1]
        return None

    def source(self, f, x, chain):
        """(function, node, chain) a variable was initialised from, or None"""
        for i, p in enumerate(f.params):
            if p['v'] == x.v:
                s = self.scan(f)
                if (x.v,) in s[1] or x.v in s[2]:
                    return None
                return self.arg(f, i, chain)
        init, asg, dirty = self.scan(f)
        if x.v in init:
            i, t, ref = init[x.v]
            if i is not None and x.v not in dirty and (x.v,) not in asg:
                y = strip_casts(i)
                if y is not None and y.k in CTORS and not [q for q in y.c if q is not None]:
                    return None
                return f, i, chain
        return None

    def var(self, f, x, chain, d):
        if x.v is None:
            if x.cvi() is not None:
                return ('n', x.cvi())
            return ('g', x.q or x.n)
        s = self.source(f, x, chain)
        if s is not None:
            y = strip_casts(s[1])
            if y is not None and y.k == 'CXXOperatorCallExpr' and y.op == '*' and s[0] is f:
                return self.deref(f, y.c[0], chain, d)
            if y is not None and y.k == 'UnaryOperator' and y.op == '*' and y.c:
                return self.deref(s[0], y.c[0], s[2], d)
            return self.of(s[0], s[1], s[2], d)
        init, asg, dirty = self.scan(f)
        if x.v in init and x.v not in dirty and len(asg.get((x.v,), ())) == 1:
            i = strip_casts(init[x.v][0]) if init[x.v][0] is not None else None
            if i is None or i.k in CTORS and not [q for q in i.c if q is not None]:
                return self.of(f, asg[(x.v,)][0], chain, d)
        for i, p in enumerate(f.params):
            if p['v'] == x.v:
                return ('p', f.key, i)
        return ('v', f.tu, x.v)

    def field(self, f, base, name, chain, d):
        """the value of a field of an expression"""
        names = [name]
        b = strip_casts(base)
        while b is not None and b.k == 'MemberExpr' and b.dk == 'field' and b.c:
            names.insert(0, b.n)
            b = strip_casts(b.c[0])
        return self.path(f, b, tuple(names), chain, d)

    def path(self, f, b, names, chain, d):
        b = strip_casts(b)
        if not names:
            return self.of(f, b, chain, d)
        if b is not None and self.one:
            c = clean(b.t).replace('const ', '').rstrip(' *&')
            if c in self.one:
                t = ('this', c)
                for nm in names:
                    t = ('.', nm, t)
                return t
        if b is None or d > 40:
            return self.unknown(f, b, chain)
        if b.k == 'CXXOperatorCallExpr' and b.op in ('->', '*') and len(b.c) == 1 or b.k == 'UnaryOperator' and b.op in ('*', '&'):
            y = strip_casts(b.c[0])
            if not self.is_iter(f, y):
                return self.path(f, b.c[0], names, chain, d + 1)
        if b.k == 'MemberExpr' and b.dk == 'field' and b.c:
            return self.path(f, b.c[0], (b.n,) + names, chain, d + 1)
        if b.k == 'InitListExpr':
            fl = b.a.get('flds') or []
            if len(fl) == len(b.c) and names[0] in fl:
                return self.path(f, b.c[fl.index(names[0])], names[1:], chain, d + 1)
            if len(b.c) == 1 and names[0] == 'id':
                return self.path(f, b.c[0], names[1:], chain, d + 1)
        if b.k in CTORS:
            a = [y for y in b.c if y is not None and y.k != 'CXXDefaultArgExpr']
            if len(a) == 1:
                return self.path(f, a[0], names, chain, d + 1)
        if b.k == 'DeclRefExpr' and b.v is not None:
            asg = self.scan(f)[1]
            for j in range(len(names), 0, -1):
                v = asg.get((b.v,) + names[:j])
                if v and len(v) == 1:
                    return self.path(f, v[0], names[j:], chain, d + 1)
                if v:
                    return self.unknown(f, b, chain)
            s = self.source(f, b, chain)
            if s is not None:
                y = strip_casts(s[1])
                if y is not None and y.k in ('CXXOperatorCallExpr', 'UnaryOperator') and y.op == '*' and y.c:
                    z = strip_casts(y.c[0])
                    if self.is_iter(s[0], z):
                        t = self.deref(s[0], y.c[0], s[2], d + 1)
                        for nm in names:
                            t = ('.', nm, t)
                        return t
                return self.path(s[0], s[1], names, s[2], d + 1)
        if b.k in CALLS:
            if b.k == 'CallExpr' and b.q in MOVE and b.c:
                return self.path(f, b.c[0], names, chain, d + 1)
            if b.k == 'CXXMemberCallExpr' and b.obj is not None and b.n in PASS and callee(self.facts, b) is None and not [y for y in b.c if y is not None]:
                return self.path(f, b.obj, names, chain, d + 1)
            r = self.ret(f, b, chain)
            if r is not None:
                return self.path(r[0], r[1], names, r[2], d + 1)
        t = self.of(f, b, chain, d + 1)
        for nm in names:
            t = ('.', nm, t)
        return t


def subst(t, old, new):
    if t == old:
        return new
    if isinstance(t, tuple) and t and t[0] in ('.', 'at', 'elem'):
        t = tuple(subst(x, old, new) if isinstance(x, tuple) else x for x in t)
        # a field of a value built from parts
        return t
    return t


def undecided(t):
    if not isinstance(t, tuple):
        return False
    if t and t[0] in ('?', 'call'):
        return True
    return t and t[0] in ('.', 'at', 'elem') and any(undecided(x) for x in t[1:])


def unknowns(t):
    if not isinstance(t, tuple) or not t:
        return frozenset()
    if t[0] in ('?', 'call'):
        return frozenset([t])
    if t[0] in ('.', 'at', 'elem'):
        return frozenset().union(*[unknowns(x) for x in t[1:]])
    return frozenset()


def contains(t, s):
    return t == s or isinstance(t, tuple) and t and t[0] in ('.', 'at', 'elem') and any(contains(x, s) for x in t[1:])


def show(t):
    if not isinstance(t, tuple):
        return str(t)
    if t[0] == '.':
        b = show(t[2])
        return (b + '.' if b else '') + t[1]
    if t[0] == 'at':
        return '%s[%s]' % (show(t[1]), show(t[2]))
    if t[0] == 'elem':
        return 'each ' + show(t[1])
    if t[0] == 'this':
        return ''
    if t[0] == 'n':
        return str(t[1])
    if t[0] == 'p':
        return 'argument %d' % (t[2] + 1)
    if t[0] == 'v':
        return 'a local'
    if t[0] == 'g':
        return str(t[1])
    if t[0] == 'call':
        return '%s(..)' % t[1].split('@F@')[-1].split('#')[0]
    return '?'


_c = {}


def build(facts):
    if id(facts) not in _c:
        _c.clear()
        _c[id(facts)] = Terms(facts)
    return _c[id(facts)]
