"""A symbolic reader for the Python module: every path through every function body, with calls into the shared library recorded.

Values are tuples: ('p', name) parameter, ('c', constant), ('self',), ('attr', v, name), ('enc', v), ('len', v), ('arr', ctype, v), ('obj', n, ctype)
fresh ctypes object, ('ptr', v), ('tup', [v]), ('ret', n) result of library call n, ('inst', class, [v]), ('map', v), ('bool', v, t, f), ('ct', name),
('cls', name), ('fn', name), ('mod', name), ('lib',), ('cfn', name), ('meth', v, name), ('top',).
"""
import ast
import builtins

TOP = ('top',)
LIMIT = 400


class Path:
    __slots__ = ('env', 'nar', 'conds', 'calls', 'self', 'events')

    def __init__(self):
        self.env = {}
        self.nar = {}        # value -> set of type names
        self.conds = ()      # (value of the condition, truth)
        self.calls = ()      # call numbers
        self.self = {}       # attributes assigned to self
        self.events = ()     # (object, method, arguments) of calls to methods of other objects

    def copy(self):
        p = Path()
        p.env, p.nar, p.conds, p.calls, p.self, p.events = dict(self.env), dict(self.nar), self.conds, self.calls, dict(self.self), self.events
        return p


class Call:
    __slots__ = ('fn', 'args', 'node', 'path', 'cls', 'meth', 'nar', 'n')


class Module:
    def __init__(self, path):
        with open(path) as f:
            self.src = f.read()
        self.tree = ast.parse(self.src)
        self.globals = {}      # name -> value
        self.classes = {}
        self.fns = {}
        self.assign = {}
        for s in self.tree.body:
            if isinstance(s, ast.ClassDef):
                self.classes[s.name] = s
                self.globals[s.name] = ('cls', s.name)
            elif isinstance(s, ast.FunctionDef):
                self.fns[s.name] = s
                self.globals[s.name] = ('fn', s.name)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    self.globals[(a.asname or a.name).split('.')[0]] = ('mod', a.name)
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    self.globals[a.asname or a.name] = ('ext', s.module, a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.assign[t.id] = s.value
                        self.globals.setdefault(t.id, None)
            elif isinstance(s, (ast.For, ast.If, ast.With, ast.Try, ast.AugAssign, ast.AnnAssign)):
                for n in ast.walk(s):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        self.globals.setdefault(n.id, TOP)
        self._busy = set()
        for n in list(self.assign):
            self.glob(n)

    def glob(self, name):
        v = self.globals.get(name)
        if v is None and name in self.assign and name not in self._busy:
            self._busy.add(name)
            e = self.assign[name]
            v = TOP
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and ('lib' in e.func.id.lower()) or name == 'libfile':
                v = ('lib',)
            else:
                ev = Eval(self, None, None)
                r = ev.expr(e, Path())
                if len(r) == 1:
                    v = r[0][0]
            self.globals[name] = v
            self._busy.discard(name)
        return v

    def methods(self, cname, seen=()):
        """{name: (class, FunctionDef)} including inherited ones"""
        out = {}
        c = self.classes.get(cname)
        if c is None or cname in seen:
            return out
        for b in reversed(c.bases):
            if isinstance(b, ast.Name):
                out.update(self.methods(b.id, seen + (cname,)))
        for s in c.body:
            if isinstance(s, ast.FunctionDef):
                out[s.name] = (cname, s)
        return out

    def bases(self, cname):
        out, work = [], [cname]
        while work:
            x = work.pop()
            if x in out:
                continue
            out.append(x)
            c = self.classes.get(x)
            if c is not None:
                work += [b.id for b in c.bases if isinstance(b, ast.Name)] + [b.attr for b in c.bases if isinstance(b, ast.Attribute)]
        return out

    def subclasses(self, cname):
        return [c for c in self.classes if cname in self.bases(c)]


class TooMany(Exception):
    pass


class Eval:
    """all paths of one function"""
    def __init__(self, mod, cls, meth):
        self.m = mod
        self.cls = cls
        self.meth = meth
        self.calls = {}
        self.nobj = 0
        self.ends = []      # (path, kind, value)
        self.unknown = []
        self.depth = 0
        self.owner = [meth]

    def run(self, fdef, static=False):
        p = Path()
        a = fdef.args
        names = [x.arg for x in a.posonlyargs + a.args]
        deco = [d.id for d in fdef.decorator_list if isinstance(d, ast.Name)]
        for i, n in enumerate(names):
            if i == 0 and self.cls is not None and 'staticmethod' not in deco:
                p.env[n] = ('cls', self.cls) if 'classmethod' in deco else ('self',)
            else:
                p.env[n] = ('p', n)
        for x in a.kwonlyargs:
            p.env[x.arg] = ('p', x.arg)
        if a.vararg:
            p.env[a.vararg.arg] = ('p', a.vararg.arg)
        if a.kwarg:
            p.env[a.kwarg.arg] = TOP
        for q, kind, v in self.block(fdef.body, p):
            self.ends.append((q, 'return' if kind == 'fall' else kind, v if kind != 'fall' else ('c', None)))
        return self

    # -- statements: yield (path, 'fall'/'return'/'raise', value)
    def block(self, body, p):
        live = [p]
        out = []
        for s in body:
            nxt = []
            for q in live:
                for r in self.stmt(s, q):
                    if r[1] == 'fall':
                        nxt.append(r[0])
                    else:
                        out.append(r)
            live = nxt
            if len(live) + len(out) > LIMIT:
                raise TooMany()
        return out + [(q, 'fall', None) for q in live]

    def stmt(self, s, p):
        if isinstance(s, ast.Expr):
            return [self.done(q, v) for v, q in self.expr(s.value, p)]
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            if s.value is None:
                return [(p, 'fall', None)]
            out = []
            for v, q in self.expr(s.value, p):
                if v and v[0] == 'raise':
                    out.append((q, 'raise', None))
                    continue
                for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                    self.bind(t, v, q)
                out.append((q, 'fall', None))
            return out
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                p.env[s.target.id] = TOP
            return [(p, 'fall', None)]
        if isinstance(s, ast.Return):
            if s.value is None:
                return [(p, 'return', ('c', None))]
            return [(q, 'raise' if v[0] == 'raise' else 'return', v) for v, q in self.expr(s.value, p)]
        if isinstance(s, ast.Raise):
            return [(p, 'raise', None)]
        if isinstance(s, ast.If):
            out = []
            for t, q in self.cond(s.test, p):
                out += self.block(s.body if t else s.orelse, q)
            return out
        if isinstance(s, ast.Assert):
            return [(q, 'fall' if t else 'raise', None) for t, q in self.cond(s.test, p)]
        if isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal)):
            return [(p, 'fall', None)]
        if isinstance(s, ast.Try):
            out = []
            for r in self.block(s.body, p):
                if s.finalbody:
                    for g in self.block(s.finalbody, r[0]):
                        out.append(g if g[1] != 'fall' else (g[0], r[1], r[2]))
                else:
                    out.append(r)
            return out
        if isinstance(s, ast.With):
            for it in s.items:
                r = self.expr(it.context_expr, p)
                if it.optional_vars is not None:
                    self.bind(it.optional_vars, r[0][0] if len(r) == 1 else TOP, p)
            return self.block(s.body, p)
        if isinstance(s, (ast.For, ast.While)):
            if isinstance(s, ast.For):
                r = self.expr(s.iter, p)
                self.bind(s.target, ('elem', r[0][0]) if len(r) == 1 else TOP, p)
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and not (isinstance(s, ast.For) and n in list(ast.walk(s.target))):
                    p.env[n.id] = TOP
            return [(p.copy(), 'fall', None)] + self.block(s.body, p.copy())
        if isinstance(s, ast.FunctionDef):
            p.env[s.name] = TOP
            return [(p, 'fall', None)]
        return [(p, 'fall', None)]

    @staticmethod
    def done(q, v):
        return (q, 'raise', None) if v and v[0] == 'raise' else (q, 'fall', None)

    def bind(self, t, v, p):
        if isinstance(t, ast.Name):
            p.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            b = self.expr(t.value, p)
            if len(b) == 1 and b[0][0] == ('self',):
                p.self[t.attr] = v
            elif len(b) == 1 and b[0][0][0] == 'inst':
                p.self[(b[0][0], t.attr)] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                self.bind(x, v[1][i] if v[0] == 'tup' and len(v[1]) == len(t.elts) else TOP, p)

    # -- conditions: [(truth, path)]
    def cond(self, e, p):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(not t, q) for t, q in self.cond(e.operand, p)]
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            live, out = [p], []
            for x in e.values:
                nxt = []
                for q in live:
                    for t, r in self.cond(x, q):
                        if t == isand:
                            nxt.append(r)
                        else:
                            out.append((t, r))
                live = nxt
            return out + [(isand, q) for q in live]
        out = []
        for v, q in self.expr(e, p):
            if v[0] == 'raise':
                continue
            if v[0] == 'isinst':
                have = q.nar.get(v[1])
                known = self.known_type(v[1], q)
                if known is not None:
                    out.append((any(k in v[2] for k in known), q))
                    continue
                if have is not None and have <= v[2]:
                    out.append((True, q))
                    continue
                if have is not None and not have & v[2]:
                    out.append((False, q))
                    continue
                a, b = q.copy(), q.copy()
                a.nar[v[1]] = frozenset(v[2]) if have is None else have & v[2]
                if have is not None:
                    b.nar[v[1]] = have - v[2]
                a.conds += ((v, True),)
                b.conds += ((v, False),)
                out += [(True, a), (False, b)]
                continue
            k = self.truth(v, q)
            if k is not None:
                out.append((k, q))
                continue
            for t in (True, False):
                a = q.copy()
                a.conds += ((v, t),)
                out.append((t, a))
        return out

    def known_type(self, v, p):
        if v[0] == 'enc':
            return {'bytes'}
        if v[0] == 'inst':
            return set(self.m.bases(v[1]))
        if v[0] == 'self' and self.cls:
            return set(self.m.bases(self.cls)) | set(self.m.subclasses(self.cls))
        if v[0] == 'tup':
            return {'tuple'}
        if v[0] == 'map':
            return {'list'}
        return None

    def truth(self, v, p):
        if v[0] == 'c':
            return bool(v[1])
        if v[0] == 'cmp' and v[1] in ('is', 'is not', '==', '!='):
            a, b = v[2], v[3]
            pos = v[1] in ('is', '==')
            if a[0] == 'c' and b[0] == 'c':
                return (a[1] == b[1]) == pos
            for x, y in ((a, b), (b, a)):
                if y == ('c', None) and (x[0] in ('obj', 'ptr', 'enc', 'arr', 'inst', 'tup', 'len', 'cls', 'self') or p.nar.get(x)):
                    return not pos
                if y == ('c', None):
                    for cv, t in p.conds:
                        if cv[0] == 'cmp' and cv[1] in ('is', '==', 'is not', '!=') and {cv[2], cv[3]} == {x, y} if False else \
                                cv[0] == 'cmp' and cv[2] == x and cv[3] == y and cv[1] in ('is', 'is not', '==', '!='):
                            return (t == (cv[1] in ('is', '=='))) == pos
        if v[0] in ('obj', 'ptr', 'inst'):
            return True
        for cv, t in p.conds:
            if cv == v:
                return t
        return None

    # -- expressions: [(value, path)]
    def many(self, es, p):
        """values of several expressions, starred ones expanded: [(list, path)]"""
        live = [([], p)]
        for e in es:
            nxt = []
            for vs, q in live:
                star = isinstance(e, ast.Starred)
                for v, r in self.expr(e.value if star else e, q):
                    if v[0] == 'raise':
                        nxt.append((None, r))
                    elif star:
                        nxt.append((vs + (list(v[1]) if v[0] == 'tup' else [('star', v)]), r) if vs is not None else (None, r))
                    else:
                        nxt.append((vs + [v], r) if vs is not None else (None, r))
            live = nxt
        return live

    def expr(self, e, p):
        if isinstance(e, ast.Constant):
            return [(('c', e.value), p)]
        if isinstance(e, ast.Name):
            if e.id in p.env:
                return [(p.env[e.id], p)]
            if e.id in self.m.globals:
                return [(self.m.glob(e.id) or TOP, p)]
            if hasattr(builtins, e.id):
                return [(('bi', e.id), p)]
            self.unknown.append(e)
            return [(TOP, p)]
        if isinstance(e, ast.Attribute):
            out = []
            for v, q in self.expr(e.value, p):
                out.append((self.attr(v, e.attr, q), q))
            return out
        if isinstance(e, ast.List) and not e.elts:
            return [(TOP, p)]      # filled later
        if isinstance(e, (ast.Tuple, ast.List)):
            return [(('raise',), q) if vs is None else (('tup', tuple(vs)), q) for vs, q in self.many(e.elts, p)]
        if isinstance(e, ast.IfExp):
            if isinstance(e.body, ast.Constant) and isinstance(e.orelse, ast.Constant):
                t, pos = e.test, True
                while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                    t, pos = t.operand, not pos
                r = self.expr(t, p) if not isinstance(t, ast.BoolOp) else []
                if len(r) == 1 and r[0][0][0] not in ('isinst', 'raise', 'top', 'c') and self.truth(*r[0]) is None:
                    a, b = (e.body.value, e.orelse.value) if pos else (e.orelse.value, e.body.value)
                    v = r[0][0]
                    if v[0] == 'cmp' and v[3] in (('c', 0), ('c', False)) and v[1] in ('!=', '=='):
                        v, a, b = v[2], *((a, b) if v[1] == '!=' else (b, a))
                    return [(('sel', v, a, b), r[0][1])]
            out = []
            for t, q in self.cond(e.test, p):
                for v, r in self.expr(e.body if t else e.orelse, q):
                    out.append((v, r))
            return out
        if isinstance(e, ast.BinOp):
            out = []
            for vs, q in self.many([e.left, e.right], p):
                if vs is None:
                    out.append((('raise',), q))
                    continue
                a, b = vs
                if isinstance(e.op, ast.Mult):
                    for x, y in ((a, b), (b, a)):
                        if x[0] in ('ct', 'cls', 'ctp') and y[0] in ('len', 'c', 'bin', 'p'):
                            out.append((('act', x, y), q))
                            break
                    else:
                        out.append((('bin', '*', a, b), q))
                elif a[0] == 'c' and b[0] == 'c':
                    try:
                        out.append((('c', {ast.LShift: lambda: a[1] << b[1], ast.BitOr: lambda: a[1] | b[1], ast.Add: lambda: a[1] + b[1],
                                           ast.Sub: lambda: a[1] - b[1]}[type(e.op)]()), q))
                    except (KeyError, TypeError):
                        out.append((TOP, q))
                else:
                    out.append((('bin', type(e.op).__name__, a, b), q))
            return out
        if isinstance(e, ast.UnaryOp):
            if isinstance(e.op, ast.Not):
                return [(('c', t), q) for t, q in self.cond(e.operand, p)]
            out = []
            for v, q in self.expr(e.operand, p):
                if v[0] == 'c' and isinstance(e.op, ast.USub) and isinstance(v[1], (int, float)):
                    out.append((('c', -v[1]), q))
                else:
                    out.append((('un', type(e.op).__name__, v), q))
            return out
        if isinstance(e, ast.BoolOp):
            return [(('c', t), q) if False else (('bool',), q) for t, q in self.cond(e, p)]
        if isinstance(e, ast.Compare):
            if len(e.ops) == 1:
                ops = {ast.Is: 'is', ast.IsNot: 'is not', ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.Gt: '>', ast.LtE: '<=', ast.GtE: '>=',
                       ast.In: 'in', ast.NotIn: 'not in'}
                return [(('raise',), q) if vs is None else (('cmp', ops[type(e.ops[0])], vs[0], vs[1]), q)
                        for vs, q in self.many([e.left, e.comparators[0]], p)]
            return [(TOP, p)]
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            if len(e.generators) == 1 and not e.generators[0].ifs:
                g = e.generators[0]
                out = []
                for v, q in self.expr(g.iter, p):
                    r = q.copy()
                    self.bind(g.target, ('elem', v), r)
                    w = self.expr(e.elt, r)
                    out.append((('map', w[0][0]) if len(w) == 1 else TOP, q))
                return out
            return [(TOP, p)]
        if isinstance(e, ast.Subscript):
            out = []
            for vs, q in self.many([e.value, e.slice], p) if not isinstance(e.slice, ast.Slice) else []:
                if vs is not None and vs[0][0] == 'tup' and vs[1][0] == 'c' and isinstance(vs[1][1], int) and -len(vs[0][1]) <= vs[1][1] < len(vs[0][1]):
                    out.append((vs[0][1][vs[1][1]], q))
                else:
                    out.append((TOP, q))
            return out or [(TOP, p)]
        if isinstance(e, ast.Call):
            return self.call(e, p)
        if isinstance(e, ast.NamedExpr):
            out = []
            for v, q in self.expr(e.value, p):
                self.bind(e.target, v, q)
                out.append((v, q))
            return out
        return [(TOP, p)]

    def attr(self, v, n, p):
        if v[0] == 'lib':
            return ('cfn', n)
        if v == ('mod', 'ctypes'):
            if n.startswith('c_'):
                return ('ct', n)
            return ('cty', n)
        if v == ('self',):
            if n in p.self:
                return p.self[n]
            if n in self.m.methods(self.cls):
                return ('meth', v, n)
            return ('attr', v, n)
        if v[0] == 'inst' and n in self.m.methods(v[1]):
            return ('meth', v, n)
        if v[0] == 'cls' and n in self.m.methods(v[1]):
            return ('smeth', v[1], n)
        return ('attr', v, n)

    def call(self, e, p):
        out = []
        for f, q in self.expr(e.func, p):
            # isinstance
            if f == ('bi', 'isinstance') and len(e.args) == 2:
                for vs, r in self.many(e.args, q):
                    ts = vs[1][1] if vs[1][0] == 'tup' else (vs[1],)
                    names = frozenset(t[1] for t in ts if t[0] in ('cls', 'bi', 'ct'))
                    out.append((('isinst', vs[0], names), r))
                continue
            for vs, r in self.many(e.args, q):
                if vs is None:
                    out.append((('raise',), r))
                    continue
                kw = {}
                for k in e.keywords:
                    w = self.expr(k.value, r)
                    kw[k.arg] = w[0][0] if len(w) == 1 else TOP
                out += self.apply(f, vs, kw, e, r)
        return out

    def fresh(self, t):
        self.nobj += 1
        return ('obj', self.nobj, t)

    def apply(self, f, vs, kw, e, p):
        k = f[0]
        if k == 'cfn':
            c = Call()
            n = len(self.calls) + 1
            c.fn, c.args, c.node, c.cls, c.meth, c.n = f[1], vs, e, self.cls, self.owner[-1], n
            c.nar = dict(p.nar)
            c.path = p.conds
            self.calls[n] = c
            q = p.copy()
            q.calls += (n,)
            return [(('ret', n), q)]
        if f == ('bi', 'getattr') and len(vs) >= 2 and vs[1][0] == 'c':
            return [(self.attr(vs[0], vs[1][1], p), p)]
        if f == ('bi', 'len') and len(vs) == 1:
            return [(('c', len(vs[0][1])), p) if vs[0][0] == 'tup' else (('len', vs[0][2] if vs[0][0] == 'arr' else vs[0]), p)]
        if f[0] == 'bi' and f[1] in ('tuple', 'list') and len(vs) == 1:
            return [(vs[0], p)]
        if f[0] == 'bi' and f[1] in ('int', 'bool', 'float', 'ord', 'str', 'bytes') and len(vs) == 1:
            return [(('conv', f[1], vs[0]), p)]
        if f == ('bi', 'super') and not vs:
            return [(('super',), p)]
        if k == 'ct':
            return [(self.fresh(f), p)] if not vs else [((self.fresh(f)[:2] + (f, vs[0])), p)]
        if k == 'act':
            return [(('arr', f[1], vs[0][1] if len(vs) == 1 and vs[0][0] == 'star' else ('tup', tuple(vs))), p)]
        if k == 'cty':
            if f[1] in ('pointer', 'byref', 'addressof') and len(vs) >= 1:
                return [(('ptr', vs[0]), p)]
            if f[1] == 'POINTER' and vs:
                return [(('ctp', vs[0]), p)]
            if f[1] == 'cast' and vs:
                return [(vs[0], p)]
            return [(TOP, p)]
        if k == 'cls':
            c = f[1]
            if 'Structure' in self.m.bases(c):
                return [(self.fresh(f), p)]
            ms = self.m.methods(c)
            v = ('inst', c, tuple(vs))
            if any(b in ('Enum', 'IntFlag', 'IntEnum', 'Flag') for b in self.m.bases(c)):
                return [(('enum', c, tuple(vs)), p)]
            return [(v, p)]
        if k == 'attr' and f[2] == 'encode':
            return [(('enc', f[1], vs[0][1] if vs and vs[0][0] == 'c' else 'utf-8'), p)]
        if k == 'attr' and f[2] == 'get_underlying':
            return [(f[1], p)]
        if k == 'fn' and self.depth < 5:
            return self.inline(self.m.fns[f[1]], None, vs, kw, p)
        if k == 'meth' and f[1] == ('self',) and self.depth < 5:
            c, d = self.m.methods(self.cls)[f[2]]
            deco = [x.id for x in d.decorator_list if isinstance(x, ast.Name)]
            first = [] if 'staticmethod' in deco else [('cls', c)] if 'classmethod' in deco else [('self',)]
            return self.inline(d, c, first + vs, kw, p)
        if k == 'meth' and f[1][0] == 'inst':
            q = p.copy()
            q.events += ((f[1], f[2], tuple(vs)),)
            return [(('mcall', f[1], f[2], tuple(vs)), q)]
        if k == 'attr' and f[1] == ('super',):
            ms = {}
            for b in self.m.classes[self.cls].bases if self.cls in self.m.classes else ():
                if isinstance(b, ast.Name):
                    ms.update(self.m.methods(b.id))
            if f[2] in ms and self.depth < 5:
                return self.inline(ms[f[2]][1], None, [('self',)] + vs, kw, p)
            return [(TOP, p)]
        if k == 'smeth' and self.depth < 5:
            c, d = self.m.methods(f[1])[f[2]]
            deco = [x.id for x in d.decorator_list if isinstance(x, ast.Name)]
            if 'staticmethod' in deco:
                return self.inline(d, c, vs, kw, p)
            if 'classmethod' in deco:
                return self.inline(d, c, [('cls', f[1])] + vs, kw, p)
            return self.inline(d, c, vs, kw, p)
        if k in ('attr', 'ext', 'bi', 'p'):
            q = p.copy()
            if k == 'attr':
                q.events += ((f[1], f[2], tuple(vs)),)
            return [(('app', f, tuple(vs)), q)]
        return [(TOP, p)]

    def inline(self, d, cls, vs, kw, p):
        a = d.args
        names = [x.arg for x in a.posonlyargs + a.args]
        q = p.copy()
        saved = p.env
        q.env = {}
        defs = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for i, n in enumerate(names):
            if i < len(vs):
                q.env[n] = vs[i]
            elif n in kw:
                q.env[n] = kw[n]
            elif n in defs:
                r = self.expr(defs[n], p.copy())
                q.env[n] = r[0][0]
            else:
                q.env[n] = TOP
        for x, dv in zip(a.kwonlyargs, a.kw_defaults):
            q.env[x.arg] = kw.get(x.arg, TOP)
        if a.vararg:
            q.env[a.vararg.arg] = ('tup', tuple(vs[len(names):]))
        self.depth += 1
        if cls is not None and vs and vs[0] == ('self',):
            self.owner.append(d.name)
        out = []
        for r, kind, v in self.block(d.body, q):
            r.env = dict(saved)
            out.append((('raise',) if kind == 'raise' else v if kind == 'return' else ('c', None), r))
        if cls is not None and vs and vs[0] == ('self',):
            self.owner.pop()
        self.depth -= 1
        return out
