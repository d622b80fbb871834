"""Flow-insensitive, field-based, interprocedural propagation of text values through the resolved program."""
from .facts import CALLS, CTORS, rel
from .util import strip_casts, all_nodes, callee, src_fns, repo_fns

SCALAR = {'bool', 'int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short', 'double', 'float', 'void',
          'long long', 'unsigned long long', 'signed char', 'size_t'}


def carries(t, enums=()):
    if t is None:
        return True
    t = t.replace('const ', '').strip()
    if t.rstrip(' &') in SCALAR or t in enums:
        return False
    if t.rstrip(' *&') in SCALAR and t.endswith('*') and t.rstrip(' *&') != 'char':
        return False
    if t.startswith('std::expected<capypdf::internal::NoReturnValue'):
        return False
    return True


VALUE_CLASSES = {'capypdf::internal::u8string', 'capypdf::internal::asciistring', 'capypdf::internal::PdfName',
                 'capypdf::internal::RawData'}


class Taint:
    def __init__(self, facts, sanitizers, cut_classes=(), fns=None):
        self.facts = facts
        self._carry = {}
        self.san = sanitizers
        self.cut = set(cut_classes)
        self.edges = {}      # key -> set of keys it flows to
        self.calls = []      # (fn, call node, callee fn or None)
        self.fns = [f for f in (fns if fns is not None else repo_fns(facts)) if rel(f.file).startswith('src/') and
                    f.cls not in VALUE_CLASSES]
        self.alias = {}
        for f in self.fns:
            for n in all_nodes(f):
                if n.k == 'DeclStmt':
                    for d in n.a.get('d', ()):
                        i = strip_casts(d['i']) if d.get('i') is not None else None
                        while i is not None and i.k in CTORS and len(i.c) == 1:
                            i = strip_casts(i.c[0])
                        if i is not None and i.k in CALLS and i.n == 'back_inserter' and i.c:
                            self.alias[('v', f.tu, d['v'])] = (f, i.c[0])
                        elif d.get('ref') and d.get('i') is not None:
                            self.alias[('v', f.tu, d['v'])] = (f, d['i'])
        for f in self.fns:
            if f.key not in self.san:
                self.fn(f)

    def carries(self, t):
        if t in self._carry:
            return self._carry[t]
        self._carry[t] = False
        res = carries(t, self.facts.enums)
        if res and t is not None:
            b = t.replace('const ', '').rstrip(' *&')
            r = self.facts.records.get(b)
            if r is not None and b not in VALUE_CLASSES:
                res = any(self.carries(f['t']) for f in r['fields']) or any(self.carries(x) for x in r.get('bases', ()))
        self._carry[t] = res
        return res

    def edge(self, src, dst):
        if src is not None and dst is not None and src != dst:
            self.edges.setdefault(src, set()).add(dst)

    def flow(self, f, expr, dst):
        if expr is None or dst is None:
            return
        for s in self.deps(f, expr):
            self.edge(s, dst)

    # the storage an lvalue denotes
    def target(self, f, n, depth=0):
        n = strip_casts(n)
        if n is None or depth > 20:
            return None
        if n.k == 'DeclRefExpr':
            if n.dk == 'global':
                return ('g', n.q)
            if n.v is None:
                return None
            key = ('v', f.tu, n.v)
            if key in self.alias:
                g, e = self.alias[key]
                t = self.target(g, e, depth + 1)
                return t or key
            return key
        if n.k == 'MemberExpr' and n.dk == 'field':
            return ('f', n.cls, n.n)
        if n.k == 'MemberExpr' and n.c:
            return self.target(f, n.c[0], depth + 1)
        if n.k in ('UnaryOperator', 'ArraySubscriptExpr') and n.c:
            return self.target(f, n.c[0], depth + 1)
        if n.k == 'CXXOperatorCallExpr' and n.c and n.op in ('*', '->', '[]', '++'):
            return self.target(f, n.c[0], depth + 1)
        if n.k == 'CXXMemberCallExpr' and n.obj is not None:
            g = callee(self.facts, n)
            if g is not None and not g.dep:
                return ('r', g.key)
            return self.target(f, n.obj, depth + 1)
        if n.k == 'CallExpr' and n.n in ('get', 'get_if', 'back_inserter', 'any_cast') and n.c:
            return self.target(f, n.c[0], depth + 1)
        if n.k == 'ConditionalOperator':
            return self.target(f, n.c[1], depth + 1)
        if n.k == 'LambdaExpr':
            return None
        return None

    def deps(self, f, n):
        out = set()
        self._deps(f, n, out, 0)
        return out

    def _deps(self, f, n, out, depth):
        n = strip_casts(n)
        if n is None or depth > 60:
            return
        if n.t is not None and not self.carries(n.t):
            return
        k = n.k
        if k == 'DeclRefExpr':
            t = self.target(f, n)
            if t is not None and n.dk in ('local', 'param', 'binding', 'global'):
                out.add(t)
                if n.v is not None:
                    out.add(('v', f.tu, n.v))
            return
        if k == 'MemberExpr':
            if n.dk == 'field':
                out.add(('f', n.cls, n.n))
                b = strip_casts(n.c[0]) if n.c else None
                # pair members carry the pair
                if n.n in ('first', 'second') and b is not None:
                    self._deps(f, b, out, depth + 1)
            elif n.c:
                self._deps(f, n.c[0], out, depth + 1)
            return
        if k == 'ConditionalOperator':
            self._deps(f, n.c[1], out, depth + 1)
            self._deps(f, n.c[2], out, depth + 1)
            return
        if k == 'LambdaExpr':
            return
        if k in CALLS:
            if n.f in self.san:
                return
            g = callee(self.facts, n)
            if g is not None and not g.dep and rel(g.file).startswith('src/') and g.cls not in VALUE_CLASSES:
                out.add(('r', g.key))
                return
            out.add(('ext', n.n))
            for a in n.c:
                if a is not None:
                    self._deps(f, a, out, depth + 1)
            if n.obj is not None:
                self._deps(f, n.obj, out, depth + 1)
            return
        if k in CTORS:
            for a in n.c:
                if a is not None:
                    self._deps(f, a, out, depth + 1)
            return
        if k in ('IntegerLiteral', 'StringLiteral', 'CharacterLiteral'):
            return
        if k == 'BinaryOperator' and n.op == '=':
            self._deps(f, n.c[1], out, depth + 1)
            return
        for x in n.kids():
            self._deps(f, x, out, depth + 1)

    def bind_args(self, f, call, g):
        args = call.c
        if call.k == 'CXXOperatorCallExpr' and g.cls and not g.static:
            args = args[1:]
        for p, a in zip(g.params, args):
            if a is None:
                continue
            pk = ('v', g.tu, p['v'])
            if g.cls in self.cut or g.key in self.san:
                continue
            if self.carries(p['t']):
                self.flow(f, a, pk)
            ts = p['ts']
            if ('&' in ts or '*' in ts) and not ts.startswith('const ') and '&&' not in ts:
                t = self.target(f, a)
                if t is not None:
                    self.edge(pk, t)

    def fn(self, f):
        facts = self.facts
        for i in f.inits:
            if i.get('i') is not None and i.get('n'):
                self.flow(f, i['i'], ('f', f.cls, i['n']))
        for n in all_nodes(f):
            k = n.k
            if k == 'DeclStmt':
                for d in n.a.get('d', ()):
                    if d.get('i') is None:
                        continue
                    self.flow(f, d['i'], ('v', f.tu, d['v']))
                    for b in d.get('bind', ()):
                        self.flow(f, d['i'], ('v', f.tu, b['v']))
                    if d.get('ref'):
                        t = self.target(f, d['i'])
                        self.edge(('v', f.tu, d['v']), t)
            elif k in ('BinaryOperator', 'CompoundAssignOperator') and n.op in ('=', '+='):
                self.flow(f, n.c[1], self.target(f, n.c[0]))
            elif k == 'ReturnStmt':
                if n.c:
                    self.flow(f, n.c[0], ('r', f.key))
            if k == 'InitListExpr':
                t = (n.t or '').replace('const ', '')
                r = facts.records.get(t)
                if r is not None:
                    off = len(n.c) - len(r['fields'])
                    for fl, x in zip(r['fields'], n.c[max(off, 0):]):
                        if self.carries(fl['t']):
                            self.flow(f, x, ('f', t, fl['n']))
            if k in CALLS or k in CTORS:
                g = callee(facts, n)
                lams = [x for x in n.c if x is not None]
                if g is not None and g.cls in VALUE_CLASSES:
                    pass
                elif g is not None and not g.dep and rel(g.file).startswith('src/'):
                    self.bind_args(f, n, g)
                    if k in CTORS and g.cls and not g.inits:
                        pass
                elif k == 'CXXOperatorCallExpr' and n.op in ('=', '+=', '<<') and len(n.c) == 2:
                    self.flow(f, n.c[1], self.target(f, n.c[0]))
                elif k == 'CXXOperatorCallExpr' and n.op == '[]' and len(n.c) == 2:
                    self.flow(f, n.c[1], self.target(f, n.c[0]))
                elif k == 'CXXMemberCallExpr' and n.obj is not None and not n.cst:
                    t = self.target(f, n.obj)
                    for a in n.c:
                        if a is not None:
                            self.flow(f, a, t)
                elif k == 'CallExpr' and n.n in ('format_to', 'copy', 'move', 'transform', 'swap', 'memcpy', 'snprintf', 'sprintf') and n.c:
                    idx = 0 if n.n in ('format_to', 'memcpy', 'snprintf', 'sprintf') else len(n.c) - 1
                    t = self.target(f, n.c[idx])
                    for i, a in enumerate(n.c):
                        if i != idx and a is not None:
                            self.flow(f, a, t)
                if k == 'CallExpr' and n.n == 'visit':
                    for x in n.c:
                        for y in x.walk():
                            if y.k == 'LambdaExpr':
                                for key in y.a.get('lam', ()):
                                    lf = facts.fns.get(key)
                                    if lf is not None and lf.params:
                                        for a in n.c[1:]:
                                            self.flow(f, a, ('v', lf.tu, lf.params[0]['v']))
                                            tt = self.target(f, a)
                                            # variant member objects are read through their own fields

    def spread(self, seeds, blocked=()):
        """key -> predecessor for everything reachable from the seeds"""
        seen = {s: None for s in seeds}
        work = list(seeds)
        while work:
            x = work.pop()
            for y in self.edges.get(x, ()):
                if y in seen or y in blocked:
                    continue
                if y[0] == 'f' and y[1] in self.cut:
                    continue
                seen[y] = x
                work.append(y)
        return seen

    def why(self, seen, key, limit=8):
        out = []
        while key is not None and len(out) < limit:
            out.append(self.name(key))
            key = seen.get(key)
        return ' <- '.join(out)

    def name(self, key):
        if key[0] == 'f':
            return '%s::%s' % ((key[1] or '?').split('::')[-1], key[2])
        if key[0] == 'r':
            g = self.facts.fns.get(key[1])
            return 'result of ' + (g.n if g else '?')
        if key[0] == 'v':
            return self.varname(key)
        return str(key[-1])

    def varname(self, key):
        if not hasattr(self, '_vn'):
            self._vn = {}
            for f in self.fns:
                for p in f.params:
                    self._vn[('v', f.tu, p['v'])] = '%s in %s' % (p['n'], f.n)
                for n in all_nodes(f):
                    if n.k == 'DeclStmt':
                        for d in n.a.get('d', ()):
                            self._vn[('v', f.tu, d['v'])] = '%s in %s' % (d['n'], f.n)
                            for b in d.get('bind', ()):
                                self._vn[('v', f.tu, b['v'])] = '%s in %s' % (b['n'], f.n)
        return self._vn.get(key, 'v%d' % key[2])
