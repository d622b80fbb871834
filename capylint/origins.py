"""Where do object numbers and table indices come from?  Demand-driven, flow-insensitive, field-based (a container or
optional stands for its elements), interprocedural in both directions.

atoms:  ('obj', key)        number of the object appended at add site `key`
        ('next', key)       document_objects.size() read at node `key` (number of the object appended next)
        ('idx', table)      position in a table (its size when the entry was appended, or a loop over it)
        ('self', record)    number of the object being written, whose delayed form is `record`
        ('arith', key)      arithmetic over object numbers / predicted numbers, to be resolved separately
        ('c', n)            constant
        ('ext',)            handed in from outside the library
        ('?', key)          anything else
"""
from .facts import CALLS, CTORS, rel
from .util import strip_casts, all_nodes, callee, repo_fns, lambda_fns

DOC = 'capypdf::internal::PdfDocument'
OBJS = (DOC, 'document_objects')
PUSH = {'push_back', 'emplace_back', 'insert', 'emplace', 'assign', 'append', 'insert_or_assign', 'try_emplace', 'reset', 'store'}
ELEM = {'at', 'front', 'back', 'value', 'get', 'find', 'data', 'begin', 'end', 'cbegin', 'cend', 'operator->', 'operator*', 'lower_bound',
        'upper_bound', 'rbegin', 'rend', 'error'}
PASSFN = {'std::get', 'std::get_if', 'std::move', 'std::forward', 'std::as_const', 'std::find', 'std::find_if', 'std::prev', 'std::next',
          'std::addressof', 'std::ref', 'std::cref', 'std::span'}


def clean(t):
    return (t or '').replace('const ', '').rstrip(' &*')


def failure(n):
    """a returned expression that is the error side of std::expected"""
    for _ in range(6):
        if n is None:
            return False
        if 'std::unexpected<' in (n.t or '')[:24] or clean(n.t).endswith('::ErrorCode'):
            return True
        if n.k == 'CallExpr' and n.q in ('std::move', 'std::forward') or n.k in CTORS or n.k.endswith('CastExpr'):
            n = n.c[0] if n.c else None
        elif n.k == 'CXXMemberCallExpr' and n.n == 'error':
            return True
        else:
            return False
    return False


def slot_of_member(n):
    return ('f', n.cls, n.n)


class Origins:
    def __init__(self, facts):
        self.facts = facts
        self.defs = {}        # slot -> [(fn, node)]
        self.incs = set()     # ('v',tu,v) incremented by one
        self.bounds = {}      # ('v',tu,v) -> slots of tables it is compared with
        self.sites = {}       # callee key -> [(fn, call)]
        self.params = {}      # ('v',tu,v) -> (fn, index)
        self.addsites = {}    # key -> (fn, call, payload node)
        self.recs = facts.records
        self.memo = {}
        self.fields = {q: [f['n'] for f in r['fields']] for q, r in facts.records.items()}
        self.add_fns = self.find_adders()
        for f in repo_fns(facts):
            for i, p in enumerate(f.params):
                self.params[('v', f.tu, p['v'])] = (f, i)
            for n in all_nodes(f):
                self.scan(f, n)
            for i in f.inits:
                if i.get('i') is not None and i.get('n'):
                    self.defs.setdefault(('f', f.cls, i['n']), []).append((f, i['i']))

    # ---- construction
    def find_adders(self):
        """functions that append their parameter to document_objects and return its number"""
        out = set()
        for f in repo_fns(self.facts):
            if f.cls != DOC or len(f.params) != 1 or 'std::variant<capypdf::internal::DummyIndexZero' not in f.params[0]['t']:
                continue
            if any(n.k == 'CXXMemberCallExpr' and n.n in ('push_back', 'emplace_back') and self.is_objs(n.obj) for n in all_nodes(f)):
                out.add(f.key)
        return out

    @staticmethod
    def is_objs(n):
        n = strip_casts(n) if n is not None else None
        return n is not None and n.k == 'MemberExpr' and (n.cls, n.n) == OBJS

    def args_of(self, call, g):
        a = call.c
        if call.k == 'CXXOperatorCallExpr' and g.cls and not g.static:
            a = a[1:]
        return a

    def scan(self, f, n):
        k = n.k
        if k in CALLS or k in CTORS:
            if n.f:
                self.sites.setdefault(n.f, []).append((f, n))
        if k == 'CXXMemberCallExpr' and n.f in self.add_fns and n.c:
            self.addsites[(f.key, n.id)] = (f, n, n.c[0])
        if k == 'CXXMemberCallExpr' and n.n in ('push_back', 'emplace_back') and self.is_objs(n.obj) and f.key not in self.add_fns and n.c:
            self.addsites[(f.key, n.id)] = (f, n, n.c[0])
        if k == 'DeclStmt':
            for d in n.a.get('d', ()):
                if d.get('i') is not None:
                    self.defs.setdefault(('v', f.tu, d['v']), []).append((f, d['i']))
                for b in d.get('bind', ()):
                    if b.get('e') is not None:
                        self.defs.setdefault(('v', f.tu, b['v']), []).append((f, b['e']))
        elif k == 'BinaryOperator' and n.op == '=' or k == 'CXXOperatorCallExpr' and n.op == '=' and len(n.c) == 2:
            s = self.slot(f, n.c[0])
            if s is not None:
                self.defs.setdefault(s, []).append((f, n.c[1]))
        elif k in ('CompoundAssignOperator', 'BinaryOperator') and n.op in ('+=', '-='):
            s = self.slot(f, n.c[0])
            if s is not None:
                self.defs.setdefault(s, []).append((f, n))
        elif k == 'UnaryOperator' and n.op in ('++', '--'):
            s = self.slot(f, n.c[0])
            if s is not None:
                if n.op == '++':
                    self.incs.add(s)
                else:
                    self.defs.setdefault(s, []).append((f, n))
        elif k == 'CXXMemberCallExpr' and n.n in PUSH and n.obj is not None:
            s = self.slot(f, n.obj)
            if s is not None:
                a = [x for x in n.c if x is not None]
                if n.n in ('insert', 'emplace', 'insert_or_assign', 'try_emplace') and len(a) == 2:
                    a = a[1:]
                for x in a:
                    self.defs.setdefault(s, []).append((f, x))
                if n.n in ('emplace_back', 'emplace'):
                    self.emplaced(f, n.obj, a)
        elif k == 'InitListExpr' and n.a.get('rec'):
            for fl, x in zip(n.a.get('flds') or (), n.c):
                if x is not None and x.k != 'CXXDefaultInitExpr':
                    self.defs.setdefault(('f', n.a['rec'], fl), []).append((f, x))
        elif k == 'CXXParenListInitExpr':
            t = clean(n.t)
            for fl, x in zip(self.fields.get(t, ()), n.c):
                if x is not None:
                    self.defs.setdefault(('f', t, fl), []).append((f, x))
        if k in ('BinaryOperator',) and n.op in ('<', '!=', '>', '<=', '>='):
            for a, b in ((n.c[0], n.c[1]), (n.c[1], n.c[0])):
                s = self.slot(f, a)
                t = self.sized(f, b)
                if s is not None and s[0] == 'v' and t is not None:
                    self.bounds.setdefault(s, set()).add(t)

    def emplaced(self, f, obj, args):
        """emplace_back(a, b, ..) into a container of an aggregate initialises its fields"""
        t = clean(obj.t)
        for q, fl in self.fields.items():
            if t.endswith('<' + q + '>') and len(args) > 1:
                for name, x in zip(fl, args):
                    self.defs.setdefault(('f', q, name), []).append((f, x))

    def sized(self, f, n):
        n = strip_casts(n) if n is not None else None
        if n is not None and n.k == 'CXXMemberCallExpr' and n.n == 'size' and n.obj is not None:
            return self.slot(f, n.obj)
        if n is not None and n.k == 'CallExpr' and n.n in ('size', 'ssize') and n.c:
            return self.slot(f, n.c[0])
        if n is not None and n.k == 'DeclRefExpr' and n.v is not None:
            ds = self.defs.get(('v', f.tu, n.v), ())
            if len(ds) == 1:
                x = strip_casts(ds[0][1])
                if x is not None and x.k != 'DeclRefExpr':
                    return self.sized(f, x)
        return None

    # ---- slots
    def slot(self, f, n, depth=0):
        """the storage an lvalue expression denotes (containers and boxes stand for their elements)"""
        n = strip_casts(n)
        if n is None or depth > 20:
            return None
        k = n.k
        if k == 'DeclRefExpr':
            if n.v is not None:
                return ('v', f.tu, n.v)
            if n.dk == 'global':
                return ('g', n.q)
            return None
        if k == 'MemberExpr':
            if n.dk != 'field':
                return None
            if (n.cls or '').startswith('std::'):
                # pair / iterator members: the element itself
                return self.slot(f, n.c[0], depth + 1) if n.n in ('second', 'first') else None
            return slot_of_member(n)
        if k == 'UnaryOperator' and n.op in ('*', '&', '++', '--'):
            return self.slot(f, n.c[0], depth + 1)
        if k == 'CXXOperatorCallExpr' and n.op in ('*', '->', '[]', '++', '--') and n.c:
            return self.slot(f, n.c[0], depth + 1)
        if k == 'ArraySubscriptExpr':
            return self.slot(f, n.c[0], depth + 1)
        if k == 'CXXMemberCallExpr' and n.n in ELEM and n.obj is not None and (n.cls or '').startswith(('std::', '__gnu_cxx')):
            return self.slot(f, n.obj, depth + 1)
        if k == 'CallExpr' and (n.q in PASSFN) and n.c:
            return self.slot(f, n.c[0], depth + 1)
        if k in CTORS and len([x for x in n.c if x is not None]) == 1 and (n.cls or '').startswith('std::'):
            return self.slot(f, n.c[0], depth + 1)
        return None

    # ---- values
    def values(self, f, n):
        return self.ev(f, n, frozenset())

    def ev(self, f, n, busy):
        n = strip_casts(n)
        if n is None:
            return frozenset()
        key = (f.key, n.id)
        if key in self.memo:
            return self.memo[key]
        if key in busy:
            return frozenset()
        r = self._ev(f, n, busy | {key})
        if not busy:
            self.memo[key] = r
        return r

    def _ev(self, f, n, busy):
        k = n.k
        if n.cvi() is not None and k not in ('MemberExpr',):
            return frozenset([('c', n.cvi())])
        if k == 'CXXMemberCallExpr' and n.f in self.add_fns:
            return frozenset([('obj', (f.key, n.id))])
        if k in CTORS or k in ('InitListExpr', 'CXXParenListInitExpr', 'CXXDefaultInitExpr', 'ExprWithCleanups'):
            a = [x for x in n.c if x is not None and x.k != 'CXXDefaultArgExpr']
            if n.a.get('rec') and len(a) != 1:
                return frozenset()
            out = frozenset()
            for x in a[:1]:
                out |= self.ev(f, x, busy)
            return out
        if k == 'ConditionalOperator':
            return self.ev(f, n.c[1], busy) | self.ev(f, n.c[2], busy)
        t = self.sized(f, n) if k in ('CXXMemberCallExpr', 'CallExpr') else None
        if t is not None:
            if t == ('f',) + OBJS:
                return frozenset([('next', (f.key, n.id))])
            return frozenset([('idx', t)])
        if k == 'BinaryOperator' and n.op in ('+', '-'):
            return self.arith(f, n, busy)
        if k == 'UnaryOperator' and n.op in ('++', '--') or k in ('CompoundAssignOperator',) or k == 'BinaryOperator' and n.op in ('+=', '-='):
            if k == 'UnaryOperator' and n.op == '++':
                return self.ev(f, n.c[0], busy)
            return frozenset([('arith', (f.key, n.id))])
        if k == 'BinaryOperator' and n.op in ('=', ','):
            return self.ev(f, n.c[1], busy)
        if k == 'CXXMemberCallExpr' and n.n == 'value_or' and n.obj is not None:
            out = self.ev(f, n.obj, busy)
            for x in n.c:
                out |= self.ev(f, x, busy)
            return out
        s = self.slot(f, n)
        if s is not None:
            return self.slotvals(f, s, busy)
        if k == 'MemberExpr' and n.c:
            return self.ev(f, n.c[0], busy)
        if k in CALLS:
            g = callee(self.facts, n)
            if g is not None:
                out = frozenset()
                for x in all_nodes(g):
                    if x.k == 'ReturnStmt' and x.c and x.c[0] is not None and not failure(x.c[0]):
                        out |= self.ev(g, x.c[0], busy)
                return out
            if n.k == 'CXXOperatorCallExpr' and n.op in ('+', '-', '*', '->') and n.c:
                return self.ev(f, n.c[0], busy)
            if n.obj is not None and (n.cls or '').startswith(('std::', '__gnu_cxx')):
                return self.ev(f, n.obj, busy)
            if n.q in ('std::min', 'std::max', 'std::exchange'):
                out = frozenset()
                for x in n.c:
                    out |= self.ev(f, x, busy)
                return out
        return frozenset([('?', (f.key, n.id))])

    def arith(self, f, n, busy):
        a, b = n.c[0], n.c[1]
        bv = strip_casts(b)
        av = self.ev(f, a, busy)
        if n.op == '-' and bv is not None and bv.cvi() == 1:
            out = set()
            for x in av:
                if x[0] == 'next':
                    p = self.before(x[1])
                    out.add(('obj', p) if p is not None else ('arith', (f.key, n.id)))
                elif x[0] == 'idx':
                    out.add(x)
                else:
                    out.add(('arith', (f.key, n.id)))
            return frozenset(out)
        vs = av | self.ev(f, b, busy)
        if all(x[0] == 'c' for x in vs):
            return frozenset([('c', None)])
        return frozenset([('arith', (f.key, n.id))])

    def before(self, key):
        """the object certainly appended last before document_objects.size() is read"""
        fn = self.facts.fns.get(key[0])
        n = fn.nodes.get(key[1]) if fn is not None else None
        x = n
        while x is not None and x.parent is not None:
            p = x.parent
            if p.k == 'CompoundStmt':
                i = next((j for j, c in enumerate(p.c) if c is x), None)
                for s in reversed(p.c[:i] if i is not None else []):
                    if s is None:
                        continue
                    hit = [y for y in s.walk() if (fn.key, y.id) in self.addsites]
                    if hit:
                        return (fn.key, hit[-1].id) if len(hit) == 1 and s.k not in (
                            'IfStmt', 'ForStmt', 'WhileStmt', 'CXXForRangeStmt', 'SwitchStmt', 'DoStmt') else None
                    if any(y.k in CALLS and callee(self.facts, y) is not None and callee(self.facts, y).cls == DOC and
                           not callee(self.facts, y).const and self.adds(callee(self.facts, y)) for y in s.walk()):
                        return None
            elif p.k in ('ForStmt', 'WhileStmt', 'CXXForRangeStmt', 'DoStmt', 'LambdaExpr'):
                return None
            x = p
        return None

    def adds(self, g, seen=None):
        c = getattr(g, '_adds_objects', None)
        if c is not None:
            return c
        seen = seen or set()
        if g.key in seen:
            return False
        seen.add(g.key)
        r = g.key in self.add_fns
        if not r:
            for n in all_nodes(g):
                if (g.key, n.id) in self.addsites:
                    r = True
                    break
                if n.k in CALLS:
                    h = callee(self.facts, n)
                    if h is not None and self.adds(h, seen):
                        r = True
                        break
        g._adds_objects = r
        return r

    def slotvals(self, f, s, busy):
        key = ('slot',) + s
        if key in self.memo:
            return self.memo[key]
        if key in busy:
            return frozenset()
        b2 = busy | {key}
        out = frozenset()
        ds = self.defs.get(s, ())
        if s[0] == 'v' and s in self.incs and s in self.bounds and s not in self.params:
            inits = [strip_casts(x) for _, x in ds]
            if all(x is not None and x.cvi() == 0 for x in inits) and len(self.bounds[s]) == 1:
                t = next(iter(self.bounds[s]))
                if t == ('f',) + OBJS:
                    r = self.written(f)
                    out = frozenset([('self', r)] if r else [('idx', t)])
                    return out
                out = frozenset([('idx', t)])
                return out
        if s[0] == 'v' and s in self.incs and s not in self.params and all(strip_casts(x) is not None and strip_casts(x).cvi() == 0 for _, x in ds):
            t = self.counts(f, s)
            if t is not None:
                return frozenset([('idx', t)])
        for g, x in ds:
            out |= self.ev(g, x, b2)
        if s in self.params:
            g, i = self.params[s]
            if g.is_lambda:
                out |= frozenset([('?', ('param', s))]) if not self.sites.get(g.key) else frozenset()
            ss = self.sites.get(g.key, ())
            if g.externc or (not ss and not g.is_lambda):
                out |= frozenset([('ext',)])
            for h, call in ss:
                a = self.args_of(call, g)
                if i < len(a) and a[i] is not None:
                    x = a[i]
                    if x.k == 'CXXDefaultArgExpr' and x.c:
                        x = x.c[0]
                    out |= self.ev(h, x, b2)
        if s[0] == 'f':
            r = self.recs.get(s[1])
            if r is not None:
                for fl in r['fields']:
                    if fl['n'] == s[2] and fl.get('i') is not None and fl['i'].cvi() is not None:
                        out |= frozenset([('c', fl['i'].cvi())])
        if not busy:
            self.memo[key] = out
        return out

    def counts(self, f, s):
        """a counter that starts at 0 and goes up once per element of a range-for"""
        for g in (f,):
            for n in all_nodes(g):
                if n.k == 'UnaryOperator' and n.op == '++' and self.slot(g, n.c[0]) == s:
                    p = n.parent
                    while p is not None and p.k not in ('CXXForRangeStmt', 'ForStmt', 'WhileStmt', 'DoStmt'):
                        p = p.parent
                    if p is not None and p.k == 'CXXForRangeStmt':
                        for d in p.walk():
                            if d.k == 'DeclStmt':
                                for v in d.a.get('d', ()):
                                    if v['n'].startswith('__range') and v.get('i') is not None:
                                        return self.slot(g, v['i'])
        return None

    def written(self, f):
        """inside the visitor of the object writer: the record of the object being written"""
        if f.is_lambda and len(f.params) == 1:
            t = clean(f.params[0]['t'])
            if t in self.recs:
                return t
        return None

    # ---- slices
    def slice(self, f, n, seen=None, depth=0):
        """every record field read on the way to the value of an expression (data dependences, through locals and parameters)"""
        top = seen is None
        seen = set() if top else seen
        out = set()
        n = strip_casts(n)
        if n is None or depth > 40 or (f.key, n.id) in seen:
            return out
        seen.add((f.key, n.id))
        if n.k == 'CXXMemberCallExpr' and n.f in self.add_fns:
            return out
        if n.k == 'MemberExpr' and n.dk == 'field' and not (n.cls or '').startswith('std::'):
            out.add((n.cls, n.n))
        if n.k == 'DeclRefExpr' and n.v is not None:
            s = ('v', f.tu, n.v)
            for g, x in self.defs.get(s, ()):
                out |= self.slice(g, x, seen, depth + 1)
            if s in self.params:
                g, i = self.params[s]
                if not g.is_lambda:
                    for h, call in self.sites.get(g.key, ()):
                        a = self.args_of(call, g)
                        if i < len(a) and a[i] is not None:
                            out |= self.slice(h, a[i], seen, depth + 1)
            return out
        if n.k in CALLS:
            g = callee(self.facts, n)
            if g is not None and g.cls == DOC and len(list(all_nodes(g))) < 40:
                for x in all_nodes(g):
                    if x.k == 'MemberExpr' and x.dk == 'field' and not (x.cls or '').startswith('std::'):
                        out.add((x.cls, x.n))
        for x in n.kids():
            out |= self.slice(f, x, seen, depth + 1)
        return out


def build(facts):
    o = getattr(facts, '_origins', None)
    if o is None:
        o = facts._origins = Origins(facts)
    return o
