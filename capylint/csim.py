"""What drawing calls append to a content stream: a symbolic text domain, explored over every path (client of flow.Explorer).

A text is a tuple of pieces
  ('L', text, site)              literal text
  ('V', fn, node, chain, spec)   the value of an expression, formatted; the call string says for which caller
  ('+', kind) / ('-', kind)      an entry pushed on / popped off the formatter's nesting stack
Nothing is executed; loops are taken zero, one and (collapsed) several times.
"""
from .facts import CALLS, CTORS, AnalysisBroken
from .util import strip_casts, callee, all_nodes, repo_fns, lit_str, direct_callees, lambda_fns
from .flow import Client, Explorer, OK, ERR, ANY
from .origins import clean
from .rules.p02 import Swallow
from . import origins

CSF = 'capypdf::internal::CommandStreamFormatter'
TEXT = ('std::basic_string<char>', 'std::basic_string_view<char>', 'char *', 'std::string', 'std::string_view')
OPAQUE = ('src/utils.cpp', 'src/pdfcommon.cpp', 'src/document.cpp', 'src/objectformatter.cpp', 'src/errorhandling.cpp', 'src/colorconverter.cpp')


def textual(t):
    t = (t or '').replace('const ', '').rstrip(' &')
    if t.endswith('*const'):
        t = t[:-5].rstrip(' ')
    return t in TEXT or t.startswith('char[')


def fmtparts(s):
    """[(literal, None) | (None, spec)] of a format string"""
    out, i, lit = [], 0, ''
    while i < len(s):
        c = s[i]
        if c in '{}' and s[i:i + 2] == c * 2:
            lit += c
            i += 2
        elif c == '{':
            j = s.index('}', i)
            if lit:
                out.append((lit, None))
                lit = ''
            body = s[i + 1:j]
            out.append((None, body))
            i = j + 1
        else:
            lit += c
            i += 1
    if lit:
        out.append((lit, None))
    return out


def freeze(x):
    return tuple(freeze(y) for y in x) if isinstance(x, (list, tuple)) else x


def collapse(p):
    n = len(p)
    for k in range(1, min(24, n // 2) + 1):
        if p[n - k:] == p[n - 2 * k:n - k]:
            return p[:n - k]
    return p


_inits = {}


def bool_init(f, v):
    """the initialiser of a boolean local that is never assigned again"""
    k = (f.key, v)
    if k not in _inits:
        init, bad = None, False
        for n in all_nodes(f):
            if n.k == 'DeclStmt':
                for d in n.a.get('d', ()):
                    if d.get('v') == v and d.get('i') is not None and d.get('t', '').replace('const ', '') == 'bool':
                        init = d['i']
            elif n.k in ('BinaryOperator', 'CompoundAssignOperator') and n.op and n.op.endswith('=') and n.op not in ('==', '!=', '<=', '>='):
                x = strip_casts(n.c[0])
                bad = bad or x is not None and x.k == 'DeclRefExpr' and x.v == v
        _inits[k] = None if bad else init
    return _inits[k]


def implied(facts, f, cond, truth, bind=None, depth=0):
    """[(function, condition, truth, bindings)] that hold when a condition does: through negation, conjunction, boolean locals and
    predicates consisting of one return statement"""
    bind = bind or {}
    x = strip_casts(cond)
    out = []
    if x is None or depth > 8:
        return out
    if x.k == 'UnaryOperator' and x.op == '!':
        return implied(facts, f, x.c[0], not truth, bind, depth + 1)
    if x.k == 'BinaryOperator' and x.op in ('&&', '||'):
        if (x.op == '&&') == truth:
            for c in x.c:
                out += implied(facts, f, c, truth, bind, depth + 1)
        return out
    out.append((f, x, truth, bind))
    if x.k == 'DeclRefExpr' and x.v is not None:
        i = bool_init(f, x.v)
        if i is not None:
            out += implied(facts, f, i, truth, bind, depth + 1)
    elif x.k in CALLS and x.f and (x.t or '') == 'bool':
        g = facts.fns.get(x.f)
        if g is not None and g.body is not None:
            b = [c for c in g.body.c if c is not None]
            if len(b) == 1 and b[0].k == 'ReturnStmt' and b[0].c:
                b2 = dict(bind)
                for p, a in zip(g.params, x.c):
                    if a is not None:
                        b2[(g.tu, p['v'])] = (f, a)
                out += implied(facts, g, b[0].c[0], truth, b2, depth + 1)
    return out


class Malformed(Exception):
    pass


class Sim(Client):
    def __init__(self, facts):
        self.facts = facts
        self.o = origins.build(facts)
        self.ec = Swallow(facts)
        self.emitting = self.closure()
        self.too_long = False
        self.steps, self.budget = 0, 10 ** 9
        self.reduced = False      # complete operators go to 'seen', of open arrays only the last element is kept
        self.seen = set()
        self.items = set()        # elements of arrays

    def closure(self):
        hit = set()
        for f in repo_fns(self.facts):
            for n in all_nodes(f):
                if n.k == 'MemberExpr' and n.cls == CSF and n.n in ('buf', 'appender', 'stack'):
                    p = n.parent
                    while p is not None and (p.k.endswith('CastExpr') or p.k in CTORS):
                        p = p.parent
                    if n.n != 'stack' or p is not None and p.k == 'CXXMemberCallExpr' and p.n in ('push_back', 'pop_back', 'emplace_back'):
                        hit.add(f.key)
        callers = {}
        for f in repo_fns(self.facts):
            for n in all_nodes(f):
                if n.f:
                    callers.setdefault(n.f, set()).add(f.key)
        work = list(hit)
        while work:
            k = work.pop()
            for c in callers.get(k, ()):
                if c not in hit:
                    hit.add(c)
                    work.append(c)
        return hit

    # ---- state: (store, chain, this)
    @staticmethod
    def put(st, k, v):
        store = dict(st[0])
        store[k] = v
        return (frozenset(store.items()), st[1], st[2])

    @staticmethod
    def get(st, k, d=None):
        for a, b in st[0]:
            if a == k:
                return b
        return d

    def append(self, st, key, pieces):
        if not pieces:
            return st
        cur = self.get(st, key, ()) + tuple(pieces)
        cur = collapse(cur)
        if self.reduced and key == 'OUT':
            cur = self.reduce(cur)
        if len(cur) > 400:
            self.too_long = True
            cur = cur[:400]
        return self.put(st, key, cur)

    def reduce(self, cur):
        """drop what is complete: whole operators (recorded), repeated elements of the open array"""
        # cut after the last line break outside of everything
        flat = []
        for p in cur:
            if p[0] == 'L':
                flat.extend((c, p) for c in p[1])
            else:
                flat.append((p, p))
        depth, cut, i = 0, 0, 0
        items, start = None, None
        while i < len(flat):
            c = flat[i][0]
            two = i + 1 < len(flat) and flat[i + 1][0] == c
            if c in ('<', '>') and two:
                depth += 1 if c == '<' else -1
                i += 1
            elif c in ('<', '['):
                depth += 1
                if c == '[' and depth == 1:
                    start = i + 1
            elif c in ('>', ']'):
                depth -= 1
                if c == ']' and depth == 0:
                    start = None
            elif c == '\n' and depth == 0:
                cut = i + 1
            if depth > 6:
                raise Malformed('arrays or dictionaries are opened again and again without being closed')
            if depth < -6:
                raise Malformed('arrays or dictionaries are closed again and again without having been opened')
            i += 1
        def pieces(fl):
            out = []
            for c, p in fl:
                if isinstance(c, str):
                    if out and out[-1][0] == 'L' and out[-1][2] == p[2]:
                        out[-1] = ('L', out[-1][1] + c, p[2])
                    else:
                        out.append(('L', c, p[2]))
                else:
                    out.append(p)
            return tuple(out)
        if start is not None and depth == 1 and flat and flat[-1][0] in (' ', '\n') and start < len(flat):
            body, word, items = flat[start:], [], []
            d = 0
            for e in body:
                word.append(e)
                if e[0] == '<':
                    d += 1
                elif e[0] == '>':
                    d -= 1
                elif e[0] in (' ', '\n') and d == 0:
                    items.append(tuple(word))
                    word = []
            if not word:
                for it in items:
                    for t in tokens(pieces(it))[0]:
                        self.items.add(freeze(t))
                real = [it for it in items if any(not (isinstance(c, str) and c in ' \n') for c, p in it)]
                flat = flat[:start] + [(' ', ('L', ' ', None))] + (list(real[-1]) if real else [])
        done, rest = flat[:cut], flat[cut:]
        if done:
            for o in operators(pieces(done)):
                self.seen.add((o[0], freeze(o[1])))
        return pieces(rest)

    def lit(self, st, f, n, text):
        return (('L', text, (f.key, n.id, st[1])),) if text else ()

    # ---- which buffer an expression denotes
    def buffer(self, st, f, n):
        n = strip_casts(n)
        for _ in range(10):
            if n is None:
                return None
            if n.k == 'UnaryOperator' and n.op in ('*', '&'):
                n = strip_casts(n.c[0])
            elif n.k == 'DeclRefExpr' and n.v is not None:
                k = ('s', f.tu, n.v)
                al = self.get(st, ('r', f.tu, n.v))
                return al if al is not None else k
            elif n.k == 'MemberExpr' and n.cls == CSF and n.n in ('buf', 'appender'):
                return st[2] or 'OUT'
            elif n.k == 'MemberExpr' and clean(n.t) == CSF:
                return 'OUT'
            elif n.k == 'CXXThisExpr':
                return st[2] or 'OUT'
            elif n.k in CALLS and n.n == 'back_inserter' and n.c:
                n = strip_casts(n.c[0])
            elif n.k in CTORS and len([x for x in n.c if x is not None]) == 1:
                n = strip_casts(n.c[0])
            else:
                return None
        return None

    def iter_target(self, st, f, n):
        x = strip_casts(n)
        while x is not None and x.k in CTORS and x.c and x.c[0] is not None:
            x = strip_casts(x.c[0])
        if x is not None and x.k == 'DeclRefExpr' and x.v is not None:
            t = self.get(st, ('it', f.tu, x.v))
            if t is not None:
                return t
        return self.buffer(st, f, n)

    # ---- texts
    def text(self, st, f, n, spec=''):
        n = strip_casts(n)
        if n is None:
            return ()
        if n.k == 'StringLiteral':
            return self.lit(st, f, n, n.s)
        if n.k == 'CharacterLiteral':
            return self.lit(st, f, n, chr(n.cvi())) if n.cvi() is not None else ()
        if n.k == 'DeclRefExpr' and n.v is not None:
            b = self.buffer(st, f, n)
            if b is not None:
                v = self.get(st, b)
                if v is not None:
                    return v
            return self.hole(st, f, n, spec)
        if n.k == 'MemberExpr' and n.cls == CSF and n.n == 'lead':
            return ()
        if n.k == 'MemberExpr' and n.cls == CSF and n.n == 'buf':
            return self.get(st, self.buffer(st, f, n), ())
        if n.k == 'ConditionalOperator' and len(n.c) == 3:
            ch = self.get(st, ('c', f.key, n.id))
            if ch is not None:
                return self.text(st, f, n.c[1] if ch else n.c[2], spec)
            return self.hole(st, f, n, spec)
        if n.k in CTORS:
            a = [x for x in n.c if x is not None and x.k != 'CXXDefaultArgExpr']
            if not a and textual(n.t):
                return ()
            if textual(n.t) and len(a) == 1:
                return self.text(st, f, a[0], spec)
            return self.hole(st, f, n, spec)
        if n.k == 'InitListExpr' and not n.c and textual(n.t):
            return ()
        if n.k in CALLS:
            r = self.get(st, ('k', f.key, n.id))
            if r is not None:
                return r
            if n.k == 'CallExpr' and n.q == 'std::format' and n.c:
                return self.format(st, f, n, n.c[0], n.c[1:])
            if n.k == 'CXXMemberCallExpr' and n.obj is not None and (n.n.startswith('operator ') or n.n in ('c_str', 'data', 'str', 'sv')) and (
                    textual(n.obj.t)):
                return self.text(st, f, n.obj, spec)
            if n.k == 'CXXOperatorCallExpr' and n.op == '+' and len(n.c) == 2:
                return self.text(st, f, n.c[0], spec) + self.text(st, f, n.c[1], spec)
        return self.hole(st, f, n, spec)

    def hole(self, st, f, n, spec):
        return (('V', f.key, n.id, st[1], spec),)

    def format(self, st, f, n, fmt, args):
        s = lit_str(fmt)
        if s is None:
            x = strip_casts(fmt)
            while x is not None and x.k in CTORS and x.c:
                x = strip_casts(x.c[0])
            s = x.s if x is not None and x.k == 'StringLiteral' else None
        if s is None:
            return self.hole(st, f, n, '')
        out = ()
        i = 0
        for lit, spec in fmtparts(s):
            if lit is not None:
                out += self.lit(st, f, n, lit)
                continue
            body = spec.split(':', 1)
            k = i
            if body[0].isdigit():
                k = int(body[0])
            else:
                i += 1
            if k >= len(args) or args[k] is None:
                return self.hole(st, f, n, '')
            a = args[k]
            sp = body[1] if len(body) > 1 else ''
            x = strip_casts(a)
            if textual(a.t) or x is not None and textual(x.t):
                out += self.text(st, f, a, sp)
            else:
                out += self.hole(st, f, x, sp)
        return out

    # ---- client
    def on_node(self, st, n, ctx):
        f = ctx.fn
        k = n.k
        self.steps += 1
        if self.steps > self.budget:
            raise AnalysisBroken('too many steps')
        if k == 'DeclStmt':
            for d in n.a.get('d', ()):
                i = d.get('i')
                if i is None:
                    continue
                t = d.get('t', '')
                if 'back_insert_iterator' in t:
                    b = self.buffer(st, f, i)
                    if b is not None:
                        st = self.put(st, ('it', f.tu, d['v']), b)
                elif (d.get('ref') or '&' in t) and not t.startswith('const') and (textual(t) or clean(t) == CSF):
                    b = self.buffer(st, f, i)
                    if b is not None:
                        st = self.put(st, ('r', f.tu, d['v']), b)
                elif clean(t) == CSF and '*' not in t:
                    st = self.put(st, ('s', f.tu, d['v']), ())
                elif textual(t):
                    st = self.put(st, ('s', f.tu, d['v']), self.text(st, f, i))
            return [st]
        if k == 'CXXOperatorCallExpr' and n.op in ('+=', '=') and len(n.c) == 2 and textual(n.c[0].t):
            b = self.buffer(st, f, n.c[0])
            if b is not None:
                t = self.text(st, f, n.c[1])
                if n.op == '=':
                    return [self.put(st, b, t)]
                return [self.append(st, b, t)]
        if k == 'CXXMemberCallExpr' and n.obj is not None:
            o = strip_casts(n.obj)
            if o is not None and o.k == 'MemberExpr' and o.cls == CSF and o.n == 'stack':
                if n.n in ('push_back', 'emplace_back') and n.c:
                    return [self.append(st, st[2] or 'OUT', (('+', self.kind(st, f, n.c[0]), (f.key, n.id, st[1])),))]
                if n.n == 'pop_back':
                    return [self.append(st, st[2] or 'OUT', (('-', self.get(st, 'top', '?'), (f.key, n.id, st[1])),))]
            if o is not None and textual(o.t) and n.n in ('append', 'push_back', 'clear', 'assign', 'insert', 'pop_back', 'resize', 'erase'):
                b = self.buffer(st, f, o)
                if b is not None:
                    a = [x for x in n.c if x is not None and x.k != 'CXXDefaultArgExpr']
                    if n.n == 'clear':
                        return [self.put(st, b, ())]
                    if n.n in ('append', 'push_back') and len(a) == 1:
                        return [self.append(st, b, self.text(st, f, a[0]))]
                    if n.n == 'assign' and len(a) == 1:
                        return [self.put(st, b, self.text(st, f, a[0]))]
                    return [self.append(st, b, self.hole(st, f, n, '?'))]
        if k == 'CallExpr' and n.q in ('std::format_to', 'std::vformat_to') and len(n.c) >= 2:
            b = self.iter_target(st, f, n.c[0])
            if b is not None:
                return [self.append(st, b, self.format(st, f, n, n.c[1], n.c[2:]))]
        return None

    def kind(self, st, f, n):
        x = strip_casts(n)
        if x is not None and x.k == 'DeclRefExpr':
            if x.dk == 'enumc':
                return x.n
            b = self.get(st, ('b', f.tu, x.v)) if x.v is not None else None
            if b is not None:
                return b[1]
        return '?'

    def on_branch(self, st, cond, truth, ctx):
        f = ctx.fn
        x = strip_casts(cond)
        # the choice a conditional expression makes
        p, pol = cond, truth
        while p is not None and p.parent is not None:
            q = p.parent
            if q.k == 'ConditionalOperator' and q.c and q.c[0] is p:
                st = self.put(st, ('c', f.key, q.id), pol)
                break
            if q.k == 'UnaryOperator' and q.op == '!':
                pol = not pol
            elif not (q.k.endswith('CastExpr') or q.k == 'ParenExpr'):
                break
            p = q
        for g, y, tr, bind in implied(self.facts, f, cond, truth):
            st = self.fact(st, g, y, tr, bind)
            if st is None:
                return None
        return st

    def bound(self, st, f, x, bind):
        x = strip_casts(x)
        for _ in range(6):
            if x is None or x.k != 'DeclRefExpr':
                return None
            if x.dk == 'enumc':
                return (x.cvi(), x.n)
            if x.v is None:
                return None
            b = self.get(st, ('b', f.tu, x.v))
            if b is not None:
                return b
            nx = bind.get((f.tu, x.v))
            if nx is None:
                return None
            f, x = nx[0], strip_casts(nx[1])
            if x is not None and x.cvi() is not None and x.k != 'DeclRefExpr':
                return (x.cvi(), None)
        return None

    def fact(self, st, f, x, truth, bind):
        if x.k == 'DeclRefExpr' and x.v is not None:
            b = self.bound(st, f, x, bind)
            if b is not None and b[0] is not None and bool(b[0]) != truth:
                return None
        if x.k == 'CXXMemberCallExpr' and x.n == 'empty' and x.obj is not None and textual(x.obj.t):
            t = self.text(st, f, x.obj)
            if any(y[0] == 'L' and y[1] for y in t) and truth:
                return None
            if not t and strip_casts(x.obj).k == 'DeclRefExpr' and not truth:
                return None
        if x.k == 'BinaryOperator' and x.op in ('==', '!=') and len(x.c) == 2:
            same = (x.op == '==') == truth
            for a, b in ((x.c[0], x.c[1]), (x.c[1], x.c[0])):
                y, z = strip_casts(a), strip_casts(b)
                if y is None or z is None:
                    continue
                if y.k == 'DeclRefExpr' and y.v is not None and z.k == 'DeclRefExpr' and z.dk == 'enumc':
                    v = self.bound(st, f, y, bind)
                    if v is not None and v[1] is not None and (v[1] == z.n) != same:
                        return None
                if y.k == 'CXXMemberCallExpr' and y.n in ('back', 'top') and y.obj is not None:
                    o = strip_casts(y.obj)
                    if o is not None and o.k == 'MemberExpr' and o.n == 'stack' and o.cls == CSF:
                        if same:
                            v = self.bound(st, f, b, bind)
                            st = self.put(st, 'top', v[1] if v is not None and v[1] else '?')
                    elif o is not None and textual(o.t) and b.cvi() is not None:
                        t = [w for w in self.text(st, f, o) if w[0] in 'LV']
                        if t and t[-1][0] == 'L':
                            if (ord(t[-1][1][-1]) == b.cvi()) != same:
                                return None
                        elif t and same:
                            return None   # a formatted value does not end in a line break
        return st

    def inline(self, st, call, g, ctx):
        if g.body is None:
            return False
        if g.key in self.emitting or g.cls == CSF:
            return ctx.depth < 25
        file = g.file[g.file.rfind('src/'):] if 'src/' in g.file else g.file
        if textual(g.rt) and file not in OPAQUE and not g.externc and ctx.depth < 20:
            return True
        return any('&' in p['t'] and 'const' not in p['t'] and textual(p['t']) for p in g.params) and file not in OPAQUE and ctx.depth < 20

    def enter(self, st, call, g, ctx):
        f = ctx.fn
        chain = st[1] + ((f.key, call.id, g.key),)
        store = dict(st[0])
        store.pop('ret', None)
        args = self.o.args_of(call, g)
        for i, p in enumerate(g.params):
            a = args[i] if i < len(args) else None
            if a is None:
                continue
            if a.k == 'CXXDefaultArgExpr' and a.c:
                a = a.c[0]
            t = p['t']
            if ('&' in t and 'const' not in t and textual(t)) or clean(t).replace('const ', '') == CSF or 'back_insert_iterator' in t:
                b = self.iter_target(st, f, a)
                if b is not None:
                    store[('it' if 'back_insert' in t else 'r', g.tu, p['v'])] = b
            elif textual(t):
                store[('s', g.tu, p['v'])] = self.text(st, f, a)
            else:
                x = strip_casts(a)
                v, name = a.cvi(), None
                if v is None and x is not None:
                    v = x.cvi()
                if x is not None and x.k == 'DeclRefExpr':
                    if x.dk == 'enumc':
                        name = x.n
                    elif x.v is not None:
                        b = self.get(st, ('b', f.tu, x.v))
                        if b is not None:
                            v, name = b
                if v is not None or name is not None:
                    store[('b', g.tu, p['v'])] = (v, name)
        this = st[2]
        if call.obj is not None:
            o = strip_casts(call.obj)
            if clean(o.t).replace('const ', '').rstrip(' *') == CSF:
                this = self.buffer(st, f, o) or 'OUT'
                if this == 'OUT' and o.k == 'DeclRefExpr':
                    this = 'OUT'
            elif g.cls != CSF:
                this = st[2]
        return (frozenset(store.items()), chain, this)

    def leave(self, st0, st1, call, g, ctx):
        own = {p['v'] for p in g.params}
        keep = dict(st0[0])
        after = dict(st1[0])
        ret = after.pop('ret', None)
        top = after.pop('top', None)
        for k, v in after.items():
            if k == 'OUT' or k in keep and k[0] == 's':
                keep[k] = v
        if ret is not None:
            keep[('k', ctx.fn.key, call.id)] = ret
        return (frozenset(keep.items()), st0[1], st0[2])

    def on_return(self, st, n, ctx):
        if n.c and n.c[0] is not None and textual(ctx.fn.rt):
            return self.put(st, 'ret', self.text(st, ctx.fn, n.c[0]))
        return st

    def classify_return(self, st, val, env, ctx):
        return self.ec.classify_return(None, val, env, ctx)


def traces(facts, fn, sim=None, ex=None):
    """{(outcome, pieces)} over every path of a function"""
    sim = sim or Sim(facts)
    ex = ex or Explorer(facts, sim, cap=20000)
    init = (frozenset(), (), 'OUT' if fn.cls == CSF else None)
    out = set()
    for kind, st in ex.run(fn, init):
        out.add((kind, Sim.get(st, 'OUT', ())))
    return out


def tokens(pieces):
    """tokens of a trace: ('w', parts) words, ('[', items) arrays, ('<<', items), ('<', parts), ('(', parts), ('+'/'-', kind)"""
    root = []
    stack = [('', root)]
    word = []
    mode = None

    def flush():
        nonlocal word
        if word:
            parts, cur = [], ''
            for x in word:
                if isinstance(x, str):
                    cur += x
                else:
                    if cur:
                        parts.append(cur)
                        cur = ''
                    parts.append(x)
            if cur:
                parts.append(cur)
            stack[-1][1].append(('w', tuple(parts)))
            word = []
    buf = []
    for p in pieces:
        if p[0] == 'L':
            buf.extend(p[1])
        else:
            buf.append(p)
    i = 0
    while i < len(buf):
        c = buf[i]
        if isinstance(c, tuple):
            if c[0] in '+-':
                flush()
                stack[-1][1].append((c[0], c[1]))
            else:
                word.append(c)
        elif c in ' \n\r\t':
            flush()
        elif c == '<' and i + 1 < len(buf) and buf[i + 1] == '<':
            flush()
            x = ('<<', [])
            stack[-1][1].append(x)
            stack.append(x)
            i += 1
        elif c == '>' and i + 1 < len(buf) and buf[i + 1] == '>' and len(stack) > 1:
            flush()
            stack.pop()
            i += 1
        elif c == '[':
            flush()
            x = ('[', [])
            stack[-1][1].append(x)
            stack.append(x)
        elif c == ']' and len(stack) > 1:
            flush()
            stack.pop()
        elif c == '<' :
            flush()
            parts = []
            i += 1
            while i < len(buf) and buf[i] != '>':
                parts.append(buf[i])
                i += 1
            stack[-1][1].append(('<', tuple(parts)))
        elif c == '/' and word:
            flush()
            word.append(c)
        else:
            word.append(c)
        i += 1
    flush()
    return root, len(stack) == 1


def operators(pieces):
    """[(operator, operands)] of a trace, None for the operands left over at the end"""
    toks, closed = tokens(pieces)
    out, args = [], []
    for t in toks:
        if t[0] in '+-':
            out.append((t[0], t[1]))
            continue
        if t[0] == 'w' and len(t[1]) == 1 and isinstance(t[1][0], str) and (t[1][0][0].isalpha() or t[1][0][0] in '\'"') and \
                t[1][0] not in ('true', 'false', 'null'):
            out.append((t[1][0], tuple(args)))
            args = []
        else:
            args.append(t)
    if args or not closed:
        out.append((None, tuple(args)))
    return out
