"""What is written where: a symbolic text/number domain for code that assembles a file (client of flow.Explorer).

Texts are sequences of pieces:
  ('L', str)            literal text
  ('F', spec, value)    a formatted number
  ('O', name[, 'NL'])   unknown text (NL: known to end in a newline)
  ('B', width, value)   an integer appended as that many bytes
  ('LOOP', id)          whatever the named loop appends (its iterations are recorded in Sim.segs)
Numbers are linear forms over symbols.  Nothing is executed.
"""
from .facts import CALLS, CTORS, AnalysisBroken
from .util import strip_casts, path, pstr, canon, callee, all_nodes, aliases
from .flow import Client, is_expected

TEXTY = ('std::basic_string<char', 'std::basic_string_view<char', 'std::span<', 'std::vector<std::byte>', 'char *', 'std::string',
         'capypdf::internal::RawData', 'u8string', 'asciistring', 'std::byte *')


def base(t):
    return (t or '').replace('const ', '').replace(' &', '').strip()


def texty(t):
    t = base(t)
    return t.startswith('char[') or any(t.startswith(x) for x in TEXTY) or any(t.endswith('::' + x) for x in ('u8string', 'asciistring', 'RawData'))


def buffer_type(t):
    t = base(t)
    return t in ('std::basic_string<char>', 'std::vector<std::byte>')


INTS = {'int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short', 'char', 'signed char', 'unsigned char',
        'long long', 'unsigned long long'}
WIDTH = {'unsigned char': 1, 'signed char': 1, 'char': 1, 'unsigned short': 2, 'short': 2, 'unsigned int': 4, 'int': 4,
         'unsigned long': 8, 'long': 8, 'unsigned long long': 8, 'long long': 8}


def sym(name):
    return ('lin', ((name, 1),), 0)


def const(k):
    return ('lin', (), k)


def lin_add(a, b, sgn=1):
    d = dict(a[1])
    for s, c in b[1]:
        d[s] = d.get(s, 0) + sgn * c
    return ('lin', tuple(sorted(((s, c) for s, c in d.items() if c), key=repr)), a[2] + sgn * b[2])


def lin_mul(a, b):
    if not a[1]:
        a, b = b, a
    if b[1]:
        return None
    k = b[2]
    return ('lin', tuple((s, c * k) for s, c in a[1] if c * k), a[2] * k)


def norm(pieces):
    out = []
    for p in pieces:
        if p[0] == 'L':
            if p[1] == '':
                continue
            if out and out[-1][0] == 'L':
                out[-1] = ('L', out[-1][1] + p[1])
                continue
        out.append(p)
    return tuple(out)


def loops_of(fn):
    """loop heads -> blocks of the natural loop"""
    c = getattr(fn, '_loops', None)
    if c is not None:
        return c
    cfg = fn.cfg
    heads = {}
    color = {}
    st = [(cfg.entry, iter([x for x in cfg.blocks[cfg.entry].succs if x >= 0]))]
    color[cfg.entry] = 1
    backs = []
    while st:
        b, it = st[-1]
        for s in it:
            if s not in color:
                color[s] = 1
                st.append((s, iter([x for x in cfg.blocks[s].succs if x >= 0])))
                break
            if color[s] == 1:
                backs.append((b, s))
        else:
            color[b] = 2
            st.pop()
    preds = {}
    for i, b in cfg.blocks.items():
        for s in b.succs:
            if s >= 0:
                preds.setdefault(s, set()).add(i)
    for b, h in backs:
        body = heads.setdefault(h, {h})
        w = [b]
        while w:
            x = w.pop()
            if x in body:
                continue
            body.add(x)
            w.extend(preds.get(x, ()))
    fn._loops = heads
    return heads


class Sim(Client):
    """env: frozenset of (key, value)"""

    def __init__(self, facts, inline_pred, vec_is=lambda n: None):
        self.facts = facts
        self.inline_pred = inline_pred
        self.vec_is = vec_is          # node -> symbolic name of a special container
        self.segs = {}                # (loop id, key) -> set of (pieces, conds, deltas)
        self.inits = {}               # (loop id, key) -> set of initial values
        self.flog = {}                # (kind, loop id) -> set of event logs
        self.loopfn = {}
        self.loopcond = {}
        self.nodes = {}

    # -- state
    @staticmethod
    def get(st, k):
        for a, v in st:
            if a == k:
                return v
        return None

    @staticmethod
    def put(st, k, v):
        l = [(a, b) for a, b in st if a != k]
        if v is not None:
            l.append((k, v))
        return frozenset(l)

    def key(self, st, n):
        p = path(n)
        if p is None:
            return None
        p = tuple(x for x in p if x != '*')
        if p and isinstance(p[0], tuple) and p[0][0] == 'v':
            r = self.get(st, 'v%d' % p[0][1])
            if r is not None and r[0] == 'ref':
                return '.'.join([r[1]] + [x for x in p[1:]])
        return pstr(p)

    # -- evaluation
    def eval(self, st, n, depth=0):
        if n is not None and n.cv is not None and base(n.t) in INTS:
            return const(n.cvi())
        n = strip_casts(n)
        if n is None or depth > 25:
            return None
        r = self.get(st, '#%d' % n.id) if n.k in CALLS or n.k in CTORS else None
        if r is not None:
            return r
        if n.k == 'StringLiteral':
            return ('txt', norm((('L', n.s or ''),)))
        if n.k in ('CXXDefaultArgExpr',) and n.c:
            return self.eval(st, n.c[0], depth + 1)
        c = n.cvi()
        if c is not None and base(n.t) == 'bool':
            return ('bool', bool(c))
        if c is not None:
            return const(c)
        v = self.vec_is(n)
        if v is not None:
            return ('vec', v)
        if n.k == 'DeclRefExpr' and n.v is not None:
            r = self.get(st, 'v%d' % n.v)
            if r is not None and r[0] in ('elem', 'fld', 'vec'):
                return r
        if n.k == 'CXXOperatorCallExpr' and n.op == '*' and len(n.c) == 1:
            a = self.eval(st, n.c[0], depth + 1)
            if a is not None and a[0] == 'iter':
                return ('elem', a[1], ('it', a[2]))
        k = self.key(st, n)
        if k is not None:
            r = self.get(st, k)
            if r is not None:
                if r[0] == 'ref':
                    return self.get(st, r[1]) or self.unknown(n, r[1])
                return r
            # field of something symbolic
            if n.k == 'MemberExpr' and n.c:
                b = self.eval(st, n.c[0], depth + 1)
                if b is not None and b[0] == 'iter':
                    b = ('elem', b[1], ('it', b[2]))
                if b is not None and b[0] == 'elem':
                    return ('fld', b, n.n)
        if n.k == 'MemberExpr' and n.c and k is None:
            b = self.eval(st, n.c[0], depth + 1)
            if b is not None and b[0] == 'iter':
                b = ('elem', b[1], ('it', b[2]))
            if b is not None and b[0] == 'elem':
                return ('fld', b, n.n)
        if n.k == 'UnaryOperator' and n.op == '-':
            a = self.eval(st, n.c[0], depth + 1)
            if a is not None and a[0] == 'lin':
                return lin_mul(a, const(-1))
        if n.k == 'UnaryOperator' and n.op == '!':
            a = self.eval(st, n.c[0], depth + 1)
            if a is not None and a[0] == 'bool':
                return ('bool', not a[1])
        if n.k == 'BinaryOperator' and n.op in ('+', '-', '*'):
            a, b = self.num(st, n.c[0], depth + 1), self.num(st, n.c[1], depth + 1)
            if a is not None and b is not None:
                if n.op == '+':
                    return lin_add(a, b)
                if n.op == '-':
                    return lin_add(a, b, -1)
                return lin_mul(a, b)
            return None
        if n.k == 'CXXOperatorCallExpr' and n.op == '+' and texty(n.t):
            a, b = self.text(st, n.c[0], depth + 1), self.text(st, n.c[1], depth + 1)
            return ('txt', norm(a + b))
        if n.k == 'CallExpr' and n.n == 'format' and (n.q or '').startswith('std::'):
            return ('txt', self.fmt(st, n.c, depth))
        if n.k == 'CallExpr' and n.n == 'back_inserter' and n.c:
            kk = self.key(st, n.c[0])
            return ('ins', kk)
        if n.k == 'CallExpr' and n.n == 'ftell':
            return ('pos', n.id)
        if n.k == 'CallExpr' and n.n in ('strlen', 'size', 'ssize') and n.c:
            a = self.eval(st, n.c[0], depth + 1)
            if a is not None and a[0] == 'txt':
                return ('len', a[1])
        if n.k == 'CallExpr' and texty(n.t) and len(n.c) == 1 and texty(n.c[0].t) and n.n in ('span2sv', 'str2span'):
            return self.eval(st, n.c[0], depth + 1)
        if n.k in ('CXXMemberCallExpr',) and n.obj is not None:
            if n.n in ('size', 'length'):
                a = self.eval(st, n.obj, depth + 1)
                if a is not None and a[0] == 'vec':
                    return sym(('size', a[1]))
                if a is not None and a[0] == 'txt':
                    return ('len', a[1])
                if k is None and self.key(st, n.obj):
                    return sym(('size', self.key(st, n.obj)))
            if n.n in ('data', 'c_str', 'sv', 'span', 'view', 'value', 'operator*') or (n.n or '').startswith('operator '):
                a = self.eval(st, n.obj, depth + 1)
                if a is not None:
                    return a
            if n.n in ('at',) and n.c:
                a = self.eval(st, n.obj, depth + 1)
                if a is not None and a[0] == 'vec':
                    return ('elem', a[1], self.eval(st, n.c[0], depth + 1))
            if n.n == 'back':
                a = self.eval(st, n.obj, depth + 1)
                if a is not None and a[0] == 'txt':
                    return ('lastch', a[1])
        if n.k == 'CXXOperatorCallExpr' and n.op == '[]':
            a = self.eval(st, n.c[0], depth + 1)
            if a is not None and a[0] == 'vec':
                return ('elem', a[1], self.eval(st, n.c[1], depth + 1))
        if n.k == 'CXXOperatorCallExpr' and n.op == '*' and len(n.c) == 1:
            a = self.eval(st, n.c[0], depth + 1)
            if a is not None and a[0] == 'iter':
                return ('elem', a[1], ('it', a[2]))
            if a is not None:
                return a
        if n.k == 'CXXMemberCallExpr' and n.n in ('begin', 'cbegin') and n.obj is not None:
            a = self.eval(st, n.obj, depth + 1)
            if a is not None and a[0] == 'vec':
                return ('iter', a[1], n.id)
        if n.k in CTORS or n.k == 'InitListExpr':
            args = [x for x in n.c if x is not None and x.k != 'CXXDefaultArgExpr']
            if texty(n.t):
                if not args:
                    return ('txt', ())
                if len(args) == 1 and (texty(args[0].t) or args[0].k in CTORS):
                    return self.eval(st, args[0], depth + 1)
                if len(args) == 2 and base(args[1].t) in INTS:
                    a = self.eval(st, args[0], depth + 1)
                    b = self.eval(st, args[1], depth + 1)
                    if a is not None and a[0] == 'txt' and b == ('len', a[1]):
                        return a
            elif len(args) == 1:
                return self.eval(st, args[0], depth + 1)
        if n.k == 'BinaryOperator' and n.op in ('<', '>', '<=', '>=', '==', '!='):
            return ('cmp', n.op, self.eval(st, n.c[0], depth + 1), self.eval(st, n.c[1], depth + 1))
        return self.unknown(n, k)

    def unknown(self, n, k=None):
        t = base(n.t)
        if texty(n.t) or (is_expected(n.t) and any(x in n.t for x in ('std::vector<std::byte>', 'std::basic_string<char>'))):
            if n.k == 'CXXMemberCallExpr' and n.n == 'steal':
                return ('txt', (('O', 'dict'),))
            nm = k or canon(n)
            if nm is None:
                nm = '@%s' % (n.n or n.k) + ':%d' % n.id
            self.nodes[nm] = n
            return ('txt', (('O', nm),))
        if t in INTS:
            nm = k or canon(n)
            if nm is None:
                nm = '@%s' % (n.n or n.k) + ':%d' % n.id
            elif '[]' in nm:
                nm += ' in %s:%d' % (n.fn.n, n.id)
            self.nodes[nm] = n
            return sym(nm)
        return None

    def num(self, st, n, depth=0):
        v = self.eval(st, n, depth)
        if v is not None and v[0] == 'lin':
            return v
        if v is not None and v[0] in ('len', 'pos', 'fld'):
            return sym(v)
        return None

    def text(self, st, n, depth=0):
        v = self.eval(st, n, depth)
        if v is not None and v[0] == 'txt':
            return v[1]
        if base(n.t) == 'char':
            if v is not None and v[0] == 'lin' and not v[1]:
                return (('L', chr(v[2] & 255)),)
            return (('O', 'char'),)
        return (('O', '?%d' % n.id),)

    def fmt(self, st, args, depth=0):
        import re
        f = self.text(st, args[0], depth + 1)
        if len(f) > 1 or (f and f[0][0] != 'L'):
            return (('O', '?fmt'),)
        s = f[0][1] if f else ''
        out = []
        i = 1
        for part in re.split(r'(\{\{|\}\}|\{[^{}]*\})', s):
            if part == '{{' or part == '}}':
                out.append(('L', part[0]))
            elif part.startswith('{') and part.endswith('}'):
                a = args[i] if i < len(args) else None
                i += 1
                if a is None:
                    out.append(('O', '?arg'))
                    continue
                v = self.eval(st, a, depth + 1)
                if v is not None and v[0] == 'txt' and part == '{}':
                    out.extend(v[1])
                else:
                    out.append(('F', part, v))
            else:
                out.append(('L', part))
        return norm(out)

    # -- effects
    def setv(self, st, k, v):
        if k is None:
            return st
        # fields below the key are forgotten
        l = [(a, b) for a, b in st if not (a == k or a.startswith(k + '.'))]
        if v is not None:
            l.append((k, v))
        return frozenset(l)

    def append(self, st, k, pieces):
        if k is None:
            return st
        old = self.get(st, k)
        o = old[1] if old is not None and old[0] == 'txt' else (('O', 'init ' + k),)
        return self.setv(st, k, ('txt', norm(o + pieces)))

    def log(self, st, ev):
        return self.put(st, '@log', (self.get(st, '@log') or ()) + (ev,))

    def on_node(self, st, n, ctx):
        if n.k == 'DeclStmt':
            for d in n.a.get('d', ()):
                if d.get('bind'):
                    continue
                k = 'v%d' % d['v']
                if d.get('i') is None:
                    st = self.setv(st, k, ('txt', ()) if buffer_type(d['t']) else None)
                    continue
                if d.get('ref'):
                    # path() resolves references; only elements need a value
                    v = self.eval(st, d['i'])
                    if v is not None and v[0] in ('elem', 'fld', 'vec'):
                        st = self.setv(st, k, v)
                    elif path(d['i']) is None:
                        st = self.setv(st, k, v)
                    continue
                st = self.setv(st, k, self.eval(st, d['i']))
            return [st]
        if n.k in ('BinaryOperator', 'CompoundAssignOperator') and n.op in ('=', '+=', '-='):
            k = self.key(st, n.c[0])
            if k is not None:
                if n.op == '=':
                    return [self.setv(st, k, self.eval(st, n.c[1]))]
                a, b = self.num(st, n.c[0]), self.num(st, n.c[1])
                return [self.setv(st, k, lin_add(a, b, 1 if n.op == '+=' else -1) if a and b else None)]
        if n.k == 'UnaryOperator' and n.op in ('++', '--'):
            k = self.key(st, n.c[0])
            a = self.num(st, n.c[0])
            if k is not None:
                return [self.setv(st, k, lin_add(a, const(1 if n.op == '++' else -1)) if a else None)]
        if n.k == 'CXXOperatorCallExpr' and n.op in ('=', '+=') and len(n.c) == 2:
            if texty(n.c[0].t):
                k = self.key(st, n.c[0])
                if n.op == '=':
                    return [self.setv(st, k, self.eval(st, n.c[1]))]
                return [self.append(st, k, self.text(st, n.c[1]))]
        if n.k == 'CXXMemberCallExpr' and n.obj is not None:
            r = self.member(st, n, ctx)
            if r is not None:
                return [r]
        if n.k == 'CallExpr' and n.n == 'format_to' and n.c:
            a = self.eval(st, n.c[0])
            if a is not None and a[0] == 'ins':
                return [self.append(st, a[1], self.fmt(st, n.c[1:]))]
        if n.k == 'CallExpr':
            return self.call(st, n, ctx)
        return None

    def member(self, st, n, ctx):
        if not buffer_type(n.obj.t):
            return None
        k = self.key(st, n.obj)
        if n.n == 'append' and len(n.c) == 1:
            return self.append(st, k, self.text(st, n.c[0]))
        if n.n == 'push_back' and len(n.c) == 1:
            return self.append(st, k, self.text(st, n.c[0]))
        if n.n == 'clear':
            return self.setv(st, k, ('txt', ()))
        if n.n == 'insert' and len(n.c) == 3:
            e = strip_casts(n.c[0])
            b = strip_casts(n.c[1])
            if e is not None and e.n in ('end', 'cend') and b is not None and b.n in ('begin', 'cbegin', 'data') and b.obj is not None:
                return self.append(st, k, self.text(st, b.obj))
            return self.append(st, k, (('O', '?ins%d' % n.id),))
        if n.n in ('reserve', 'shrink_to_fit', 'capacity') or n.cst or n.n in ('begin', 'end', 'data', 'back', 'front', 'at'):
            return None
        return self.setv(st, k, ('txt', (('O', '?%s%d' % (n.n, n.id)),)))

    def call(self, st, n, ctx):
        # an integer appended to a byte vector
        g = callee(self.facts, n)
        if g is not None and len(n.c) == 2 and n.c[0] is not None and base(n.c[0].t) == 'std::vector<std::byte>' and len(g.params) == 2 \
                and '&' in g.params[0]['t'] and 'const' not in g.params[0]['t'] and base(g.params[1]['t']) in WIDTH:
            return [self.append(st, self.key(st, n.c[0]), (('B', WIDTH[base(g.params[1]['t'])], self.eval(st, n.c[1]), g.key),))]
        if n.n == 'ftell':
            return [self.log(st, ('T', n.id))]
        if g is None or g.cfg is None:
            return None
        # not followed: buffers passed by reference are no longer known
        s = st
        for p, a in zip(g.params, n.c):
            if a is not None and p['t'].endswith('&') and 'const ' not in p['t'] and '&&' not in p.get('ts', '') and buffer_type(p['t']):
                s = self.setv(s, self.key(st, a), ('txt', (('O', '?by %s:%d' % (g.n, n.id)),)))
        return [s]

    # -- calls
    def inline(self, st, call, fn, ctx):
        return fn.cfg is not None and ctx.depth < 20 and self.inline_pred(fn)

    def enter(self, st, call, fn, ctx):
        args = list(call.c)
        if call.k == 'CXXOperatorCallExpr' and fn.cls and not fn.static:
            args = args[1:]
        if call.k == 'CallExpr' and call.n == 'visit':
            args = args[1:]
            new = st
            for p in fn.params:
                new = self.setv(new, 'v%d' % p['v'], None)
            return new
        new = st
        for i, p in enumerate(fn.params):
            k = 'v%d' % p['v']
            a = args[i] if i < len(args) else None
            if a is None:
                new = self.setv(new, k, None)
                continue
            isref = p['t'].endswith('&')
            if isref:
                kk = self.key(st, a)
                v = self.eval(st, a)
                if v is not None and v[0] in ('elem', 'vec', 'fld'):
                    new = self.setv(new, k, v)
                elif kk is not None:
                    new = self.setv(new, k, ('ref', kk))
                else:
                    new = self.setv(new, k, v)
            else:
                new = self.setv(new, k, self.eval(st, a))
        return self.put(new, '@ret', None)

    def locals(self, fn):
        c = getattr(fn, '_localvars', None)
        if c is None:
            c = {'v%d' % p['v'] for p in fn.params}
            for n in all_nodes(fn):
                if n.k == 'DeclStmt':
                    c |= {'v%d' % d['v'] for d in n.a.get('d', ())}
            fn._localvars = c
        return c

    def leave(self, before, after, call, fn, ctx):
        loc = self.locals(fn)
        ret = self.get(after, '@ret')
        own = {'#%d' % x.id for x in all_nodes(fn) if x.k in CALLS or x.k in CTORS} if not hasattr(fn, '_calltemps') else fn._calltemps
        fn._calltemps = own
        st = frozenset((a, v) for a, v in after if a.split('.')[0] not in loc and a != '@ret' and a not in own)
        if ret is not None:
            st = self.put(st, '#%d' % call.id, ret)
        return st

    def on_return(self, st, n, ctx):
        if n.c and n.c[0] is not None:
            v = self.eval(st, n.c[0])
            if v is not None:
                return self.put(st, '@ret', v)
        return st

    def visit(self, st, call, ctx):
        if call.n == 'visit' and call.k == 'CallExpr' and call.c:
            from .util import lambda_fns
            l = lambda_fns(self.facts, call.c[0])
            x = strip_casts(call.c[0])
            if not l and x is not None and x.k == 'DeclRefExpr' and x.v is not None:
                for m in all_nodes(call.fn):
                    if m.k == 'DeclStmt':
                        for d in m.a.get('d', ()):
                            if d['v'] == x.v and d.get('i') is not None:
                                l = lambda_fns(self.facts, d['i'])
            l = [f for f in l if f.cfg is not None]
            if l:
                return l
        return None

    # -- branches and loops
    def on_branch(self, st, cond, truth, ctx):
        v = self.eval(st, cond)
        if v is not None and v[0] == 'bool':
            return st if v[1] == truth else None
        c = strip_casts(cond)
        if c is not None and c.k == 'CXXMemberCallExpr' and c.n == 'empty' and c.obj is not None:
            t = self.eval(st, c.obj)
            if t is not None and t[0] == 'txt':
                if any(p[0] in 'LFB' for p in t[1]):
                    return None if truth else st
                if not t[1]:
                    return st if truth else None
                if len(t[1]) == 1 and t[1][0][0] == 'O' and (base(c.obj.t).startswith('std::span') or base(c.obj.t) == 'std::vector<std::byte>'):
                    return self.put(st, '@empty:' + t[1][0][1], truth)
        if v is not None and v[0] == 'cmp':
            op, a, b = v[1], v[2], v[3]
            for x, y in ((a, b), (b, a)):
                if x is not None and x[0] == 'lastch' and y == const(10) and op in ('==', '!='):
                    isnl = truth == (op == '==')
                    last = x[1][-1] if x[1] else None
                    if last is None:
                        return st
                    if last[0] == 'L':
                        return st if (last[1][-1] == '\n') == isnl else None
                    if last[0] == 'O' and isnl:
                        # every buffer ending in this text now ends in a newline
                        l = []
                        for k, w in st:
                            if w is not None and isinstance(w, tuple) and w and w[0] == 'txt' and w[1] == x[1]:
                                w = ('txt', w[1][:-1] + (('O', last[1], 'NL'),))
                            l.append((k, w))
                        return frozenset(l)
                    return st
            if self.interesting(a) or self.interesting(b):
                st = self.put(st, '@conds', (self.get(st, '@conds') or ()) + ((v, truth),))
        elif v is not None and self.interesting(v):
            st = self.put(st, '@conds', (self.get(st, '@conds') or ()) + ((v, truth),))
        return self.extra_branch(st, c, truth, ctx)

    def extra_branch(self, st, c, truth, ctx):
        return st

    def interesting(self, v):
        return v is not None and v[0] in ('fld',)

    def on_edge(self, st, frm, to, ctx):
        fn = ctx.fn
        loops = loops_of(fn)
        if not loops:
            return st
        if to in loops:
            lid = (fn.key, to)
            self.loopfn[lid] = fn
            hb = fn.cfg.blocks[to]
            if hb.cond is not None:
                self.loopcond[lid] = hb.cond
            body = loops[to]
            if frm not in body:
                return self.enter_loop(st, fn, lid, body)
            return self.back_edge(st, fn, lid, body)
        return st

    def mutated(self, st, fn, body):
        """keys of buffers and numbers changed in the loop"""
        bufs, nums = set(), set()
        for b in body:
            for e in fn.cfg.blocks[b].e:
                if isinstance(e, tuple):
                    continue
                n = e
                if n.k == 'CXXOperatorCallExpr' and n.op in ('=', '+=') and len(n.c) == 2 and buffer_type(n.c[0].t):
                    bufs.add(self.key(st, n.c[0]))
                elif n.k == 'CXXMemberCallExpr' and n.obj is not None and buffer_type(n.obj.t) and not n.cst and \
                        n.n not in ('begin', 'end', 'data', 'back', 'front', 'at', 'reserve') and not (n.n or '').startswith('operator '):
                    bufs.add(self.key(st, n.obj))
                elif n.k == 'CallExpr' and n.n == 'format_to' and n.c:
                    a = self.eval(st, n.c[0])
                    if a is not None and a[0] == 'ins':
                        bufs.add(a[1])
                elif n.k in ('BinaryOperator', 'CompoundAssignOperator') and n.op in ('=', '+=', '-=') and base(n.c[0].t) in INTS:
                    nums.add(self.key(st, n.c[0]))
                elif n.k == 'UnaryOperator' and n.op in ('++', '--') and base(n.c[0].t) in INTS:
                    nums.add(self.key(st, n.c[0]))
                if n.k in CALLS:
                    g = callee(self.facts, n)
                    args = n.c
                    if g is not None and n.k == 'CXXOperatorCallExpr' and g.cls and not g.static:
                        args = args[1:]
                    if g is not None:
                        for p, a in zip(g.params, args):
                            if a is None or not p['t'].endswith('&') or 'const ' in p['t']:
                                continue
                            if buffer_type(p['t']):
                                bufs.add(self.key(st, a))
                            elif base(p['t']) in INTS:
                                nums.add(self.key(st, a))
                            elif 'back_insert_iterator' in p['t']:
                                w = self.eval(st, a)
                                if w is not None and w[0] == 'ins':
                                    bufs.add(w[1])
                        for p, a in zip(g.params, args):
                            if a is not None and 'back_insert_iterator' in p['t'] and not p['t'].endswith('&'):
                                w = self.eval(st, a)
                                if w is not None and w[0] == 'ins':
                                    bufs.add(w[1])
                        if g.is_lambda:
                            for m in all_nodes(g):
                                if m.k == 'CXXOperatorCallExpr' and m.op in ('=', '+=') and len(m.c) == 2 and buffer_type(m.c[0].t):
                                    bufs.add(self.key(st, m.c[0]))
                                elif m.k == 'UnaryOperator' and m.op in ('++', '--') and base(m.c[0].t) in INTS:
                                    nums.add(self.key(st, m.c[0]))
                                elif m.k == 'CallExpr' and m.n == 'format_to' and m.c:
                                    w = self.eval(st, m.c[0])
                                    if w is not None and w[0] == 'ins':
                                        bufs.add(w[1])
        # only what lives outside the loop
        inner = set()
        for b in body:
            for e in fn.cfg.blocks[b].e:
                if not isinstance(e, tuple) and e.k == 'DeclStmt':
                    inner |= {'v%d' % d['v'] for d in e.a.get('d', ())}
        return {k for k in bufs if k and k.split('.')[0] not in inner}, {k for k in nums if k and k.split('.')[0] not in inner}

    def events_in(self, fn, body):
        key = (fn.key, min(body))
        c = getattr(self, '_evin', None)
        if c is None:
            c = self._evin = {}
        if key not in c:
            r = False
            for b in body:
                for e in fn.cfg.blocks[b].e:
                    if isinstance(e, tuple) or e.k not in CALLS:
                        continue
                    g = callee(self.facts, e)
                    if e.n in ('fwrite', 'ftell', 'visit') or (g is not None and self.inline_pred(g)) or self.is_event(e):
                        r = True
            c[key] = r
        return c[key]

    def is_event(self, n):
        return False

    def enter_loop(self, st, fn, lid, body):
        bufs, nums = self.mutated(st, fn, body)
        for k in sorted(bufs):
            v = self.get(st, k)
            o = v[1] if v is not None and v[0] == 'txt' else (('O', 'init ' + k),)
            st = self.setv(st, k, ('txt', o + (('LOOP', lid),)))
        for k in sorted(nums):
            v = self.get(st, k)
            self.inits.setdefault((lid, k), set()).add(v)
            st = self.setv(st, k, sym(('ctr', lid, k)))
        if self.events_in(fn, body):
            l = self.get(st, '@log') or ()
            self.flog.setdefault(('pre', lid), set()).add(l)
            st = self.put(st, '@log', None)
        return self.put(st, '@conds', None)

    def back_edge(self, st, fn, lid, body):
        conds = self.get(st, '@conds') or ()
        deltas = []
        news = []
        upd = []
        for k, v in st:
            if not isinstance(v, tuple) or not v:
                continue
            if v[0] == 'txt' and ('LOOP', lid) in v[1]:
                i = v[1].index(('LOOP', lid))
                news.append((k, v[1][i + 1:]))
                upd.append((k, ('txt', v[1][:i + 1])))
            elif (lid, k) in self.inits:
                c = ('ctr', lid, k)
                d = lin_add(v, sym(c), -1) if v[0] == 'lin' else None
                deltas.append((k, d))
                upd.append((k, sym(c)))
        # a counter assigned something unknown has no entry
        for (l2, k) in self.inits:
            if l2 == lid and self.get(st, k) is None:
                deltas.append((k, None))
        deltas = tuple(sorted(deltas, key=repr))
        for k, v in upd:
            st = self.setv(st, k, v)
        for k, pieces in news:
            self.segs.setdefault((lid, k), set()).add((pieces, conds, deltas))
        self.segs.setdefault((lid, None), set()).add(((), conds, deltas))
        if self.events_in(fn, body):
            l = self.get(st, '@log') or ()
            self.flog.setdefault(('iter', lid), set()).add(l)
            st = self.put(st, '@log', None)
        return self.put(st, '@conds', None)


def show(v):
    if v is None:
        return '?'
    if v[0] == 'txt':
        return ''.join(show(p) for p in v[1])
    if v[0] == 'L':
        return v[1].replace('\n', '\\n')
    if v[0] == 'F':
        return '<%s %s>' % (v[1], show(v[2]))
    if v[0] == 'O':
        return '<%s>' % v[1]
    if v[0] == 'B':
        return '<%d bytes %s>' % (v[1], show(v[2]))
    if v[0] == 'LOOP':
        return '<...>'
    if v[0] == 'lin':
        s = ' + '.join(('%s' if c == 1 else '%d*%%s' % c) % (x if isinstance(x, str) else show(x)) for x, c in v[1])
        return (s + (' + %d' % v[2] if v[2] > 0 and s else ' - %d' % -v[2] if v[2] < 0 and s else '' if s else '%d' % v[2]))
    if v[0] == 'size':
        return 'size(%s)' % (v[1],)
    if v[0] == 'len':
        return 'len(%s)' % ''.join(show(p) for p in v[1])
    if v[0] == 'pos':
        return 'file position @%d' % v[1]
    if v[0] == 'ctr':
        return 'counter'
    if v[0] == 'elem':
        return '%s[%s]' % (v[1], show(v[2]) if v[2] and v[2][0] == 'lin' else '*')
    if v[0] == 'fld':
        return '%s.%s' % (show(v[1]), v[2])
    return str(v)
