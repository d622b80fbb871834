"""Typestate of every ObjectFormatter: what is open, whether a dictionary waits for a key or a value, and which key each
written value belongs to.  Built on flow.Explorer (path-sensitive, interprocedural)."""
import re
from .facts import CALLS, CTORS, rel
from .util import strip_casts, all_nodes, callee, path, pstr, repo_fns, lit_str
from .flow import Explorer, Client, OK, ERR, ANY
from .strvals import StrVals, HOLE

OF = 'capypdf::internal::ObjectFormatter'
ONE_VALUE = {'add_object_ref', 'add_pdfstring', 'add_bytestring', 'add_utf8_string', 'add_array'}
RECV = 'recv'


def is_of(t):
    t = (t or '').replace('const ', '').rstrip(' &*')
    return t == OF


class Event:
    __slots__ = ('fn', 'node', 'kind', 'arg', 'stack', 'key', 'how', 'chain')
    # kind: key / value / open / close / steal / move / bad

    def __init__(self, fn, node, kind, arg, stack, key, how=None, chain=()):
        self.fn, self.node, self.kind, self.arg, self.stack, self.key, self.how, self.chain = fn, node, kind, arg, stack, key, how, chain


def kidof(ev_node, arg):
    return (ev_node.fn.key, ev_node.id, arg)


class Model(Client):
    def __init__(self, facts, sv):
        self.facts = facts
        self.sv = sv
        self.events = {}
        self.keynodes = {}      # key id -> (fn, node)
        self.sites = {}
        self.chain = ()         # calls that led to the function being explored

    # ---- bookkeeping
    def get(self, st, k):
        for a, s in st:
            if a == k:
                return s
        return None

    def put(self, st, k, s):
        l = [(a, x) for a, x in st if a != k]
        if s is not None:
            l.append((k, s))
        return frozenset(l)

    def okey(self, n):
        n0 = strip_casts(n)
        if n0 is None:
            return None
        if n0.k == 'CXXThisExpr':
            return 'this'
        p = path(n0)
        return pstr(p) if p is not None else None

    def cur(self, st, k, n):
        s = self.get(st, k)
        if s is None:
            s = (('D', RECV, None),)
        return s

    def ev(self, ctx, node, kind, arg, stack, key, how=None):
        ident = (ctx.fn.key, node.id, kind, id(arg) if arg is not None else 0, stack, key, how, self.chain)
        if ident not in self.events:
            self.events[ident] = Event(ctx.fn, node, kind, arg, stack, key, how, self.chain)

    # ---- tokens
    def token(self, st, k, n, arg, ctx, cls):
        """one token; cls: 'name' (always a name), 'value' (never a name), 'any'"""
        s = self.cur(st, k, n)
        if s and s[-1][0] == 'D':
            f = s[-1]
            if f[2] is None:
                kid = (ctx.fn.key, n.id, arg.id if arg is not None else 0)
                self.keynodes[kid] = (ctx.fn, n, arg)
                self.ev(ctx, n, 'key', arg, s, kid, cls)
                return self.put(st, k, s[:-1] + (('D', f[1], kid),))
            self.ev(ctx, n, 'value', arg, s, f[2], cls)
            return self.put(st, k, s[:-1] + (('D', f[1], None),))
        self.ev(ctx, n, 'value', arg, s, None, cls)
        return st if self.get(st, k) is not None else self.put(st, k, s)

    def open(self, st, k, n, ctx, what):
        s = self.cur(st, k, n)
        if s and s[-1][0] == 'D' and s[-1][2] is None:
            self.ev(ctx, n, 'bad', None, s, None, 'a %s is opened where the dictionary needs a key' % ('dictionary' if what == 'D' else 'array'))
        sid = (ctx.fn.key, n.id)
        self.sites[sid] = (ctx.fn, n)
        self.ev(ctx, n, 'open', None, s, s[-1][2] if s and s[-1][0] == 'D' else None, what)
        return self.put(st, k, s + ((what, sid, None),))

    def close(self, st, k, n, ctx, what):
        s = self.cur(st, k, n)
        self.ev(ctx, n, 'close', None, s, None, what)
        if not s:
            self.ev(ctx, n, 'bad', None, s, None, 'more is closed than was opened')
            return None
        f = s[-1]
        if f[0] != what:
            self.ev(ctx, n, 'bad', None, s, None, 'a %s is closed while a %s is open' % (
                ('dictionary', 'array') if what == 'D' else ('array', 'dictionary')))
            return None
        if f[0] == 'D' and f[2] is not None:
            self.ev(ctx, n, 'bad', None, s, f[2], 'the dictionary is closed after a key that has no value')
        s = s[:-1]
        if s and s[-1][0] == 'D':
            s = s[:-1] + (('D', s[-1][1], None),)
        return self.put(st, k, s)

    # ---- client
    def on_node(self, st, n, ctx):
        self.chain = self.get(st, '@call') or ()
        if n.k == 'DeclStmt':
            ch = False
            for d in n.a.get('d', ()):
                if is_of(d['t']) and not d.get('ref') and not (d['t'] or '').endswith(('*', '&')):
                    ch = True
                    src = strip_casts(d['i']) if d.get('i') is not None else None
                    s = ()
                    if src is not None and src.k in CALLS:
                        s = self.get(st, '#r%d' % src.id) or ()
                    elif src is not None and src.k == 'DeclRefExpr' and self.okey(src) is not None:
                        s = self.cur(st, self.okey(src), src)
                    st = self.put(st, 'v%d' % d['v'], s)
            return [st] if ch else None
        if n.k == 'CallExpr' and n.q == 'std::move' and n.c and is_of(n.c[0].t):
            k = self.okey(n.c[0])
            if k is not None:
                s = self.cur(st, k, n)
                up = n.parent
                while up is not None and up.k in CTORS and is_of(up.t) and up.cm:
                    up = up.parent
                if up is not None and up.k in ('DeclStmt', 'ReturnStmt') or up is None:
                    return None
                self.ev(ctx, n, 'move', None, s, None)
                return [self.put(st, k, None)]
        if n.k == 'ReturnStmt':
            return None
        if n.k not in CALLS or n.obj is None and n.k != 'CXXOperatorCallExpr':
            return None
        if n.k == 'CXXOperatorCallExpr':
            if n.op == '=' and n.c and is_of(n.c[0].t):
                k = self.okey(n.c[0])
                if k is not None:
                    src = strip_casts(n.c[1])
                    s = ()
                    if src is not None and src.k in CALLS:
                        s = self.get(st, '#r%d' % src.id) or ()
                    elif src is not None and src.k == 'DeclRefExpr' and self.okey(src):
                        s = self.cur(st, self.okey(src), src)
                    return [self.put(st, k, s)]
            return None
        if not is_of(n.obj.t) and n.cls != OF:
            return None
        k = self.okey(n.obj)
        if k is None:
            self.ev(ctx, n, 'lost', None, (), None)
            return None
        m = n.n
        a = n.c
        if m == 'begin_dict':
            return [self.open(st, k, n, ctx, 'D')]
        if m == 'begin_array':
            return [self.open(st, k, n, ctx, 'A')]
        if m in ('end_dict', 'end_array'):
            r = self.close(st, k, n, ctx, 'D' if m == 'end_dict' else 'A')
            return [] if r is None else [r]
        if m == 'add_token':
            return [self.token(st, k, n, a[0], ctx, 'any')]
        if m == 'add_token_with_slash':
            return [self.token(st, k, n, a[0], ctx, 'slash')]
        if m == 'add_token_pair':
            st = self.token(st, k, n, a[0], ctx, 'any')
            return [self.token(st, k, n, a[1], ctx, 'any')]
        if m in ONE_VALUE:
            return [self.token(st, k, n, a[0], ctx, 'value')]
        if m in ('write_rectangle', 'write_box'):
            st = self.token(st, k, n, a[0], ctx, 'slash')
            return [self.token(st, k, n, a[1], ctx, 'value')]
        if m in ('write_raw_rectangle', 'write_raw_box'):
            b = strip_casts(a[1]) if len(a) > 1 and a[1] is not None else None
            v = b.cvi() if b is not None else 0
            if v:
                return [self.token(st, k, n, a[0], ctx, 'value')]
            for i in range(4):
                st = self.token(st, k, n, a[0], ctx, 'value')
            return [st]
        if m == 'steal':
            s = self.cur(st, k, n)
            self.ev(ctx, n, 'steal', None, s, None)
            return [self.put(st, k, ())]
        return None

    KNOWN = {'begin_dict', 'begin_array', 'end_dict', 'end_array', 'add_token', 'add_token_with_slash', 'add_token_pair',
             'write_rectangle', 'write_box', 'write_raw_rectangle', 'write_raw_box', 'steal', 'depth', 'current_indent'} | ONE_VALUE

    def fmt_args(self, call, fn):
        args = call.c
        if call.k == 'CXXOperatorCallExpr' and fn.cls and not fn.static:
            args = args[1:]
        for p, a in zip(fn.params, args):
            if a is not None and is_of(p['t']) and (p['t'].endswith('&') or '&' in p.get('ts', '')) and '&&' not in p.get('ts', ''):
                yield p, a

    def inline(self, st, call, fn, ctx):
        if fn.cfg is None or ctx.depth > 12:
            return False
        if fn.cls == OF:
            return fn.n not in self.KNOWN and not fn.ctor and not fn.dtor and not fn.const and fn.n not in ('operator=',)
        if any(True for _ in self.fmt_args(call, fn)):
            return True
        if is_of(fn.rt):
            return True
        if fn.is_lambda and self.touches(fn):
            return True
        return False

    def touches(self, fn):
        c = getattr(fn, '_touches_of', None)
        if c is None:
            c = any(n.k == 'CXXMemberCallExpr' and n.obj is not None and is_of(n.obj.t) for n in all_nodes(fn)) and not any(
                n.k == 'DeclStmt' and any(is_of(d['t']) for d in n.a.get('d', ())) for n in all_nodes(fn))
            fn._touches_of = c
        return c

    def enter(self, st, call, fn, ctx):
        if fn.is_lambda:
            new = st
        else:
            new = frozenset()
        new = self.put(new, '@call', (self.get(st, '@call') or ()) + ((call.fn.key, call.id, fn.key),))
        for p, a in self.fmt_args(call, fn):
            k = self.okey(a)
            if k is not None:
                new = self.put(new, 'v%d' % p['v'], self.cur(st, k, a))
        if fn.cls == OF and call.obj is not None:
            k = self.okey(call.obj)
            if k is not None:
                new = self.put(new, 'this', self.cur(st, k, call.obj))
        return new

    def leave(self, before, after, call, fn, ctx):
        st = before
        if fn.is_lambda:
            for a, s in after:
                if a != '@call' and self.get(st, a) is not None:
                    st = self.put(st, a, s)
        for p, a in self.fmt_args(call, fn):
            k = self.okey(a)
            s = self.get(after, 'v%d' % p['v'])
            if k is not None and s is not None:
                st = self.put(st, k, s)
        if fn.cls == OF and call.obj is not None:
            k = self.okey(call.obj)
            s = self.get(after, 'this')
            if k is not None and s is not None:
                st = self.put(st, k, s)
        r = self.get(after, '#ret')
        if r is not None and is_of(fn.rt):
            st = self.put(st, '#r%d' % call.id, r)
        return st

    def on_return(self, st, n, ctx):
        if is_of(ctx.fn.rt) and n.c and n.c[0] is not None:
            x = strip_casts(n.c[0])
            if x.k in CALLS:
                s = self.get(st, '#r%d' % x.id)
            else:
                k = self.okey(x)
                s = self.get(st, k) if k else None
            return frozenset([('#ret', s if s is not None else ())])
        return st

    def visit(self, st, call, ctx):
        if call.n == 'visit' and call.k == 'CallExpr' and call.c:
            from .util import lambda_fns, aliases
            l = lambda_fns(self.facts, call.c[0])
            x = strip_casts(call.c[0])
            if not l and x is not None and x.k == 'DeclRefExpr' and x.v is not None:
                for m in all_nodes(call.fn):
                    if m.k == 'DeclStmt':
                        for d in m.a.get('d', ()):
                            if d['v'] == x.v and d.get('i') is not None:
                                l = lambda_fns(self.facts, d['i'])
            l = [f for f in l if f.cfg is not None and self.touches(f)]
            if l:
                return l
        return None


def build(facts):
    m = getattr(facts, '_fmtmodel', None)
    if m is not None:
        return m
    sv = StrVals(facts)
    m = Model(facts, sv)
    m.roots = []
    ex = Explorer(facts, m)
    done = set()
    for f in sorted(repo_fns(facts), key=lambda f: (f.file, f.l)):
        if not rel(f.file).startswith('src/') or f.cls == OF or f.cfg is None or f.dep:
            continue
        own = any(n.k == 'DeclStmt' and any(is_of(d['t']) and not (d['t'] or '').endswith('*') for d in n.a.get('d', ()))
                  for n in all_nodes(f))
        byval = [p for p in f.params if is_of(p['t']) and '&' not in (p['t'] + p.get('ts', ''))]
        fieldref = any(n.k == 'CXXMemberCallExpr' and n.obj is not None and is_of(n.obj.t) and
                       strip_casts(n.obj).k == 'MemberExpr' for n in all_nodes(f))
        if not own and not byval and not fieldref:
            continue
        if is_of(f.rt):
            continue
        m.roots.append(f)
        init = frozenset(('v%d' % p['v'], (('D', RECV, None),)) for p in byval)
        m.exits = ex.run(f, init)
    m.expl = ex
    m.evs = list(m.events.values())
    facts._fmtmodel = m
    return m


TOK = re.compile(r'\s*(?:(?P<num>[+-]?(?:\d+\.?\d*|\.\d+)(?![^\s()<>\[\]{}/%]))|(?P<name>/[^\s()<>\[\]{}/%]+)|(?P<kw>true|false|null)(?![^\s()<>\[\]{}/%])|'
                 r'(?P<dopen><<)|(?P<dclose>>>)|(?P<hex><[0-9A-Fa-f\s]*>)|(?P<aopen>\[)|(?P<aclose>\])|(?P<str>\()|(?P<R>R)(?![^\s()<>\[\]{}/%]))')


def objects(s):
    """number of PDF objects in a literal text, or None when it is not a sequence of well-formed objects"""
    i = 0
    st = [[]]
    while True:
        while i < len(s) and s[i] in ' \t\r\n\f\0':
            i += 1
        if i >= len(s):
            break
        mm = TOK.match(s, i)
        if not mm:
            return None
        g = mm.lastgroup
        i = mm.end()
        if g == 'str':
            d = 1
            while i < len(s) and d:
                if s[i] == '\\':
                    i += 1
                elif s[i] == '(':
                    d += 1
                elif s[i] == ')':
                    d -= 1
                i += 1
            if d:
                return None
            st[-1].append('s')
        elif g in ('dopen', 'aopen'):
            st.append([g])
        elif g in ('dclose', 'aclose'):
            if len(st) < 2 or st[-1][0] != ('dopen' if g == 'dclose' else 'aopen'):
                return None
            body = st.pop()[1:]
            if g == 'dclose' and (len(body) % 2 or any(x != 'n' for x in body[0::2])):
                return None
            st[-1].append('c')
        elif g == 'R':
            if len(st[-1]) < 2 or st[-1][-1] != 'i' or st[-1][-2] != 'i':
                return None
            st[-1][-2:] = ['r']
        else:
            st[-1].append({'num': 'i', 'name': 'n', 'kw': 'k', 'hex': 's'}[g])
    if len(st) != 1:
        return None
    return len(st[0])
