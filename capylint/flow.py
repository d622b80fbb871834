"""Disjunctive (path-sensitive) dataflow over clang's CFG with memoised function summaries.

A client supplies a finite-state abstraction; the explorer carries sets of abstract states through
every CFG path, correlates repeated tests of the same side-effect-free condition, follows resolved
calls through summaries, and reports how each function can leave (success / error / other).
"""
from .facts import CALLS, CTORS, AnalysisBroken
from .util import strip_casts, callee, canon, path, pstr, branch_cond, split_not, aliases, lambda_fns

OK, ERR, ANY = 'ok', 'err', 'any'


def is_expected(t):
    return t is not None and t.replace('const ', '').startswith('std::expected<')


def is_unexpected(t):
    return t is not None and t.replace('const ', '').startswith('std::unexpected<')


class Client:
    max_depth = 30

    def on_node(self, st, n, ctx):
        """-> iterable of states after evaluating node n (None: unchanged)"""
        return None

    def on_branch(self, st, cond, truth, ctx):
        """-> state or None when infeasible"""
        return st

    def on_return(self, st, n, ctx):
        return st

    def inline(self, st, call, fn, ctx):
        """follow this call?"""
        return False

    def enter(self, st, call, fn, ctx):
        return st

    def leave(self, st_before, st_after, call, fn, ctx):
        return st_after

    def visit(self, st, call, ctx):
        """std::visit and friends: the lambdas to choose from, or None"""
        return None

    def on_dtor(self, st, vid, ctx):
        return st

    def on_edge_leaving_throw(self, st, n, ctx):
        pass


class Ctx:
    __slots__ = ('fn', 'expl', 'depth', 'stack', 'bind', 'block')


class Explorer:
    def __init__(self, facts, client, cap=4000):
        self.facts = facts
        self.client = client
        self.memo = {}
        self.inprog = {}
        self.cap = cap
        self.blocks_visited = 0
        self.fns_visited = set()

    # -- facts about conditions
    def interesting(self, fn):
        """canonical conditions tested more than once"""
        cached = getattr(fn, '_interesting', None)
        if cached is not None:
            return cached
        cnt = {}
        deps = {}
        if fn.cfg:
            for b in fn.cfg.blocks.values():
                if len(b.succs) == 2 and b.cond is not None and b.tk != 'SwitchStmt':
                    c, pol = split_not(branch_cond(b))
                    t = canon(c)
                    if t is not None:
                        cnt[t] = cnt.get(t, 0) + 1
        res = {t for t, k in cnt.items() if k > 1}
        fn._interesting = res
        return res

    def run(self, fn, init, stack=()):
        key = (fn.key, init)
        if key in self.memo:
            return self.memo[key]
        if key in self.inprog:
            self.inprog[key] = True
            return self.memo.get(('partial', key), frozenset())
        self.inprog[key] = False
        prev = None
        while True:
            res = self._run(fn, init, stack)
            if not self.inprog[key] or res == prev:
                break
            prev = res
            self.memo[('partial', key)] = res
            self.inprog[key] = False
        del self.inprog[key]
        self.memo[key] = res
        return res

    def _run(self, fn, init, stack):
        if fn.cfg is None:
            return frozenset({(ANY, init)})
        self.fns_visited.add(fn.key)
        ctx = Ctx()
        ctx.fn = fn
        ctx.expl = self
        ctx.stack = stack + (fn,)
        ctx.depth = len(ctx.stack)
        if ctx.depth > 60:
            raise AnalysisBroken('call depth exceeded at ' + fn.q)
        cfg = fn.cfg
        inter = self.interesting(fn)
        seen = {b: set() for b in cfg.blocks}
        work = [(cfg.entry, init, frozenset())]
        seen[cfg.entry].add((init, frozenset()))
        exits = set()
        while work:
            bi, st, env = work.pop()
            b = cfg.blocks[bi]
            self.blocks_visited += 1
            cur = [(st, env, None)]
            for e in b.e:
                nxt = []
                for (s, en, rk) in cur:
                    nxt.extend(self._elem(fn, s, en, rk, e, ctx, inter))
                # dedupe
                cur = list(dict.fromkeys(nxt))
                if not cur:
                    break
                if len(cur) > self.cap:
                    raise AnalysisBroken('too many states in ' + fn.q)
            for (s, en, rk) in cur:
                if bi == cfg.exit:
                    exits.add((OK if rk is None else rk, s))
                    continue
                if b.nr:
                    continue
                ctx.block = b
                on_edge = getattr(self.client, 'on_edge', None)
                for (idx, su) in enumerate(b.succs):
                    if su < 0:
                        continue
                    s2, en2 = s, en
                    if en2 and rk is None:
                        en2 = frozenset(x for x in en2 if not x[0].startswith('#'))
                    if len(b.succs) == 2 and b.cond is not None and b.tk not in ('SwitchStmt',):
                        c, pol = split_not(branch_cond(b))
                        truth = (idx == 0) == pol
                        t = canon(c)
                        if t is not None:
                            d = dict(en2)
                            if t in d:
                                if d[t] != truth:
                                    continue
                            elif t in inter or t.startswith('ok('):
                                d[t] = truth
                                en2 = frozenset(d.items())
                        s2 = self.client.on_branch(s, c, truth, ctx)
                        if s2 is None:
                            continue
                    elif b.tk == 'SwitchStmt':
                        r = getattr(self.client, 'on_switch', None)
                        if r is not None:
                            s2 = r(s, b, idx, cfg.blocks[su], ctx)
                            if s2 is None:
                                continue
                    if on_edge is not None:
                        s2 = on_edge(s2, b.i, su, ctx)
                        if s2 is None:
                            continue
                    if su == cfg.exit:
                        kind = rk if rk is not None else (OK if fn.rt == 'void' or fn.ctor or fn.dtor else ANY)
                        exits.add((kind, s2))
                        continue
                    k2 = (s2, en2)
                    if rk is not None:
                        # returned, destructors still to run
                        k2 = (s2, en2, rk)
                        if k2 not in seen[su]:
                            seen[su].add(k2)
                            for x in self._finish(fn, su, s2, rk, ctx):
                                exits.add(x)
                        continue
                    if k2 not in seen[su]:
                        if len(seen[su]) > self.cap:
                            raise AnalysisBroken('too many states in ' + fn.q)
                        seen[su].add(k2)
                        work.append((su, s2, en2))
        return frozenset(exits)

    def _finish(self, fn, bi, st, rk, ctx):
        """after a return statement: run remaining (destructor) blocks"""
        cfg = fn.cfg
        out = []
        st_list = [(bi, st)]
        while st_list:
            bi, s = st_list.pop()
            if bi == cfg.exit:
                out.append((rk, s))
                continue
            b = cfg.blocks[bi]
            for e in b.e:
                if isinstance(e, tuple) and e[0] == 'dtor':
                    s = self.client.on_dtor(s, e[1], ctx)
            for su in b.succs:
                if su >= 0:
                    st_list.append((su, s))
        return out

    def _elem(self, fn, s, en, rk, e, ctx, inter):
        cl = self.client
        if isinstance(e, tuple):
            if e[0] == 'dtor':
                return [(cl.on_dtor(s, e[1], ctx), en, rk)]
            return [(s, en, rk)]
        n = e
        outs = None
        if n.k in CALLS or n.k in CTORS:
            g = callee(self.facts, n)
            if g is not None and not g.dep and cl.inline(s, n, g, ctx):
                outs = []
                for (kind, s2) in self.run(g, cl.enter(s, n, g, ctx), ctx.stack):
                    s3 = cl.leave(s, s2, n, g, ctx)
                    if s3 is None:
                        continue
                    en2 = en
                    if kind in (OK, ERR) and is_expected(n.t):
                        en2 = self._setfact(en, '#%d' % n.id, kind)
                    outs.append((s3, en2, rk))
            else:
                vs = cl.visit(s, n, ctx)
                if vs is not None:
                    outs = []
                    for g in vs:
                        for (kind, s2) in self.run(g, cl.enter(s, n, g, ctx), ctx.stack):
                            s3 = cl.leave(s, s2, n, g, ctx)
                            if s3 is None:
                                continue
                            en2 = en
                            if kind in (OK, ERR) and is_expected(n.t):
                                en2 = self._setfact(en, '#%d' % n.id, kind)
                            outs.append((s3, en2, rk))
        if outs is None:
            r = cl.on_node(s, n, ctx)
            if r is None:
                outs = [(s, en, rk)]
            else:
                outs = []
                for x in r:
                    if isinstance(x, tuple) and len(x) == 2 and x[0] in ('@ok', '@err'):
                        outs.append((x[1], self._setfact(en, '#%d' % n.id, x[0][1:]), rk))
                    else:
                        outs.append((x, en, rk))
        # kills and value facts
        if n.k == 'DeclStmt':
            res = []
            for (s2, en2, rk2) in outs:
                for d in n.a.get('d', ()):
                    en2 = self._kill_var(en2, d['v'])
                    if d.get('i') is not None and is_expected(d['t']):
                        src = strip_casts(d['i'])
                        f = dict(en2).get('#%d' % src.id) if src is not None else None
                        if f is None:
                            k = self.ret_kind(src)
                            f = k if k in (OK, ERR) else None
                        if f is not None:
                            en2 = self._setfact(en2, 'ok(v%d)' % d['v'], f == OK)
                res.append((s2, en2, rk2))
            outs = res
        elif n.k in ('BinaryOperator', 'CompoundAssignOperator') and n.op.endswith('=') and n.op not in ('==', '!=', '<=', '>='):
            outs = [(a, self._kill_path(b, path(n.c[0])), c) for (a, b, c) in outs]
        elif n.k == 'UnaryOperator' and n.op in ('++', '--'):
            outs = [(a, self._kill_path(b, path(n.c[0])), c) for (a, b, c) in outs]
        elif n.k == 'CXXOperatorCallExpr' and n.op and n.op.endswith('=') and n.op not in ('==', '!=', '<=', '>='):
            p = path(n.c[0])
            outs = [(a, self._kill_path(b, p), c) for (a, b, c) in outs]
            src = strip_casts(n.c[1]) if len(n.c) > 1 else None
            if src is not None and p is not None and is_expected(n.c[0].t):
                res = []
                for (a, b, c) in outs:
                    f = dict(b).get('#%d' % src.id)
                    if f is not None:
                        b = self._setfact(b, 'ok(%s)' % pstr(p), f == OK)
                    res.append((a, b, c))
                outs = res
        elif n.k == 'CXXMemberCallExpr' and not n.cst:
            p = path(n.obj) if n.obj is not None else None
            if p is not None and n.n not in ('value', 'operator*', 'operator->', 'begin', 'end', 'at', 'back', 'front'):
                outs = [(a, self._kill_path(b, p), c) for (a, b, c) in outs]
        if n.k == 'ReturnStmt':
            res = []
            val = n.c[0] if n.c else None
            for (s2, en2, rk2) in outs:
                k = self.ret_kind(val) if val is not None else OK
                cr = getattr(cl, 'classify_return', None)
                if cr is not None and val is not None:
                    k2 = cr(s2, val, dict(en2), ctx)
                    if k2 is not None:
                        k = k2
                if k == ANY and val is not None:
                    src = strip_casts(val)
                    while src is not None and src.k in CTORS and len(src.c) == 1 and is_expected(src.t):
                        src = strip_casts(src.c[0])
                    if src is not None:
                        d = dict(en2)
                        f = d.get('#%d' % src.id)
                        if f is not None:
                            k = f
                        else:
                            p = path(src)
                            if p is not None and ('ok(%s)' % pstr(p)) in d:
                                k = OK if d['ok(%s)' % pstr(p)] else ERR
                s2 = cl.on_return(s2, n, ctx)
                res.append((s2, en2, k))
            outs = res
        return outs

    @staticmethod
    def ret_kind(v):
        """success / error / unknown for a returned expression"""
        if v is None:
            return OK
        t = v.t
        x = v
        while x is not None:
            if is_unexpected(x.t):
                return ERR
            if x.k in CTORS and is_expected(x.t) and len(x.c) >= 1 and x.c[0] is not None:
                y = x.c[0]
                if is_unexpected(y.t):
                    return ERR
                if is_expected(y.t):
                    x = strip_casts(y)
                    continue
                return OK
            break
        y = strip_casts(v)
        if y is not None and is_expected(y.t):
            if y.k in CTORS and len(y.c) >= 1 and not is_expected(y.c[0].t):
                return ERR if is_unexpected(y.c[0].t) else OK
            if y.k in CTORS and len(y.c) == 0:
                return OK
            return ANY
        if y is not None and y.k == 'InitListExpr' and is_expected(t):
            return OK
        return OK if not is_expected(t) else ANY

    @staticmethod
    def _setfact(en, k, v):
        d = dict(en)
        d[k] = v
        return frozenset(d.items())

    @staticmethod
    def _kill_var(en, v):
        tok = 'v%d' % v
        return Explorer._kill_tok(en, tok)

    @staticmethod
    def _kill_path(en, p):
        if p is None:
            return en
        return Explorer._kill_tok(en, pstr(p).split('.[]')[0])

    @staticmethod
    def _kill_tok(en, tok):
        if not en:
            return en
        import re
        pat = re.compile(r'(?<![\w.])' + re.escape(tok) + r'(?![\w])')
        keep = [(k, v) for (k, v) in en if k.startswith('#') or not pat.search(k)]
        return en if len(keep) == len(en) else frozenset(keep)
