"""P06: an id is only good for the table that issued it, and only within that table."""
from ..facts import CALLS, CTORS, rel, AnalysisBroken
from ..util import (aliases, all_nodes, callee, strip_casts, api_roots, src_fns, path, pstr, canon, ancestors, lambda_fns,
                    reachable)
from ..flow import Explorer, Client, OK, ERR, ANY
from ..interval import put
from ..roles import RoleClient, role_of, add_role
from .p02 import Swallow

META = {
    'title': 'Ids are checked against the table that issued them',
    'statement': 'A resource id that the document never issued (negative, or at or past the end of the table of its kind) is refused '
                 'with an error by the generator or draw context call it is given to, directly or inside a property object, and never '
                 'selects an array element or reaches the output. Each kind of id is resolved only in the table whose positions it '
                 'counts, and the id a call returns denotes the entry that call just added.',
    'over': ['inputs', 'histories'],
    'qtext': 'every id kind, every call taking an id and every integer an id can hold, after any sequence of additions',
    'why': 'Tests only pass ids they were given; a check against a neighbouring table or an id one off goes unnoticed in small documents.',
    'files': ['src/document.cpp', 'src/document.hpp', 'src/drawcontext.cpp', 'src/pdfwriter.cpp', 'src/generator.cpp', 'src/capi.cpp'],
    'mechanism': [('CHECK_INDEXNESS', 'src/errorhandling.hpp'), ('PdfDocument::get / add_*', 'src/document.hpp')],
    'technique': 'interval dataflow of bad ids through inlined callees, id-kind/table typing and a push-count typestate',
    'level_note': 'All paths of every function that takes, uses or issues an id; containers are abstracted to their size. That an id '
                  'belongs to this document rather than another one cannot be told from its value and is not claimed.',
}

SIZE = 1000     # the abstract size of every table; ids are judged at -1, SIZE and 2^32


def id_kind(n):
    """X of `x.id` where x is an id handed out by the library"""
    if n is not None and n.k == 'MemberExpr' and n.n == 'id' and n.cls and n.cls.startswith('CapyPDF_') and n.cls.endswith('Id'):
        return n.cls
    return None


class IdClient(RoleClient):
    """value of a tracked id is `bad`, every table has SIZE entries"""

    def __init__(self, facts, bad, key=None):
        RoleClient.__init__(self, facts)
        self.bad = bad
        self.key = key
        self.reached = []

    def isid(self, st, n):
        x = strip_casts(n)
        if not id_kind(x) or not x.c:
            return False
        if self.key is not None and canon(x) == self.key:
            return True
        return self.holds_id(st, x.c[0])

    def holds_id(self, st, n):
        return role_of(st, peel(n)) == 'id'

    def eval(self, st, n):
        x = strip_casts(n)
        if self.isid(st, n):
            return self.bad, self.bad
        if x is not None and x.k == 'CXXMemberCallExpr' and x.n in ('size', 'length') and not x.c:
            return SIZE, SIZE
        return RoleClient.eval(self, st, n)

    def _cmp(self, st, a, op, b):
        if self.isid(st, a):
            blo, bhi = self.eval(st, b)
            v = self.bad
            if self._sign_lost(a) and v < 0:
                v += 2 ** 64
            ok = {'<': v < bhi, '<=': v <= bhi, '>': v > blo, '>=': v >= blo, '==': blo <= v <= bhi,
                  '!=': not (blo == bhi == v)}[op]
            return st if ok else None
        return RoleClient._cmp(self, st, a, op, b)

    def on_branch(self, st, cond, truth, ctx):
        c = strip_casts(cond)
        # looking a never-issued id up in a set finds nothing
        if c is not None and c.k in ('CXXOperatorCallExpr', 'CXXRewrittenBinaryOperator') and c.op in ('==', '!=') and len(c.c) == 2 and \
                (self.bad < 0 or self.bad >= SIZE):
            for a in c.c:
                f = strip_casts(a)
                if f is not None and f.k == 'CXXMemberCallExpr' and f.n == 'find' and f.c and self.denotes(st, f.c[0]):
                    return st if truth == (c.op == '==') else None
        if c is not None and c.k == 'CXXMemberCallExpr' and c.n == 'contains' and c.c and self.denotes(st, c.c[0]) and \
                (self.bad < 0 or self.bad >= SIZE):
            return None if truth else st
        # the optional id is there
        if c is not None and c.k == 'CXXMemberCallExpr' and c.n in ('operator bool', 'has_value') and self.holds_id(st, c.obj):
            return st if truth else None
        return RoleClient.on_branch(self, st, cond, truth, ctx)

    def denotes(self, st, n):
        if self.holds_id(st, n):
            return True
        if self.key is not None:
            k = canon(n)
            return k is not None and k + '.id' == self.key
        return False

    def on_node(self, st, n, ctx):
        rs = []
        if n.k == 'DeclStmt':
            rs = [d['v'] for d in n.a.get('d', ()) if d.get('i') is not None and self.holds_id(st, d['i'])]
        elif n.k in ('BinaryOperator', 'CXXOperatorCallExpr') and n.op == '=' and len(n.c) == 2:
            p = path(n.c[0])
            if p is not None and len(p) == 1 and p[0][0] == 'v' and self.holds_id(st, n.c[1]):
                rs = [p[0][1]]
        out = self._on_node(st, n, ctx)
        if rs and out:
            for v in rs:
                out = [add_role(s, v, 'id') for s in out]
        return out

    def enter(self, st, call, fn, ctx):
        new = RoleClient.enter(self, st, call, fn, ctx)
        for p, a in zip(fn.params, self.args_of(call, fn)):
            if a is not None and self.denotes(st, a):
                new = add_role(new, p['v'], 'id')
        return new

    def _on_node(self, st, n, ctx):
        if n.k == 'CXXMemberCallExpr' and n.n == 'at' and n.c and (self.bad < 0 or self.bad >= SIZE):
            lo, hi = self.eval(st, n.c[0])
            if lo == hi == self.bad:
                return []       # throws
        if self.key is not None and id(n) in self.sinks:
            self.reached.append(n)
        return RoleClient.on_node(self, st, n, ctx)

    def inline(self, st, call, fn, ctx):
        if fn.cfg is None or ctx.depth > self.max_inline:
            return False
        return any(a is not None and (self.denotes(st, a) or self.isid(st, a)) for a in call.c)

    def use(self, st, n, ctx):
        return None

    def classify_return(self, st, val, env, ctx):
        return Swallow(self.facts).classify_return(None, val, env, ctx)


def peel(n):
    """the variable behind *p, o.value(), o->, optional(x) and copies"""
    while True:
        n = strip_casts(n)
        if n is None:
            return None
        if n.k == 'UnaryOperator' and n.op == '*':
            n = n.c[0]
        elif n.k == 'CXXOperatorCallExpr' and n.op in ('*', '->') and len(n.c) == 1:
            n = n.c[0]
        elif n.k == 'CXXMemberCallExpr' and n.n in ('value', 'operator->', 'operator*') and n.obj is not None and not n.c:
            n = n.obj
        elif n.k in CTORS and len(n.c) == 1 and 'std::optional<CapyPDF_' in (n.t or ''):
            n = n.c[0]
        elif n.k == 'InitListExpr' and len(n.c) == 1 and 'std::optional<CapyPDF_' in (n.t or ''):
            n = n.c[0]
        else:
            return n


def containers_of(n):
    """name of the member table an expression denotes"""
    n = strip_casts(n)
    if n is not None and n.k == 'MemberExpr' and n.dk == 'field':
        if n.cls and not n.cls.endswith('PdfDocument') and n.c:
            # a table inside a member struct (outlines.items)
            b = strip_casts(n.c[0])
            if b is not None and b.k == 'MemberExpr' and b.dk == 'field':
                return b.n + '.' + n.n
        return n.n
    if n is not None and n.k == 'DeclRefExpr':
        p = path(n)
        if p and len(p) > 1 and isinstance(p[-1], str):
            return p[-1]
    return None


def size_expr(fn, n):
    """(table, offset) when n is table.size() + offset, through single-assignment locals"""
    n = strip_casts(n)
    if n is None:
        return None
    if n.k == 'CXXMemberCallExpr' and n.n == 'size' and n.obj is not None:
        c = containers_of(n.obj)
        return (c, 0, n) if c else None
    if n.k == 'BinaryOperator' and n.op in ('+', '-'):
        k = strip_casts(n.c[1]).cvi()
        b = size_expr(fn, n.c[0])
        if b and k is not None:
            return b[0], b[1] + (k if n.op == '+' else -k), b[2]
        return None
    if n.k == 'DeclRefExpr' and n.dk == 'local':
        i = sole_init(fn, n.v)
        if i is not None:
            return size_expr(fn, i)
    return None


def sole_init(fn, v):
    init = None
    for m in all_nodes(fn):
        if m.k == 'DeclStmt':
            for d in m.a.get('d', ()):
                if d['v'] == v:
                    init = d.get('i')
        elif m.k in ('BinaryOperator', 'CompoundAssignOperator') and m.op.endswith('=') and \
                m.op not in ('==', '!=', '<=', '>='):
            p = path(m.c[0])
            if p == (('v', v),):
                return None
        elif m.k == 'UnaryOperator' and m.op in ('++', '--'):
            p = path(m.c[0])
            if p == (('v', v),):
                return None
    return init


PUSHERS = ('push_back', 'emplace_back')


class Pushes(Client):
    """counts entries appended to one table; remembers the count when the id was computed"""

    def __init__(self, facts, table, probe, relevant):
        self.facts, self.table, self.probe, self.relevant = facts, table, probe, relevant

    def inline(self, st, call, fn, ctx):
        return fn.key in self.relevant and fn.cfg is not None and ctx.depth < 8

    def on_node(self, st, n, ctx):
        cnt, at = st
        if n.k == 'CXXMemberCallExpr' and n.n in PUSHERS and n.obj is not None and containers_of(n.obj) == self.table:
            cnt = min(cnt + 1, 4)
        elif n.k == 'CXXMemberCallExpr' and n.n in ('pop_back', 'clear', 'erase', 'resize', 'insert') and \
                n.obj is not None and containers_of(n.obj) == self.table:
            cnt = 9
        elif id(n) == self.probe:
            at = cnt
        else:
            return None
        return [(cnt, at)]


def pushes_into(facts):
    """table -> functions that (transitively) append to it"""
    direct = {}
    for fn in src_fns(facts):
        for n in all_nodes(fn):
            if n.k == 'CXXMemberCallExpr' and n.n in PUSHERS and n.obj is not None:
                c = containers_of(n.obj)
                if c:
                    direct.setdefault(c, set()).add(fn.key)
    return direct


def run(facts, r):
    r.rule('api', 'with the id outside its table no path of the call reports success', 7)
    r.rule('use', 'an id is emitted, stored for a resource dictionary or used as an unchecked index only where it is known to be inside '
                  'its table', 12)
    r.rule('table', 'an id is looked up in, or compared with the size of, only the table that issues ids of its kind', 35)
    r.rule('issue', 'the id returned is the position of the entry just appended', 14)
    r.assume('a document\'s tables only grow while ids are in use (generator reset aside)')

    # --- which table issues which kind
    issuers = {}
    direct = pushes_into(facts)
    sites = []
    for fn in src_fns(facts):
        if rel(fn.file) == 'src/capi.cpp':
            continue
        for n in all_nodes(fn):
            kind, e = issue_site(fn, n)
            if kind:
                sites.append((fn, n, kind, e))
    for fn, n, kind, e in sites:
        s = size_expr(fn, e)
        if s:
            issuers.setdefault(kind, {}).setdefault(s[0], []).append((fn, n, s))
        elif is_object_number(facts, fn, e):
            issuers.setdefault(kind, {}).setdefault('document_objects', []).append((fn, n, None))
    for kind in sorted(issuers):
        tabs = issuers[kind]
        # the returned id's table; a kind issued by two tables cannot be resolved
        if len(tabs) > 1:
            fn, n, s = sorted((x for l in tabs.values() for x in l), key=lambda x: x[0].l)[0]
            for t in sorted(tabs):
                for fn, n, s in tabs[t]:
                    r.bad('issue', n.loc, fn, '%s from %s' % (kind, t),
                          'ids of kind %s count positions of several tables: %s' % (kind, ', '.join(sorted(tabs))))
            continue
        for t, l in tabs.items():
            for fn, n, s in l:
                if s is None:
                    r.ok('issue', '%s %s = object number' % (n.loc, kind), fn)
                    continue
                relevant = reach_pushers(facts, fn, direct.get(t, ()))
                out = Explorer(facts, Pushes(facts, t, id(s[2]), relevant)).run(fn, (0, None))
                bad = None
                for k, (cnt, at) in out:
                    if k == ERR or at is None:
                        continue
                    if at + s[1] != cnt - 1:
                        bad = (cnt, at)
                if bad:
                    r.bad('issue', n.loc, fn, kind, 'the id is %s.size()%+d taken after %d append(s), but the call appends %s entr%s: it '
                          'does not denote the entry just added' % (t, s[1], bad[1], bad[0], 'y' if bad[0] == 1 else 'ies'))
                else:
                    r.ok('issue', '%s %s = position in %s' % (n.loc, kind, t), fn)
    table = {k: next(iter(v)) for k, v in issuers.items() if len(v) == 1}
    multi = {k: set(v) for k, v in issuers.items()}

    # --- lookups and comparisons
    for fn in sorted(src_fns(facts), key=lambda f: (f.file, f.l)):
        if fn.body is None:
            continue
        sinks = {}
        for n in all_nodes(fn):
            kind = id_kind(n)
            if not kind:
                w = whole_id_sink(n)
                if w:
                    x, what = w
                    k = canon(x)
                    if k is not None:
                        sinks.setdefault(k + '.id', []).append((x, n))
                continue
            p = n.parent
            while p is not None and p.k in ('CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'ImplicitCastExpr'):
                p = p.parent
            if p is None:
                continue
            cont = None
            if p.k == 'CXXMemberCallExpr' and p.n == 'at' and p.obj is not None:
                cont = containers_of(p.obj)
            elif p.k == 'CXXOperatorCallExpr' and p.op == '[]':
                cont = containers_of(p.c[0])
                sinks.setdefault(canon(n), []).append((n, p))
            elif p.k == 'BinaryOperator' and p.op in ('<', '<=', '>', '>=', '==', '!='):
                other = p.c[1] if contains(p.c[0], n) else p.c[0]
                o = strip_casts(other)
                if o is not None and o.k == 'CXXMemberCallExpr' and o.n == 'size':
                    cont = containers_of(o.obj)
            elif p.k == 'ArraySubscriptExpr':
                sinks.setdefault(canon(n), []).append((n, p))
            elif p.k in CALLS and p.n in ('insert', 'emplace', 'push_back', 'emplace_back', 'format', 'format_to', 'add_object_ref',
                                          'add_token', 'append', 'append_command', 'append_raw', 'vformat_to', 'to_string'):
                sinks.setdefault(canon(n), []).append((n, p))
            if cont is not None and kind in multi:
                if cont in multi[kind]:
                    r.ok('table', '%s %s in %s' % (n.loc, kind, cont), fn)
                else:
                    r.bad('table', n.loc, fn, '%s in %s' % (kind, cont), 'an id of kind %s is looked up in or checked against %s, '
                          'but it counts positions of %s' % (kind, cont, ' / '.join(sorted(multi[kind]))))
        for key, l in sorted(sinks.items(), key=lambda kv: kv[1][0][0].l):
            if key is None:
                r.bad('use', l[0][0].loc, fn, 'id', 'an id computed on the fly is used unchecked')
                continue
            if issued_here(facts, fn, l[0][0]):
                continue
            st0 = frozenset()
            x0 = peel(l[0][0].c[0] if id_kind(l[0][0]) else l[0][0])
            if x0 is not None and x0.k == 'DeclRefExpr' and x0.v is not None and x0.dk in ('local', 'param') and \
                    x0.v not in aliases(fn):
                st0 = add_role(st0, x0.v, 'id')
            reached = set()
            for bad in (-1, SIZE, 2 ** 31 - 1):
                cl = IdClient(facts, bad, key)
                cl.sinks = {id(p): n for n, p in l}
                Explorer(facts, cl).run(fn, st0)
                for x in cl.reached:
                    reached.add((id(x), bad))
            for n, p in l:
                hit = sorted(b for i, b in reached if i == id(p))
                if hit and not callers_check(facts, fn, n):
                    r.bad('use', n.loc, fn, '%s %s' % (kind_of(n), p.n or p.op or p.k),
                          'an id of kind %s that is %s can get here unchecked' % (
                              kind_of(n), ' or '.join('negative' if b < 0 else 'past the end of its table' for b in hit)))
                else:
                    r.ok('use', '%s %s' % (n.loc, kind_of(n)), fn)

    # --- API calls
    for fn in sorted(api_roots(facts), key=lambda f: f.l):
        if fn.cfg is None or not fn.params:
            continue
        first = (fn.params[0]['t'] or '').rstrip(' *')
        if first not in ('_capyPDF_Generator', '_capyPDF_DrawContext'):
            continue
        for p in fn.params[1:]:
            t = p['t'].replace('const ', '')
            ptr = t.endswith('*')
            t = t.rstrip(' *')
            if not (t.startswith('CapyPDF_') and t.endswith('Id')) or (ptr and p['n'].startswith('out')):
                continue
            i = fn.params.index(p)
            if ptr and i + 1 < len(fn.params) and fn.params[i + 1]['t'] in ('int', 'long', 'unsigned long'):
                continue        # an array: its elements are judged where they are stored (rule use)
            st = add_role(frozenset(), p['v'], 'id')
            if ptr:
                st = put(st, 'v%d' % p['v'], 1, float('inf'))
            acc = []
            for bad in (-1, SIZE, 2 ** 31 - 1):
                if any(k in (OK, ANY) for k, s in Explorer(facts, IdClient(facts, bad)).run(fn, st)):
                    acc.append(bad)
            if acc:
                r.bad('api', fn.loc, fn, p['n'], 'success is reported although the %s is %s' % (
                    t, ' or '.join('negative' if b < 0 else ('equal to the size of its table' if b == SIZE else 'past the end of '
                                   'its table') for b in acc)))
            else:
                good = any(k in (OK, ANY) for k, s in Explorer(facts, IdClient(facts, SIZE - 1)).run(fn, st))
                if not good:
                    r.bad('api', fn.loc, fn, p['n'], 'no path succeeds with the last %s issued' % t)
                else:
                    r.ok('api', '%s %s(%s %s)' % (fn.loc, fn.n, t, p['n']), fn)


def kind_of(n):
    return id_kind(n) or (n.t or '').replace('const ', '').rstrip(' &')


def whole_id_sink(n):
    """an id variable put into a table as a whole: (id expression, call)"""
    if n.k != 'CXXMemberCallExpr' or n.n not in ('insert', 'emplace') or n.obj is None:
        return None
    if containers_of(n.obj) is None:
        return None
    for a in n.c:
        a = strip_casts(a)
        cands = [a]
        if a is not None and a.k in ('InitListExpr',) + tuple(CTORS):
            cands = [strip_casts(y) for y in a.c]
        for y in cands:
            t = (y.t or '').replace('const ', '').rstrip(' &') if y is not None else ''
            if t.startswith('CapyPDF_') and t.endswith('Id') and y.k == 'DeclRefExpr':
                return y, n
    return None


def contains(a, n):
    return any(x is n for x in a.walk())


def issue_site(fn, n):
    """construction of an id from an integer: (kind, expression)"""
    if n.k in ('InitListExpr',) and n.t:
        t = n.t.replace('const ', '')
        if t.startswith('CapyPDF_') and t.endswith('Id') and len(n.c) == 1 and n.c[0] is not None:
            return t, n.c[0]
    if n.k == 'BinaryOperator' and n.op == '=':
        x = strip_casts(n.c[0])
        k = id_kind(x)
        if k:
            return k, n.c[1]
    return None, None


def is_object_number(facts, fn, e):
    e = strip_casts(e)
    if e is None:
        return False
    if e.k == 'DeclRefExpr' and e.dk == 'local':
        i = sole_init(fn, e.v)
        return i is not None and is_object_number(facts, fn, i)
    g = callee(facts, e) if e.k in CALLS else None
    return g is not None and g.n == 'add_object'


def reach_pushers(facts, fn, pushers):
    """functions called from fn that lead to a pusher"""
    rev = {}
    from ..util import direct_callees
    seen = reachable(facts, [fn])
    for k in seen:
        for g in direct_callees(facts, facts.fns[k]):
            rev.setdefault(g.key, set()).add(k)
    out = set()
    st = [k for k in pushers if k in seen]
    while st:
        k = st.pop()
        if k in out:
            continue
        out.add(k)
        st.extend(rev.get(k, ()))
    return out


def issued_here(facts, fn, n):
    """the id was made in this function from a position (not handed in)"""
    x = strip_casts(n.c[0]) if id_kind(n) else strip_casts(n)
    if x is not None and x.k in ('CXXOperatorCallExpr', 'CXXMemberCallExpr'):
        x = strip_casts(x.obj if x.obj is not None else x.c[0])
    if x is not None and x.k == 'DeclRefExpr' and x.dk == 'local':
        # every value this local ever gets is an id constructed here
        vals = []
        for m in all_nodes(fn):
            if m.k == 'DeclStmt':
                for d in m.a.get('d', ()):
                    if d['v'] == x.v and d.get('i') is not None:
                        vals.append(d['i'])
            elif m.k in ('BinaryOperator', 'CXXOperatorCallExpr') and m.op == '=' and path(m.c[0]) == (('v', x.v),):
                vals.append(m.c[1])
        vals = [v for v in vals if not (strip_casts(v).k in CTORS and not strip_casts(v).c)]
        return bool(vals) and all(any(issue_site(fn, y)[0] for y in v.walk()) for v in vals)
    return False


def callers_check(facts, fn, n):
    """a stored id read back while writing: the store was preceded by a check in the function that made the object"""
    kind = id_kind(n)
    if not kind or not rel(fn.file).endswith('pdfwriter.cpp'):
        return False
    base = strip_casts(n.c[0])
    if base is None or base.k != 'MemberExpr' or base.dk != 'field':
        return False
    rec = base.cls
    fieldname = base.n
    # the same field of the same record, bad, on entry of every function that creates the delayed object
    ok = False
    for g in src_fns(facts):
        if g is fn or g.cfg is None or rel(g.file).endswith('pdfwriter.cpp'):
            continue
        hits = [m for m in all_nodes(g) if id_kind(m) == kind and m.c and strip_casts(m.c[0]).k == 'MemberExpr' and
                strip_casts(m.c[0]).cls == rec and strip_casts(m.c[0]).n == fieldname]
        if not hits:
            continue
        key = canon(hits[0])
        adds = {id(m): m for m in all_nodes(g) if m.k in CALLS and m.n == 'add_object'}
        if not adds:
            continue
        good = True
        for bad in (-1, SIZE):
            nar = Narrow(facts, bad, key, adds, hits[0])
            Explorer(facts, nar).run(g, frozenset())
            if nar.reached:
                good = False
        ok = ok or good
    return ok


class Narrow(IdClient):
    """the object holds the alternative with the field under test: the get_if that yields it succeeds"""

    def __init__(self, facts, bad, key, sinks, hit):
        IdClient.__init__(self, facts, bad, key)
        self.sinks = sinks
        x = strip_casts(strip_casts(hit.c[0]).c[0])
        self.var = x.v if x is not None and x.k == 'DeclRefExpr' else None
        self.others = set()
        for m in all_nodes(hit.fn):
            if m.k == 'DeclStmt':
                for d in m.a.get('d', ()):
                    i = strip_casts(d['i']) if d.get('i') is not None else None
                    if i is not None and i.k == 'CallExpr' and i.n == 'get_if' and d['v'] != self.var:
                        self.others.add(d['v'])

    def on_branch(self, st, cond, truth, ctx):
        c = strip_casts(cond)
        if c is not None and c.k == 'DeclRefExpr':
            if c.v == self.var:
                return st if truth else None
            if c.v in self.others:
                return None if truth else st
        return IdClient.on_branch(self, st, cond, truth, ctx)
