"""P11: every resource name a content stream uses is defined, in the resource dictionary written with it, as the same object."""
from ..facts import CALLS, CTORS, AnalysisBroken, rel
from ..util import strip_casts, all_nodes, callee, repo_fns, lambda_fns
from ..flow import Explorer, ERR
from ..origins import clean
from .. import csim, terms
from ..csim import Sim, textual
from . import p31

META = {
    'title': 'Every resource a content stream names is in its resource dictionary',
    'statement': 'Whenever a drawing or text call writes an operator that names a resource (gs, sh, Do, CS/cs, SCN/scn with a pattern, Tf, '
                 'BDC with an optional content group), the resource dictionary later written for that same content defines this name in the '
                 'category the operator looks it up in, as the object the name was made from. The draw context hands out a resource '
                 'dictionary together with every content stream, whatever its kind (page, form XObject, transparency group, tiling pattern), '
                 'and within one category equal names stand for equal objects.',
    'over': ['inputs', 'histories'],
    'qtext': 'every drawing call, in every combination and order, on every kind of draw context',
    'why': 'A viewer silently skips an operator whose resource is missing; a test that compares pixels uses few combinations (a category '
           'that is only missing when another one is empty is not seen).',
    'files': ['src/drawcontext.cpp', 'src/drawcontext.hpp', 'src/document.hpp'],
    'mechanism': [('build_resource_dict, serialize', 'src/drawcontext.cpp'), ('cmd_Do, cmd_gs, cmd_sh, set_color, cmd_BDC', 'src/drawcontext.cpp'),
                  ('render_text, render_glyphs, render_pdfdoc_text_builtin', 'src/drawcontext.cpp')],
    'technique': 'path-sensitive symbolic text dataflow: on every successful path each name operand must be matched by an insertion into a '
                 'usage set whose canonical value term gives the same name under the entry that the resource dictionary writer makes for it; '
                 'the writer is explored for every usage set (each element written, no guard that can skip it)',
    'level_note': 'Terms compare values through locals, getters and call strings; a name or entry whose term cannot be decided is counted as '
                  'unverified. Objects are compared by the expression that yields their number.',
}

DC = 'capypdf::internal::PdfDrawContext'
FMT = 'capypdf::internal::ObjectFormatter'
# operator -> (resource category, which operand)
USES = {'gs': ('/ExtGState', 0), 'sh': ('/Shading', 0), 'Do': ('/XObject', 0), 'CS': ('/ColorSpace', 0), 'cs': ('/ColorSpace', 0),
        'SCN': ('/Pattern', -1), 'scn': ('/Pattern', -1), 'Tf': ('/Font', 0), 'BDC': ('/Properties', 1), 'DP': ('/Properties', 1)}
BUILTIN = {'/ColorSpace': ('/Pattern', '/DeviceGray', '/DeviceRGB', '/DeviceCMYK')}
CATS = ('/ExtGState', '/Shading', '/XObject', '/ColorSpace', '/Pattern', '/Font', '/Properties')
PUTS = ('insert', 'emplace', 'push_back', 'emplace_back', 'insert_or_assign', 'try_emplace')


def member(n, types=None):
    """name of the draw context's own field an expression denotes"""
    x = strip_casts(n)
    if x is not None and x.k == 'MemberExpr' and x.dk == 'field' and x.cls == DC:
        return x.n
    return None


def names_of(ops):
    out = set()
    for o, a in ops:
        if o not in USES:
            continue
        cat, i = USES[o]
        if not a or (i >= len(a)):
            continue
        t = a[i]
        if t[0] != 'w':
            continue
        parts = tuple(p if isinstance(p, str) else tuple(p) for p in t[1])
        if o in ('SCN', 'scn') and not (isinstance(parts[0], str) and parts[0].startswith('/')):
            continue
        out.add((o, cat, csim.freeze(parts)))
    return out


class Rec:
    def __init__(self, sim):
        self.sim = sim

    def add(self, x):
        self.sim.done.append(x)


class Names(Sim):
    """also records what is put into the draw context's usage sets and, in reduced mode, the names of the operators that were completed"""
    def __init__(self, facts):
        self.done = []
        super().__init__(facts)
        self.puts = self.putting()

    def putting(self):
        hit = set()
        for f in repo_fns(self.facts):
            for n in all_nodes(f):
                if self.use(f, n, ()) is not None:
                    hit.add(f.key)
        work = list(hit)
        callers = {}
        for f in repo_fns(self.facts):
            for n in all_nodes(f):
                if n.f:
                    callers.setdefault(n.f, set()).add(f.key)
        while work:
            k = work.pop()
            for c in callers.get(k, ()):
                if c not in hit:
                    hit.add(c)
                    work.append(c)
        return hit

    def use(self, f, n, chain):
        if n.k == 'CXXMemberCallExpr' and n.n in PUTS and n.obj is not None:
            m = member(n.obj)
            a = [x for x in n.c if x is not None and x.k != 'CXXDefaultArgExpr']
            if m is not None and a:
                return (m, f.key, a[-1].id, chain)
        if n.k == 'BinaryOperator' and n.op == '=':
            m = member(n.c[0])
            if m is not None and strip_casts(n.c[1]) is not None and (n.c[0].t or '') == 'bool':
                x = strip_casts(n.c[1])
                if x.cvi() == 1 or x.a.get('cv') in (1, '1', True):
                    return (m, None, None, None)
        return None

    def append(self, st, key, pieces):
        self.done = []
        st = super().append(st, key, pieces)
        if self.done:
            ns = names_of(self.done)
            if ns:
                old = self.get(st, 'NAMES', frozenset())
                st = self.put(st, 'NAMES', old | ns)
            self.done = []
        return st

    def on_node(self, st, n, ctx):
        u = self.use(ctx.fn, n, st[1])
        if u is not None:
            old = self.get(st, 'USED', frozenset())
            st = self.put(st, 'USED', old | {u})
            r = super().on_node(st, n, ctx)
            return r if r is not None else [st]
        if n.k == 'DeclStmt':
            for d in n.a.get('d', ()):
                # the first test of a loop over a container that is known not to be empty
                if (d.get('n') or '').startswith('__range') and d.get('i') is not None:
                    x = strip_casts(d['i'])
                    if x is not None and x.k == 'DeclRefExpr' and self.get(st, ('ne', ctx.fn.tu, x.v)):
                        st = self.put(st, ('first', ctx.fn.tu, d['n'][7:]), 1)
                        r = super().on_node(st, n, ctx)
                        return r if r is not None else [st]
        return super().on_node(st, n, ctx)

    def on_branch(self, st, cond, truth, ctx):
        x = strip_casts(cond)
        if x is not None and x.k in ('CXXRewrittenBinaryOperator', 'CXXOperatorCallExpr', 'BinaryOperator') and x.op == '!=' and len(x.c) == 2:
            b = strip_casts(x.c[0])
            if b is not None and b.k == 'DeclRefExpr' and (b.n or '').startswith('__begin'):
                k = ('first', ctx.fn.tu, b.n[7:])
                if self.get(st, k):
                    if not truth:
                        return None
                    st = self.put(st, k, 0)
        for g, y, tr, bind in csim.implied(self.facts, ctx.fn, cond, truth):
            if y.k == 'CXXMemberCallExpr' and y.n == 'empty' and y.obj is not None and not tr:
                o = strip_casts(y.obj)
                if o is not None and o.k == 'DeclRefExpr' and o.v is not None and 'const ' in (o.t or '') + self.vtype(g, o):
                    st = self.put(st, ('ne', g.tu, o.v), 1)
        return super().on_branch(st, cond, truth, ctx)

    def vtype(self, f, o):
        for p in f.params:
            if p['v'] == o.v:
                return p['t'] + ' '
        return ''

    def inline(self, st, call, g, ctx):
        return g.body is not None and (super().inline(st, call, g, ctx) or g.key in self.puts and ctx.depth < 25)

    def leave(self, st0, st1, call, g, ctx):
        out = super().leave(st0, st1, call, g, ctx)
        for k in ('USED', 'NAMES'):
            v = self.get(st1, k)
            if v is not None:
                out = self.put(out, k, v)
        return out


class Res(Sim):
    """what the resource dictionary writer does; explored once for each usage set (or flag) M"""
    def __init__(self, facts, T):
        super().__init__(facts)
        self.T = T
        self.M = None
        self.entries = set()
        self.flags = set()

    @staticmethod
    def fm(n):
        return n.k == 'CXXMemberCallExpr' and n.cls == FMT

    def inline(self, st, call, g, ctx):
        if g.body is None or ctx.depth > 12 or g.cls == FMT:
            return False
        if any('ObjectFormatter &' in p['t'] or 'ObjectFormatter *' in p['t'] for p in g.params):
            return True
        return textual(g.rt) and g.cls == DC

    def set_term(self, f, n, chain):
        t = self.T.of(f, n, chain)
        if t[0] == '.' and t[2] == ('this', DC):
            return t[1]
        return None

    def flag(self, st, *add):
        return self.put(st, 'F', self.get(st, 'F', frozenset()) | set(add))

    def drop(self, st, x):
        return self.put(st, 'F', self.get(st, 'F', frozenset()) - {x})

    def on_node(self, st, n, ctx):
        f = ctx.fn
        if self.fm(n):
            stack = self.get(st, 'S', ())
            key = self.get(st, 'K')
            if n.n == 'begin_dict':
                st = self.put(self.put(st, 'S', stack + (key or (),)), 'K', None)
                return [st]
            if n.n == 'end_dict':
                return [self.put(self.put(st, 'S', stack[:-1]), 'K', None)]
            if n.n in ('begin_array', 'end_array'):
                return [self.put(st, 'A', 1 if n.n == 'begin_array' else 0)] if n.n == 'begin_array' else [self.put(self.put(st, 'A', 0), 'K', None)]
            if self.get(st, 'A'):
                return [st]
            if n.n == 'add_token' and n.c:
                if key is None:
                    return [self.put(st, 'K', self.strip(self.text(st, f, n.c[0])))]
                return [self.put(st, 'K', None)]
            if n.n == 'add_object_ref' and n.c:
                if key is not None:
                    st = self.entry(st, f, stack, key, n.c[0])
                return [self.put(st, 'K', None)]
            return [st]
        if n.k == 'DeclStmt':
            for d in n.a.get('d', ()):
                if (d.get('n') or '').startswith('__range') and d.get('i') is not None:
                    continue
                i = self.T.iter_over(f, d.get('v'))
                if i is not None:
                    m = self.set_term(f, i, st[1])
                    if m is not None and m == self.M:
                        st = self.put(st, ('rng', f.tu, d['v']), m)
            r = super().on_node(st, n, ctx)
            return r if r is not None else [st]
        return super().on_node(st, n, ctx)

    @staticmethod
    def strip(pieces):
        return tuple(p[:2] if p[0] == 'L' else p for p in pieces)

    def entry(self, st, f, stack, key, ref):
        cat = ''.join(p[1] if p[0] == 'L' else '{}' for p in stack[-1]) if stack else ''
        if cat not in CATS:
            return st
        lit = ''.join(p[1] for p in key if p[0] == 'L')
        holes = [p for p in key if p[0] == 'V']
        nt = None
        m = None
        if len(holes) == 1 and key[-1][0] == 'V':
            g = self.facts.fns[holes[0][1]]
            nt = self.T.of(g, g.nodes[holes[0][2]], holes[0][3])
            m = elem_of(nt)
        elif holes:
            return st
        rt = self.T.of(f, ref, st[1])
        self.entries.add((cat, lit, nt, m, rt, f.key, ref.id))
        if self.M is not None:
            if m is not None and m == self.M:
                st = self.drop(st, 'pending')
            if m is None and self.M == ('lit', cat, lit):
                st = self.flag(st, 'written')
        return st

    def on_branch(self, st, cond, truth, ctx):
        x = strip_casts(cond)
        if x is not None and x.op == '!=' and len(x.c) == 2:
            b = strip_casts(x.c[0])
            if b is not None and b.k == 'DeclRefExpr' and b.v is not None:
                m = self.get(st, ('rng', ctx.fn.tu, b.v))
                if m is not None and m == self.M:
                    F = self.get(st, 'F', frozenset())
                    if 'pending' in F:
                        st = self.flag(self.drop(st, 'pending'), 'skipped')
                    st = self.flag(st, 'pending' if truth else 'looped')
        for g, y, tr, bind in csim.implied(self.facts, ctx.fn, cond, truth):
            if y.k == 'CXXMemberCallExpr' and y.n in ('empty', 'size') and y.obj is not None:
                m = self.set_term(g, y.obj, st[1])
                if m is not None and m == self.M and tr == (y.n == 'empty'):
                    st = self.flag(st, 'empty')
            if y.k == 'BinaryOperator' and y.op in ('==', '>', '!=') and len(y.c) == 2:
                z = strip_casts(y.c[0])
                w = strip_casts(y.c[1])
                if z is not None and w is not None and z.k == 'CXXMemberCallExpr' and z.n == 'size' and w.cvi() == 0 and z.obj is not None:
                    m = self.set_term(g, z.obj, st[1])
                    if m is not None and m == self.M and tr == (y.op == '=='):
                        st = self.flag(st, 'empty')
            m = self.set_term(g, y, st[1]) if y.k in ('MemberExpr', 'DeclRefExpr') else None
            if m is not None and (y.t or '').replace('const ', '') == 'bool':
                self.flags.add(m)
                if not tr:
                    st = self.flag(st, 'false:' + m)
        return super().on_branch(st, cond, truth, ctx)

    def leave(self, st0, st1, call, g, ctx):
        out = super().leave(st0, st1, call, g, ctx)
        for k in ('S', 'K', 'A', 'F'):
            v = self.get(st1, k)
            if v is not None or self.get(out, k) is not None:
                out = self.put(out, k, v)
        return out


def elem_of(t):
    if not isinstance(t, tuple):
        return None
    if t and t[0] == 'elem' and t[1][0] == '.' and t[1][2] == ('this', DC):
        return t[1][1]
    if t and t[0] in ('.', 'at'):
        for x in t[1:]:
            m = elem_of(x)
            if m:
                return m
    return None


def instantiate(T, t, m, put):
    """the term of an entry for the element that was put into the set"""
    facts = T.facts
    f = facts.fns[put[1]]
    node = f.nodes[put[2]]

    def go(t):
        names = []
        x = t
        while isinstance(x, tuple) and x and x[0] == '.':
            names.insert(0, x[1])
            x = x[2]
        if isinstance(x, tuple) and x and x[0] == 'elem' and elem_of(x) == m:
            return T.path(f, strip_casts(node), tuple(names), put[3], 0)
        if isinstance(t, tuple) and t and t[0] == '.':
            return ('.', t[1], go(t[2]))
        if isinstance(t, tuple) and t and t[0] in ('at', 'elem'):
            return (t[0],) + tuple(go(y) for y in t[1:])
        return t
    return go(t)


def run(facts, r):
    r.rule('defined', 'on every successful path each resource name an operator uses is put into the usage set from which the resource '
                      'dictionary writer makes the entry of that name in the operator\'s category', 9)
    r.rule('written', 'the resource dictionary writer makes an entry for every element of every usage set, on every path on which the set is '
                      'not known to be empty', 6)
    r.rule('object', 'the object an entry points at is determined by the name of the entry', 6)
    r.rule('handed', 'every content stream is handed out together with a resource dictionary written on the same path', 1)
    T = terms.build(facts)
    T.one = {DC}
    res = Res(facts, T)
    writers = [f for f in repo_fns(facts) if f.cls == DC and f.body is not None and any('ObjectFormatter &' in p['t'] for p in f.params)]
    top = [f for f in writers if f.n == 'build_resource_dict'] or \
          [f for f in writers if any(n.k == 'StringLiteral' and n.s == '/ExtGState' for n in all_nodes(f))]
    if not top:
        raise AnalysisBroken('the function that writes the resource dictionary was not found')
    w = top[0]
    init = (frozenset(), (), None)
    Explorer(facts, res, cap=6000).run(w, init)
    entries = {}
    for cat, lit, nt, m, rt, fk, nid in res.entries:
        entries.setdefault((cat, lit), []).append((nt, m, rt, fk, nid))
    wfn = facts.fns[w.key]
    # -- the writer, one set at a time
    for (cat, lit), es in sorted(entries.items(), key=lambda x: x[0]):
        for nt, m, rt, fk, nid in es:
            g = facts.fns[fk]
            n = g.nodes[nid]
            if m is None and nt is not None:
                r.count('entries whose set could not be told')
                continue
            if m is not None:
                res.M = m
            else:
                res.M = ('lit', cat, lit)
            outs = Explorer(facts, res, cap=6000).run(w, init)
            bad = None
            for k, st in outs:
                F = Sim.get(st, 'F', frozenset())
                if m is not None:
                    if 'empty' in F and 'looped' not in F:
                        continue
                    if 'skipped' in F or 'pending' in F:
                        bad = 'an element of %s can be left out' % m
                    elif 'looped' not in F:
                        bad = '%s can be left out although it is not empty' % m
                else:
                    if 'written' not in F and not any(x.startswith('false:') for x in F):
                        bad = 'the entry %s can be left out' % lit
            where = rel(g.file) + ':%d' % n.l
            if bad:
                r.bad('written', where, g, '%s%s' % (cat, lit), bad)
            else:
                r.ok('written', '%s %s<n>: every element of %s' % (cat, lit, m or 'the flag'), g)
            if m is None:
                continue
            if not depends(T, g, n, facts):
                r.bad('object', where, g, '%s%s' % (cat, lit), 'the object of the entry %s<%s> does not depend on the element it is made for' % (
                    lit, terms.show(nt)))
                continue
            x = terms.subst(rt, nt, ('n', 'NAME'))
            if terms.undecided(rt) or terms.undecided(nt):
                r.count('entries whose object could not be told')
            elif elem_of(x) is not None:
                r.bad('object', where, g, '%s%s' % (cat, lit), 'entries with the same name %s<%s> can stand for different objects (%s)' % (
                    lit, terms.show(nt), terms.show(rt)))
            else:
                r.ok('object', '%s<%s> -> %s' % (lit, terms.show(nt), terms.show(rt)), g)
    # -- the users
    lits = spelt(facts, w)
    sim = Names(facts)
    J = p31.Judge(facts, r)
    er = p31.event_roots(J)
    roots = []
    for q, fs in sorted(facts.by_q.items()):
        f = fs[0]
        if f.externc and f.n.startswith('capy_dc_') and f.body is not None and (f.key in sim.emitting or f.key in sim.puts):
            roots.append(f)
    roots += [g for gs in er.values() for g in gs if g not in roots]
    called = {n.f for f in repo_fns(facts) for n in all_nodes(f) if n.f and n.f != f.key and (f.key in sim.emitting or f.key in sim.puts)}
    for f in repo_fns(facts):
        if f.cls == DC and f.body is not None and f not in roots and not f.is_lambda and f.key in sim.emitting and (
                f.key not in called or f.n.startswith(('render_', 'draw_'))):
            roots.append(f)
    found = {}
    ex = Explorer(facts, sim, cap=1500)
    for f in roots:
        outs = None
        sim.steps, sim.budget, sim.reduced = 0, 150000, False
        try:
            outs = ex.run(f, init)
        except AnalysisBroken:
            sim.steps, sim.budget, sim.reduced, sim.seen, sim.items = 0, 400000, True, Rec(sim), set()
            try:
                outs = Explorer(facts, sim, cap=6000).run(f, init)
            except (AnalysisBroken, csim.Malformed):
                outs = None
            ex = Explorer(facts, sim, cap=1500)
        sim.reduced = False
        if outs is None:
            r.count('calls too large to follow')
            continue
        for k, st in outs:
            if k == ERR:
                continue
            ns = names_of(csim.operators(Sim.get(st, 'OUT', ()))) | Sim.get(st, 'NAMES', frozenset())
            used = Sim.get(st, 'USED', frozenset())
            for o, cat, parts in ns:
                v, msg = judge(T, entries, o, cat, parts, used, lits)
                site = site_of(facts, parts, f)
                d = found.setdefault((site, o, cat, parts_text(parts)), {})
                d.setdefault(v, (msg, f))
    for (site, o, cat, txt), d in sorted(found.items(), key=lambda x: repr(x[0])):
        if 'bad' in d:
            msg, f = d['bad']
            g = facts.fns[site[0]]
            r.bad('defined', rel(g.file) + ':%d' % g.nodes[site[1]].l if site[1] in g.nodes else g.loc, f, '%s %s' % (txt, o), msg)
        elif 'ok' in d:
            r.ok('defined', '%s %s: %s' % (txt, o, d['ok'][0]), d['ok'][1])
            if '?' in d:
                r.count('names also used on paths that could not be decided')
        else:
            r.count('names that could not be traced')
    handed(facts, r, w)


def depends(T, f, n, facts):
    """does an expression read a local (or parameter), directly or through its initialiser"""
    return any(x.k == 'DeclRefExpr' and x.v is not None and x.dk != 'global' for x in n.walk())


def spelt(facts, w):
    """literals in the resource dictionary writer and what it calls"""
    out, work, seen = set(), [w], set()
    while work:
        f = work.pop()
        if f.key in seen or f.body is None:
            continue
        seen.add(f.key)
        for n in all_nodes(f):
            if n.k == 'StringLiteral' and n.s:
                out.add(n.s)
            if n.f and n.f in facts.fns and facts.fns[n.f].cls != FMT:
                work.append(facts.fns[n.f])
        work += lambda_fns_of(facts, f)
    return out


def lambda_fns_of(facts, f):
    out = []
    for n in all_nodes(f):
        if n.k == 'LambdaExpr':
            out += lambda_fns(facts, n)
    return out


def parts_text(parts):
    return ''.join(p if isinstance(p, str) else '<n>' for p in parts)


def site_of(facts, parts, f):
    for p in parts:
        if not isinstance(p, str):
            return (p[1], p[2])
    return (f.key, 0)


def judge(T, entries, o, cat, parts, used, lits):
    if not isinstance(parts[0], str) or not parts[0].startswith('/'):
        return '?', 'a name that is not spelt out'
    lit = parts[0]
    if len(parts) == 1:
        if lit in BUILTIN.get(cat, ()):
            return 'ok', 'a name PDF defines'
        es = entries.get((cat, lit))
        if not es and lit in lits and cat in lits:
            return '?', ''
        if not es:
            return 'bad', 'the name %s used by `%s` is not defined in the category %s of the resource dictionary' % (lit, o, cat)
        if any(u[1] is None for u in used):
            return 'ok', 'with the flag %s' % ', '.join(sorted(u[0] for u in used if u[1] is None))
        return 'bad', 'the name %s is used without recording that it is' % lit
    if len(parts) != 2:
        return '?', ''
    es = entries.get((cat, lit))
    if not es and cat in lits and any(l.startswith(lit + '{') or l == lit and lit not in CATS for l in lits):
        return '?', ''
    if not es:
        return 'bad', 'the resource dictionary has no entry %s<n> in the category %s, where `%s` looks the name up' % (lit, cat, o)
    h = parts[1]
    f = T.facts.fns[h[1]]
    have = T.of(f, f.nodes[h[2]], h[3])
    msg, und = None, False
    for nt, m, rt, fk, nid in es:
        if m is None:
            und = True
            continue
        ins = [u for u in used if u[0] == m]
        if not ins:
            msg = msg or '`%s<n> %s` is written, but nothing is put into %s, from which its entry is made' % (lit, o, m)
        for u in ins:
            want = instantiate(T, nt, m, u)
            if want == have:
                return 'ok', '%s put into %s' % (terms.show(have), m)
            uw, uh = terms.unknowns(want), terms.unknowns(have)
            if uw != uh:
                und = True
            else:
                msg = msg or '`%s<n> %s` is written for %s, but the entry made for what is put into %s is %s%s' % (
                    lit, o, terms.show(have), m, lit, terms.show(want))
    if und:
        return '?', ''
    return 'bad', msg


def handed(facts, r, w):
    """every function that takes the stream out of the formatter of a draw context has the resource dictionary written on every such path"""
    for f in repo_fns(facts):
        if f.cls != DC or f.body is None or f.is_lambda:
            continue
        takes = [n for n in all_nodes(f) if n.k == 'CXXMemberCallExpr' and n.cls == csim.CSF and n.n == 'steal']
        if not takes:
            continue

        class C(p31.Flag):
            def inline(self, st, call, g, ctx):
                return g.body is not None and g.cls == DC and g.key != w.key and ctx.depth < 6

        def effect(n):
            if n.k in CALLS and n.f == w.key:
                return 'dict'
            if n.k == 'CXXMemberCallExpr' and n.cls == csim.CSF and n.n == 'steal':
                return 'stream'
            return None
        ex = Explorer(facts, C(facts, lambda x, t: None, effect), cap=2000)
        outs = [st for k, st in ex.run(f, frozenset()) if k != ERR]
        bad = [st for st in outs if 'stream' in st and 'dict' not in st]
        if bad:
            r.bad('handed', f.loc, f, f.n, 'a content stream can be handed out without its resource dictionary')
        else:
            r.ok('handed', '%s (%d successful ways out)' % (f.n, len(outs)), f)
