"""P12: handing a draw context over is checked, and leaves the context blank."""
from ..facts import CALLS, CTORS, AnalysisBroken, rel
from ..util import strip_casts, all_nodes, callee, repo_fns, ancestors, lambda_fns
from ..flow import Explorer, Client, ERR, is_expected
from ..origins import clean
from .. import csim
from .p02 import Swallow

META = {
    'title': 'A draw context is checked when it is added and is blank afterwards',
    'statement': 'Adding a draw context to a document (as a page, form XObject, transparency group or tiling pattern) succeeds only if the '
                 'context was made for that same document, is of the kind asked for and has no level (q, BT, marked content) open. After a '
                 'successful add nothing that was drawn, recorded or set on the context before (content, nesting, used resources, '
                 'annotations, structure items, transition, sub-page navigation, viewports, page properties, group matrix) shows up in or '
                 'influences what is drawn with the same context next.',
    'over': ['histories', 'inputs'],
    'qtext': 'every sequence of drawing calls, adds and reuses of draw contexts of every kind',
    'why': 'Tests use a context once, or reuse it with similar content; a field that is not reset shows only when an earlier page used a '
           'feature that a later page does not.',
    'files': ['src/drawcontext.cpp', 'src/drawcontext.hpp', 'src/commandstreamformatter.cpp', 'src/generator.cpp', 'src/document.cpp'],
    'mechanism': [('PdfDrawContext::clear', 'src/drawcontext.cpp'), ('CommandStreamFormatter::clear', 'src/commandstreamformatter.cpp'),
                  ('PdfGen::add_page, add_form_xobject', 'src/generator.cpp'),
                  ('add_tiling_pattern, add_transparency_group', 'src/document.cpp')],
    'technique': 'effect analysis (every field some method changes must be reset on every path of clear()) and path-sensitive typestate '
                 'over each adding call: checked, serialized, used up, cleared',
    'level_note': 'Fields are compared by name, not by content: a reset is clear(), reset() or assigning a blank value.',
}

DC = 'capypdf::internal::PdfDrawContext'
CSF = csim.CSF
ADDS = {'capy_generator_add_page': 'CAPY_DC_PAGE', 'capy_generator_add_form_xobject': 'CAPY_DC_FORM_XOBJECT',
        'capy_generator_add_transparency_group': 'CAPY_DC_TRANSPARENCY_GROUP', 'capy_generator_add_tiling_pattern': 'CAPY_DC_COLOR_TILING'}
READS = {'begin', 'end', 'cbegin', 'cend', 'find', 'at', 'empty', 'size', 'front', 'back', 'data', 'value', 'has_value', 'get', 'contains',
         'count', 'operator->', 'operator*', 'operator[]', 'operator bool', 'c_str', 'rbegin', 'rend', 'value_or', 'length'}


def own(n, cls):
    x = strip_casts(n)
    return x.n if x is not None and x.k == 'MemberExpr' and x.dk == 'field' and x.cls == cls else None


def local_init(f, v):
    """the initialiser of a local that is never written again (or None)"""
    for n in all_nodes(f):
        if n.k == 'DeclStmt':
            for d in n.a.get('d', ()):
                if d['v'] == v:
                    return strip_casts(d['i']) if d.get('i') is not None else None
    return None


def root_field(n, cls):
    """the field of the class an lvalue is in (a.b.c -> a)"""
    x = strip_casts(n)
    for _ in range(20):
        if x is None:
            return None
        if x.k == 'MemberExpr' and x.dk == 'field':
            if x.cls == cls:
                return x.n
            x = strip_casts(x.c[0]) if x.c else None
        elif x.k == 'CXXMemberCallExpr' and x.obj is not None:
            x = strip_casts(x.obj)
        elif x.k in ('CXXOperatorCallExpr', 'ArraySubscriptExpr', 'UnaryOperator') and x.c:
            x = strip_casts(x.c[0])
        else:
            return None
    return None


def mutations(facts, cls):
    """{field: [(fn, node)]} over every function that is not a constructor or destructor of the class"""
    out = {}

    def hit(f, n, m):
        if m is not None:
            out.setdefault(m, []).append((f, n))
    for f in repo_fns(facts):
        if f.cls == cls and (f.n == cls.split('::')[-1] or f.n.startswith('~')):
            continue
        for n in all_nodes(f):
            k = n.k
            if (k == 'BinaryOperator' and n.op == '=') or k == 'CompoundAssignOperator' or (k == 'CXXOperatorCallExpr' and n.op and
                    n.op.endswith('=') and n.op not in ('==', '!=', '<=', '>=')):
                if n.c:
                    hit(f, n, root_field(n.c[0], cls) if 'const ' not in (strip_casts(n.c[0]).t or '')[:6] else None)
            elif k == 'UnaryOperator' and n.op in ('++', '--'):
                hit(f, n, root_field(n.c[0], cls))
            elif k == 'CXXMemberCallExpr' and n.obj is not None and not n.a.get('cst') and n.n not in READS:
                m = own(n.obj, cls)
                if m is not None and not (strip_casts(n.obj).t or '').endswith('*'):
                    hit(f, n, m)
            if k in CALLS or k in CTORS:
                g = facts.fns.get(n.f) if n.f else None
                if k == 'CallExpr' and n.q in ('std::move', 'std::exchange', 'std::swap'):
                    for a in n.c:
                        if a is not None:
                            hit(f, n, own(a, cls))
                elif g is not None:
                    for p, a in zip(g.params, n.c[1:] if k == 'CXXOperatorCallExpr' and g.cls else n.c):
                        t = p['t']
                        if a is not None and t.endswith('&') and not t.startswith('const ') and not t.endswith('&&'):
                            hit(f, n, own(a, cls))
    return out


def blank(x):
    """true / false / None (not known): is this the blank value of its type"""
    x = strip_casts(x)
    if x is None:
        return None
    while x.k in ('MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ExprWithCleanups', 'CXXFunctionalCastExpr') and x.c:
        x = strip_casts(x.c[0])
    if x.k in CTORS or x.k == 'CXXTemporaryObjectExpr':
        a = [y for y in x.c if y is not None and y.k != 'CXXDefaultArgExpr']
        if not a:
            return True
        if len(a) == 1:
            return blank(a[0])
        return None
    if x.k == 'InitListExpr':
        return True if not [y for y in x.c if y is not None and y.k not in ('ImplicitValueInitExpr', 'CXXDefaultInitExpr')] else None
    if x.k == 'CXXScalarValueInitExpr' or x.k == 'CXXNullPtrLiteralExpr':
        return True
    if x.k == 'DeclRefExpr' and x.n == 'nullopt':
        return True
    if x.k == 'StringLiteral':
        return not x.s
    if x.k == 'CXXBoolLiteralExpr' or x.cvi() is not None:
        return not x.cvi()
    return None


class Reset(Client):
    def __init__(self, facts, cls):
        self.facts, self.cls = facts, cls
        self.ec = Swallow(facts)

    def inline(self, st, call, g, ctx):
        return g.cls == self.cls and g.body is not None and ctx.depth < 8

    def on_node(self, st, n, ctx):
        if n.k == 'CXXMemberCallExpr' and n.obj is not None:
            m = own(n.obj, self.cls)
            if m is not None:
                if n.n in ('clear', 'reset') and not [a for a in n.c if a is not None and a.k != 'CXXDefaultArgExpr']:
                    return [frozenset(x for x in st if x[1] != m) | {('blank', m)}]
                if n.n in ('resize', 'assign', 'swap', 'erase', 'emplace'):
                    return [frozenset(x for x in st if x[1] != m) | {('?', m)}]
            if n.n == 'swap':
                for a in n.c:
                    m = own(a, self.cls) if a is not None else None
                    if m is not None:
                        return [frozenset(x for x in st if x[1] != m) | {('?', m)}]
        if n.k == 'BinaryOperator' and n.op == '=' or n.k == 'CXXOperatorCallExpr' and n.op == '=' and len(n.c) == 2:
            m = own(n.c[0], self.cls)
            if m is not None:
                b = blank(n.c[1])
                return [frozenset(x for x in st if x[1] != m) | {('blank' if b else 'set' if b is False else '?', m)}]
            x = strip_casts(n.c[0])
            if x is not None and clean(x.t) == self.cls and '*' not in (x.t or ''):
                return [frozenset(st | {('all', '*')})]
        if n.k == 'CallExpr' and n.q in ('std::exchange', 'std::swap'):
            for a in n.c:
                m = own(a, self.cls) if a is not None else None
                if m is not None:
                    return [frozenset(x for x in st if x[1] != m) | {('?', m)}]
        return None

    def classify_return(self, st, val, env, ctx):
        return self.ec.classify_return(None, val, env, ctx)


class Add(Client):
    """what has been established of, and done to, the draw context on a path"""
    def __init__(self, facts, ser, clr):
        self.facts, self.ser, self.clr = facts, ser, clr
        self.ec = Swallow(facts)
        self.odd = False
        self.touch = self.touching()

    def touching(self):
        out = set()
        for f in repo_fns(self.facts):
            if any(clean(p['t']).rstrip(' *') == DC for p in f.params) or f.cls == DC and f.body is not None:
                out.add(f.key)
        callers = {}
        for f in repo_fns(self.facts):
            for n in all_nodes(f):
                if n.f in self.ser or n.f in self.clr:
                    out.add(f.key)
        return out

    def inline(self, st, call, g, ctx):
        if g.body is None or g.key in self.ser or g.key in self.clr or ctx.depth > 10:
            return False
        if call.k == 'CXXMemberCallExpr' and call.cls == DC and call.a.get('cst') and not is_expected(g.rt):
            return False
        return g.key in self.touch and not g.externc and (g.cls != DC or g.n not in ('serialize', 'clear'))

    def enter(self, st, call, g, ctx):
        before = st
        st = frozenset(x for x in st if x[0] != 'par')
        args = call.c[1:] if call.k == 'CXXOperatorCallExpr' and g.cls else call.c
        for p, a in zip(g.params, args):
            y = strip_casts(a) if a is not None else None
            if y is None:
                continue
            v = y.n if y.k == 'DeclRefExpr' and y.dk == 'enumc' else '=kind' if self.kindof(ctx.fn, y) else '=doc' if self.docof(ctx.fn, y) else None
            if v is None and y.k == 'DeclRefExpr' and y.v is not None:
                v = next((x[2] for x in before if x[0] == 'par' and x[1] == (ctx.fn.tu, y.v)), None)
            if v is not None:
                st = frozenset(st | {('par', (g.tu, p['v']), v)})
        return st

    def leave(self, before, after, call, g, ctx):
        return frozenset(x for x in after if x[0] != 'par') | frozenset(x for x in before if x[0] == 'par')

    def docof(self, f, y, depth=0):
        if y.k == 'CXXMemberCallExpr' and y.n == 'get_doc' or y.k == 'MemberExpr' and y.cls == DC and y.n == 'doc':
            return True
        if y.k == 'UnaryOperator' and y.op in ('&', '*') and y.c:
            z = strip_casts(y.c[0])
            return z is not None and self.docof(f, z, depth)
        if y.k == 'DeclRefExpr' and y.v is not None and depth < 4:
            i = local_init(f, y.v)
            return i is not None and self.docof(f, i, depth + 1)
        return False

    def on_branch(self, st, cond, truth, ctx):
        for f, x, tr, b in csim.implied(self.facts, ctx.fn, cond, truth):
            v = self.test(f, x, tr, st)
            if v is not None:
                if v[0] == 'type' and any(y[0] == 'type' and y != v for y in st):
                    return None
                st = frozenset(st | {v})
        return st

    def test(self, f, x, truth, st):
        if x.k == 'CXXMemberCallExpr' and x.n == 'has_unclosed_state':
            return None if truth else ('closed', '')
        if not (x.k in ('BinaryOperator', 'CXXOperatorCallExpr', 'CXXRewrittenBinaryOperator') and x.op in ('==', '!=') and len(x.c) == 2):
            return None
        if (x.op == '==') != truth:
            return None
        for a, b in ((x.c[0], x.c[1]), (x.c[1], x.c[0])):
            y, z = strip_casts(a), strip_casts(b)
            if y is None or z is None:
                continue
            if self.docof(f, y) or self.val(f, y, st) == '=doc':
                return ('doc', '')
            if self.kindof(f, y) or self.val(f, y, st) == '=kind':
                v = self.val(f, z, st)
                if v is not None and v[0] != '=':
                    return ('type', v)
        return None

    def val(self, f, y, st):
        if y.k == 'UnaryOperator' and y.op in ('&', '*') and y.c:
            y = strip_casts(y.c[0])
        if y is not None and y.k == 'DeclRefExpr':
            if y.dk == 'enumc':
                return y.n
            if y.v is not None:
                return next((x[2] for x in st if x[0] == 'par' and x[1] == (f.tu, y.v)), None)
        return None

    def kindof(self, f, y):
        if y.k == 'CXXMemberCallExpr' and y.n == 'draw_context_type' or y.k == 'MemberExpr' and y.cls == DC and y.n == 'context_type':
            return True
        if y.k == 'DeclRefExpr' and y.v is not None:
            i = local_init(f, y.v)
            return i is not None and self.kindof(f, i)
        return False

    def on_node(self, st, n, ctx):
        if n.k in CALLS and n.f in self.ser:
            return [frozenset(x for x in st if x[0] not in ('cleared', 'stale')) | {('ser', '')}]
        if n.k in CALLS and n.f in self.clr:
            return [frozenset(st | {('cleared', '')})]
        if ('ser', '') in st:
            if n.k == 'DeclStmt':
                for d in n.a.get('d', ()):
                    if d.get('ref') and d.get('i') is not None:
                        x = strip_casts(d['i'])
                        if x is not None and self.getter(x):
                            st = frozenset(st | {('ref', (ctx.fn.tu, d['v']))})
                return [st]
            if ('cleared', '') in st and ctx.fn.cls != DC:
                if n.k == 'DeclRefExpr' and ('ref', (ctx.fn.tu, n.v)) in st:
                    return [frozenset(st | {('stale', n.n)})]
                if self.getter(n) and n.n not in ('get_doc', 'draw_context_type', 'has_unclosed_state', 'marked_content_depth', 'get_w', 'get_h'):
                    return [frozenset(st | {('stale', n.n)})]
        return None

    def getter(self, x):
        return x.k == 'CXXMemberCallExpr' and x.cls == DC and bool(x.a.get('cst'))

    def classify_return(self, st, val, env, ctx):
        return self.ec.classify_return(None, val, env, ctx)


def run(facts, r):
    r.rule('reset', 'every field of the draw context (and of its content formatter) that any method changes is reset on every path of clear()', 12)
    r.rule('blank', 'every add that took the content of a context clears the context before it reports success, after its last use of it', 2)
    r.rule('checked', 'every add establishes, before it succeeds, that the context belongs to the document, is of its kind and has no open level', 6)
    for cls in (DC, CSF):
        muts = mutations(facts, cls)
        cl = [f for f in repo_fns(facts) if f.cls == cls and f.n == 'clear' and f.body is not None]
        if not cl:
            raise AnalysisBroken('%s::clear was not found' % cls)
        f = cl[0]
        outs = [st for k, st in Explorer(facts, Reset(facts, cls), cap=2000).run(f, frozenset())]
        muts = {m: [(g, n) for g, n in l if g.key != f.key] for m, l in muts.items()}
        for m, sites in sorted(muts.items()):
            if not sites:
                continue
            g, n = sites[0]
            bad = [st for st in outs if not any(x[1] == m and x[0] in ('blank', '?') or x[0] == 'all' for x in st)]
            und = any(('?', m) in st for st in outs)
            ff = [x for x in facts.records[cls]['fields'] if x['n'] == m]
            if ff and 'back_insert_iterator' in ff[0]['t']:
                continue
            if bad:
                what = 'is set to something that is not blank' if any(('set', m) in st for st in bad) else 'is not reset'
                r.bad('reset', f.loc, f, m, 'the field %s, which %s changes (%s:%d), %s by clear(): what one page recorded shows up in the next' % (
                    m, g.n, rel(g.file), n.l, what))
            elif und:
                r.count('fields reset in a way that is not followed')
            else:
                r.ok('reset', '%s::%s (changed in %d places)' % (cls.split('::')[-1], m, len(sites)), f)
    ser = {f.key for f in repo_fns(facts) if f.cls == DC and any(n.k == 'CXXMemberCallExpr' and n.cls == CSF and n.n == 'steal' for n in all_nodes(f))}
    clr = {f.key for f in repo_fns(facts) if f.cls == DC and f.n == 'clear'}
    steal_checked = closed_by_steal(facts)
    for api, kind in sorted(ADDS.items()):
        fs = facts.by_q.get(api)
        if not fs or fs[0].body is None:
            continue
        f = fs[0]
        c = Add(facts, ser, clr)
        try:
            outs = [(k, st) for k, st in Explorer(facts, c, cap=4000).run(f, frozenset())]
        except AnalysisBroken:
            r.count('adds too large to follow')
            continue
        good = [st for k, st in outs if k != ERR and ('ser', '') in st]
        if not good:
            r.count('adds that do not take the content in a recognised way')
            continue
        switched = any(b.tk == 'SwitchStmt' for k in Explorer_fns(facts, c, f) for b in (facts.fns[k].cfg.blocks.values() if facts.fns[k].cfg else ()))
        if any(('cleared', '') not in st for st in good):
            r.bad('blank', f.loc, f, api, 'a successful %s leaves the draw context as it was: its resources, settings and records show up in what is '
                  'drawn with it next' % api)
        elif any(x[0] == 'stale' for st in good for x in st):
            what = sorted(x[1] for st in good for x in st if x[0] == 'stale')[0]
            r.bad('blank', f.loc, f, api, '%s is used after the context was cleared' % what)
        else:
            r.ok('blank', api, f)
        if any(('doc', '') not in st for st in good):
            r.bad('checked', f.loc, f, api + ':document', '%s can succeed with a draw context of another document' % api)
        else:
            r.ok('checked', api + ': document', f)
        if any(('type', kind) not in st for st in good):
            if switched:
                r.count('kinds checked in a way that is not followed')
            else:
                r.bad('checked', f.loc, f, api + ':kind', '%s can succeed with a draw context of another kind than %s' % (api, kind))
        else:
            r.ok('checked', api + ': kind', f)
        if not steal_checked and any(('closed', '') not in st for st in good):
            r.bad('checked', f.loc, f, api + ':level', '%s can succeed while a level is open' % api)
        else:
            r.ok('checked', api + ': no open level', f)


def Explorer_fns(facts, client, f):
    """functions the client would follow"""
    out, work = set(), [f]
    while work:
        g = work.pop()
        if g.key in out or g.body is None:
            continue
        out.add(g.key)
        for n in all_nodes(g):
            h = facts.fns.get(n.f) if n.f else None
            if h is not None and h.key in client.touch and not h.externc and h.key not in client.ser:
                work.append(h)
    return out


def closed_by_steal(facts):
    """taking the content out of the formatter fails while a level is open"""
    fs = [f for f in repo_fns(facts) if f.cls == CSF and f.n == 'steal' and f.body is not None]
    if not fs:
        return False
    from .p31 import Flag

    def test(x, truth):
        if x.k == 'CXXMemberCallExpr':
            o = strip_casts(x.obj) if x.obj is not None else None
            if x.n == 'empty' and o is not None and o.k == 'MemberExpr' and o.cls == CSF and o.n == 'stack':
                return 'closed' if truth else 'open'
            if x.n == 'has_unclosed_state':
                return 'open' if truth else 'closed'
        return None
    return all('closed' in st for k, st in Explorer(facts, Flag(facts, test), cap=2000).run(fs[0], frozenset()) if k != ERR)
