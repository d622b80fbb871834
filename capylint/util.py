"""Queries over the resolved program."""
from .facts import CALLS, CTORS, rel

WRAP_CASTS = {'CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'CXXConstCastExpr', 'CXXReinterpretCastExpr'}


def ancestors(n):
    p = n.parent
    while p is not None:
        yield p
        p = p.parent


def strip_casts(n):
    """through value-preserving wrappers: explicit casts, copy/move construction, std::move"""
    while n is not None:
        if n.k in WRAP_CASTS and n.c:
            n = n.c[0]
        elif n.k in CTORS and n.cm and len(n.c) == 1:
            n = n.c[0]
        elif n.k == 'CallExpr' and n.q in ('std::move', 'std::forward', 'std::as_const') and len(n.c) == 1:
            n = n.c[0]
        elif n.k == 'CXXDefaultArgExpr' and n.c:
            n = n.c[0]
        else:
            break
    return n


def callee(facts, n):
    f = n.f
    return facts.fns.get(f) if f else None


def calls_in(fn_or_node):
    it = fn_or_node.walk() if hasattr(fn_or_node, 'walk') else all_nodes(fn_or_node)
    for n in it:
        if n.k in CALLS:
            yield n


def all_nodes(fn):
    """every node of a function, constructor initialisers included"""
    for i in fn.inits:
        if i.get('i') is not None:
            yield from i['i'].walk()
    if fn.body is not None:
        yield from fn.body.walk()


def aliases(fn):
    """reference locals / bindings -> the node they denote"""
    if fn._alias is None:
        al = {}
        for n in all_nodes(fn):
            if n.k == 'DeclStmt':
                for d in n.a.get('d', ()):
                    if d.get('ref') and d.get('i') is not None:
                        al[d['v']] = d['i']
        fn._alias = al
    return fn._alias


def path(n, fn=None, al=None):
    """access path of an lvalue-ish expression as a tuple, or None.
    roots: ('v', id) or ('this',) or ('g', name); then field names / '*' / '[]' / '.value'"""
    if al is None and n is not None and n.fn is not None:
        al = aliases(n.fn)
    al = al or {}
    n = strip_casts(n)
    if n is None:
        return None
    if n.k == 'DeclRefExpr':
        if n.dk in ('local', 'param', 'binding'):
            v = n.v
            if v in al:
                p = path(al[v], al=al)
                if p is not None:
                    return p
            return (('v', v),)
        if n.dk == 'global':
            return (('g', n.q),)
        return None
    if n.k == 'CXXThisExpr':
        return (('this',),)
    if n.k == 'MemberExpr':
        if n.dk != 'field':
            return None
        b = path(n.c[0], al=al) if n.c else None
        return b + (n.n,) if b is not None else None
    if n.k == 'UnaryOperator' and n.op in ('*', '&'):
        b = path(n.c[0], al=al)
        if b is None:
            return None
        if n.op == '&':
            return b
        return b
    if n.k == 'CXXOperatorCallExpr' and n.op in ('*', '->') and len(n.c) == 1:
        b = path(n.c[0], al=al)
        return b + ('*',) if b is not None and is_box(n.c[0].t) else b
    if n.k == 'CXXMemberCallExpr':
        if n.n in ('value', 'get', 'operator->', 'operator*') and n.obj is not None and not n.c:
            b = path(n.obj, al=al)
            return b + ('*',) if b is not None and is_box(n.obj.t) else b
        if n.n in ('back', 'front') and n.obj is not None:
            b = path(n.obj, al=al)
            return b + ('[]',) if b is not None else None
        if n.n == 'at' and n.obj is not None:
            b = path(n.obj, al=al)
            return b + ('[]',) if b is not None else None
    if n.k == 'CXXOperatorCallExpr' and n.op == '[]':
        b = path(n.c[0], al=al)
        return b + ('[]',) if b is not None else None
    if n.k == 'ArraySubscriptExpr':
        b = path(n.c[0], al=al)
        return b + ('[]',) if b is not None else None
    return None


def is_box(t):
    t = (t or '').replace('const ', '')
    return t.startswith('std::expected<') or t.startswith('std::optional<')


def pstr(p):
    if p is None:
        return '?'
    out = []
    for x in p:
        if isinstance(x, tuple):
            out.append('this' if x[0] == 'this' else ('v%d' % x[1] if x[0] == 'v' else x[1]))
        else:
            out.append(x)
    return '.'.join(out)


def canon(n):
    """canonical text of a side-effect-free expression, or None"""
    if n is None:
        return None
    n = strip_casts(n)
    if n.cv is not None and n.k not in ('DeclRefExpr',):
        return n.cv
    if n.k == 'DeclRefExpr' and n.dk == 'enumc':
        return n.cv
    p = path(n)
    if p is not None:
        return pstr(p)
    if n.k in ('BinaryOperator', 'CXXRewrittenBinaryOperator') and n.op in ('==', '!=', '<', '>', '<=', '>=', '&&', '||', '+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>'):
        a, b = canon(n.c[0]), canon(n.c[1])
        if a is None or b is None:
            return None
        op = n.op
        if op in ('>', '>='):
            a, b, op = b, a, {'>': '<', '>=': '<='}[op]
        if op in ('==', '!=') and a > b:
            a, b = b, a
        return '(%s %s %s)' % (a, op, b)
    if n.k == 'CXXOperatorCallExpr' and n.op in ('==', '!=', '<', '>', '<=', '>='):
        a, b = canon(n.c[0]), canon(n.c[1])
        if a is None or b is None:
            return None
        return '(%s %s %s)' % (a, n.op, b)
    if n.k == 'UnaryOperator' and n.op in ('!', '-', '~'):
        a = canon(n.c[0])
        return None if a is None else '%s%s' % (n.op, a)
    if n.k == 'CXXMemberCallExpr' and n.cst:
        o = canon(n.obj)
        if o is None:
            return None
        nm = n.n
        if nm in ('operator bool', 'has_value'):
            return ('ok(%s)' if 'std::expected<' in (n.obj.t or '')[:24] else 'has(%s)') % o
        args = [canon(x) for x in n.c]
        if any(a is None for a in args):
            return None
        return '%s.%s(%s)' % (o, nm, ','.join(args))
    if n.k == 'CallExpr' and n.n in ('get_if', 'holds_alternative') and len(n.c) == 1:
        a = canon(n.c[0])
        return None if a is None else '%s<%s>(%s)' % (n.n, n.t if n.n == 'get_if' else n.f, a)
    return None


def root_of(p):
    return p[0] if p else None


def split_not(n):
    """(inner condition, polarity)"""
    pol = True
    n = strip_casts(n)
    while n is not None and n.k == 'UnaryOperator' and n.op == '!':
        pol = not pol
        n = strip_casts(n.c[0])
    return n, pol


def branch_cond(b):
    """the condition node decided at the end of a CFG block with two successors"""
    c = b.cond
    if c is None:
        return None
    if b.tk == 'BinaryOperator' and b.term is not None and b.term.op in ('&&', '||'):
        # the block ends by deciding the left operand
        return rightmost(b.term.c[0])
    return rightmost(c)


def rightmost(c):
    c = strip_parens(c)
    while c is not None and c.k == 'BinaryOperator' and c.op in ('&&', '||'):
        c = strip_parens(c.c[1])
    return c


def strip_parens(c):
    return c


def lambda_fns(facts, n):
    """functions of the lambdas written inside an expression"""
    out = []
    for x in n.walk():
        if x.k == 'LambdaExpr':
            for key in x.a.get('lam', ()):
                f = facts.fns.get(key)
                if f is not None:
                    out.append(f)
    return out


def lit_str(n):
    """string literal value of an expression (through string/string_view construction)"""
    n = strip_casts(n)
    while n is not None:
        if n.k == 'StringLiteral':
            return n.s
        if n.k in CTORS and len([x for x in n.c if x is not None]) >= 1:
            n = strip_casts(n.c[0])
            continue
        if n.k == 'UserDefinedLiteral' and n.c:
            n = strip_casts(n.c[0])
            continue
        if n.k == 'CXXMemberCallExpr' and n.n and n.n.startswith('operator ') and n.obj is not None:
            n = strip_casts(n.obj)
            continue
        return None
    return None


def reachable(facts, roots):
    """call-graph closure over resolved callees (lambdas count as called by their creator)"""
    seen = {}
    st = list(roots)
    for r in roots:
        seen[r.key] = None
    while st:
        f = st.pop()
        for g in direct_callees(facts, f):
            if g.key not in seen:
                seen[g.key] = f.key
                st.append(g)
    return seen


def direct_callees(facts, f):
    for n in all_nodes(f):
        if n.k in CALLS or n.k in CTORS:
            g = facts.fns.get(n.f) if n.f else None
            if g is not None:
                yield g
        elif n.k == 'LambdaExpr':
            for key in n.a.get('lam', ()):
                g = facts.fns.get(key)
                if g is not None:
                    yield g
        elif n.k == 'DeclRefExpr' and n.dk == 'fn':
            g = facts.fns.get(n.f)
            if g is not None:
                yield g


def repo_fns(facts, dep=False):
    for f in facts.fns.values():
        if f.dep and not dep:
            continue
        yield f


def src_fns(facts, files=None):
    for f in repo_fns(facts):
        r = rel(f.file)
        if not r.startswith('src/'):
            continue
        if files is None or r in files:
            yield f


def dtor_index(facts):
    """record -> destructors (written in the repository) run when an object of it dies"""
    d = {}
    for f in facts.fns.values():
        if f.dtor and f.cls:
            d.setdefault(f.cls, []).append(f)
    return d


def reachable_all(facts, roots):
    """call-graph closure that also follows destructors of objects created on the way"""
    dt = dtor_index(facts)
    names = sorted(dt)

    def dtors_of_type(t):
        for c in names:
            if t and c in t:
                yield from dt[c]
    seen = {}
    st = list(roots)
    for x in roots:
        seen[x.key] = None

    def add(g, f):
        if g.key not in seen:
            seen[g.key] = f.key
            st.append(g)
    while st:
        f = st.pop()
        for g in direct_callees(facts, f):
            add(g, f)
        for n in all_nodes(f):
            if n.k in CTORS or n.k == 'InitListExpr':
                for g in dtors_of_type(n.t):
                    add(g, f)
                if n.t in facts.records:
                    for fl in facts.records[n.t]['fields']:
                        for g in dtors_of_type(fl['t']):
                            add(g, f)
            elif n.k in ('CXXDeleteExpr', 'CXXNewExpr'):
                for g in dtors_of_type(n.at):
                    add(g, f)
            elif n.k == 'DeclStmt':
                for d in n.a.get('d', ()):
                    for g in dtors_of_type(d['t']) if not (d['t'] or '').endswith(('*', '&')) else ():
                        add(g, f)
    return seen


def api_roots(facts):
    return [f for f in repo_fns(facts) if f.externc and rel(f.file).startswith('src/')]
