"""P03: output parameters are written exactly on success."""
from ..facts import CALLS, CTORS, rel
from ..util import all_nodes, callee, strip_casts, api_roots, path, canon
from ..flow import Explorer, Client, OK, ERR, ANY, is_expected
from .p02 import Swallow

META = {
    'title': 'Output parameters are written exactly when a C call succeeds',
    'statement': 'Every C API call that reports success has written all of its output parameters, and every call that reports an '
                 'error has left all of them as they were.',
    'over': ['inputs'],
    'qtext': 'every C API function with output parameters, on every path through it',
    'why': 'Tests look at outputs only after successful calls with ordinary arguments.',
    'files': ['src/capi.cpp'],
    'mechanism': [('output stores after the error check', 'src/capi.cpp')],
    'technique': 'path-sensitive dataflow on output pointer stores per exit kind, inlined through helpers',
    'level_note': 'Exhaustive over C entry points and their CFG paths; output parameters are recognised by type and use.',
}


SCALARS = {'int', 'double', 'float', 'unsigned int', 'long', 'unsigned long', 'short', 'char', 'bool', 'unsigned char'}


def is_out(facts, p, fn):
    t = p['t']
    if not t.endswith('*'):
        return False
    pointee = t[:-1].strip()
    if pointee.startswith('const ') and not pointee.endswith('*'):
        return False
    if pointee.endswith('*'):
        return not pointee.startswith('const ')
    if (pointee in SCALARS and pointee != 'char') or (pointee.endswith('Id') and pointee in facts.records) or \
            pointee in facts.enums:
        # an array or optional input is read (indexed, dereferenced, passed on) and never stored into
        return not only_read(fn, p)
    return False


def only_read(fn, p):
    reads = writes = 0
    for n in all_nodes(fn):
        if n.k == 'DeclRefExpr' and n.v == p['v']:
            c, q = n, n.parent
            while q is not None and (q.k in ('UnaryOperator', 'ArraySubscriptExpr', 'MemberExpr') and q.op in ('*', None)
                                     and (q.k != 'ArraySubscriptExpr' or q.c[0] is c)):
                c, q = q, q.parent
            if q is not None and ((q.k in ('BinaryOperator', 'CompoundAssignOperator') and q.op.endswith('=')
                                   and q.op not in ('==', '!=', '<=', '>=')) or
                                  (q.k == 'CXXOperatorCallExpr' and q.op == '=')) and q.c[0] is c and c is not n:
                writes += 1
            else:
                reads += 1
    return reads > 0 and writes == 0


class Out(Client):
    """state: (frozenset of (vid, role) bindings, frozenset of written roles)"""

    def __init__(self, facts):
        self.facts = facts
        self.ec = Swallow(facts)

    def role(self, st, n):
        n = strip_casts(n)
        if n is not None and n.k == 'DeclRefExpr' and n.v is not None:
            for v, role in st[0]:
                if v == n.v:
                    return role
        return None

    def target(self, st, lhs):
        """role written by an assignment to lhs"""
        n = strip_casts(lhs)
        while n is not None:
            if n.k == 'UnaryOperator' and n.op == '*':
                return self.role(st, n.c[0])
            if n.k == 'ArraySubscriptExpr':
                return self.role(st, n.c[0])
            if n.k == 'MemberExpr' and n.c:
                if n.arrow:
                    return self.role(st, n.c[0])
                n = strip_casts(n.c[0])
                continue
            return None
        return None

    def on_node(self, st, n, ctx):
        role = None
        if n.k == 'BinaryOperator' and n.op == '=':
            role = self.target(st, n.c[0])
        elif n.k == 'CXXOperatorCallExpr' and n.op == '=':
            role = self.target(st, n.c[0])
        elif n.k == 'CompoundAssignOperator':
            role = self.target(st, n.c[0])
        elif n.k in CALLS:
            for a in n.c:
                x = self.role(st, a) if a is not None else None
                if x is not None and n.n not in ('operator bool',):
                    role = x
        if role is not None:
            return [(st[0], st[1] | {role})]
        return None

    def inline(self, st, call, fn, ctx):
        return fn.cfg is not None and any(a is not None and self.role(st, a) is not None for a in call.c)

    def enter(self, st, call, fn, ctx):
        b = set()
        for p, a in zip(fn.params, call.c):
            role = self.role(st, a) if a is not None else None
            if role is not None:
                b.add((p['v'], role))
        return (frozenset(b), st[1])

    def leave(self, before, after, call, fn, ctx):
        return (before[0], after[1])

    def classify_return(self, st, val, env, ctx):
        return self.ec.classify_return(None, val, env, ctx)


def run(facts, r):
    r.rule('success-writes', 'on every path of a C function that can report NoError each output parameter has been '
                             'written', 70)
    r.rule('error-keeps', 'on no path of a C function that can report an error has an output parameter been written', 70)
    for fn in sorted(api_roots(facts), key=lambda f: f.l):
        outs = [p for p in fn.params if is_out(facts, p, fn)]
        if not outs or fn.cfg is None:
            continue
        cl = Out(facts)
        st = (frozenset((p['v'], p['n']) for p in outs), frozenset())
        # parameters of opaque type that are never written are inputs (arrays of handles)
        exits = Explorer(facts, cl).run(fn, st)
        for p in outs:
            r.ok('success-writes', '%s %s(%s)' % (fn.loc, fn.n, p['n']), fn)
            r.ok('error-keeps', '%s %s(%s)' % (fn.loc, fn.n, p['n']), fn)
            if any(k in (OK, ANY) and p['n'] not in s[1] for k, s in exits):
                r.bad('success-writes', fn.loc, fn, p['n'], 'a path can report success without having written *%s' % p['n'])
            if any(k in (ERR, ANY) and p['n'] in s[1] for k, s in exits):
                r.bad('error-keeps', fn.loc, fn, p['n'], 'a path can report an error after *%s was written' % p['n'])
