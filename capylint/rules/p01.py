"""P01: exceptions stop at the C boundary."""
from ..facts import CALLS, CTORS, rel
from ..util import all_nodes, callee, repo_fns, ancestors, strip_casts, reachable_all, api_roots

META = {
    'title': 'No exception ever crosses the C API',
    'statement': 'No call of any C API function, with any arguments and in any state, lets a C++ exception leave the library or '
                 'terminates the process because an exception met a function that may not throw. Every failure, including running '
                 'out of memory and a lookup or conversion inside the standard library that throws, comes back as an error code.',
    'over': ['inputs', 'fault_sequences'],
    'qtext': 'every C API function, argument values, document state and allocation failure',
    'why': 'Tests call each function with a few good values and never make an allocation or lookup throw.',
    'files': ['src/capi.cpp', 'src/errorhandling.hpp', 'src/errorhandling.cpp'],
    'mechanism': [('function-try-blocks of the C entry points', 'src/capi.cpp'), ('handle_exception', 'src/errorhandling.cpp')],
    'technique': 'exception-escape analysis over the call graph with try/catch and noexcept from the clang AST',
    'level_note': 'Exhaustive over the functions reachable from the C entry points, as resolved by clang; calls that leave the '
                  'repository are throwing unless declared noexcept or listed as C.',
}



def in_catch_all(n, fn):
    """is n inside the protected block of a try statement with a catch-all handler (in this function)?"""
    child, p = n, n.parent
    while p is not None:
        if p.k == 'CXXTryStmt' and p.c and p.c[0] is child:
            if any(h is not None and h.k == 'CXXCatchStmt' and h.all for h in p.c[1:]):
                return True
        child, p = p, p.parent
    return False


class Throws:
    def __init__(self, facts):
        self.facts = facts
        self.memo = {}
        self.prog = set()

    def throwing_ops(self, fn):
        """operations of fn through which an exception can leave fn: [(node, why)]"""
        out = []
        for n in all_nodes(fn):
            why = self.op(n)
            if why and not in_catch_all(n, fn):
                out.append((n, why))
        return out

    def op(self, n):
        if n.k == 'CXXThrowExpr':
            return 'throw expression'
        if n.k == 'CXXNewExpr':
            return 'operator new'
        if n.k == 'CXXDeleteExpr' and not n.nt:
            return 'delete of a type whose destructor may throw'
        if n.k in CALLS or n.k in CTORS:
            if n.nt or (n.ec and not n.rp):
                return None
            if not n.f:
                return 'call through a pointer' if n.k in CALLS else None
            g = callee(self.facts, n)
            if g is not None and not g.dep:
                if self.throws(g):
                    return 'call of %s, which can throw' % g.q
                return None
            if n.dft and n.k in CTORS:
                # defaulted constructor: throws only by what its members do; copies allocate
                if n.cm == 'copy':
                    return 'copy of ' + n.q
                return None
            return 'call of ' + (n.q or n.n or '?')
        return None

    def throws(self, g):
        if g.key in self.memo:
            return self.memo[g.key]
        if g.key in self.prog:
            return False
        self.prog.add(g.key)
        r = bool(self.throwing_ops(g))
        self.prog.discard(g.key)
        self.memo[g.key] = r
        return r


class NonZero:
    """can this expression/function only be an error code (never NoError)?"""

    def __init__(self, facts):
        self.facts = facts

    def expr(self, n, env, depth=0):
        n = strip_casts(n)
        if n is None or depth > 8:
            return False
        cv = n.cvi()
        if cv is not None:
            return cv != 0
        if n.k == 'DeclRefExpr':
            if n.v in env:
                return env[n.v]
            return False
        if n.k in CALLS:
            g = callee(self.facts, n)
            if g is None:
                return False
            e = {}
            for p, a in zip(g.params, n.c):
                e[p['v']] = self.expr(a, env, depth + 1)
            return self.fn(g, e, depth + 1)
        if n.k == 'ConditionalOperator':
            return self.expr(n.c[1], env, depth + 1) and self.expr(n.c[2], env, depth + 1)
        return False

    def fn(self, g, env, depth=0, bad=None):
        env = dict(env)
        rets = []
        for n in all_nodes(g):
            if n.k == 'CXXCatchStmt' and n.v is not None:
                # a thrown ErrorCode is an error by construction (checked by rule throw-value)
                env[n.v] = True
            if n.k == 'DeclStmt':
                for d in n.a.get('d', ()):
                    if d.get('i') is not None:
                        env[d['v']] = self.expr(d['i'], env, depth + 1)
        ok = True
        for n in all_nodes(g):
            if n.k == 'ReturnStmt':
                rets.append(n)
                if not n.c or not self.expr(n.c[0], env, depth):
                    ok = False
                    if bad is not None:
                        bad.append(n)
        return ok and bool(rets)


def run(facts, r):
    r.rule('boundary', 'every operation of an extern "C" function through which an exception can leave lies in a try '
                       'block with a catch-all handler; handlers themselves cannot throw', 300)
    r.rule('handler-code', 'what a catch-all handler of a C function returns can never be NoError', 300)
    r.rule('noexcept-body', 'a function declared noexcept (and every destructor) that C functions can reach contains no operation through which '
                            'an exception could leave it (that would terminate the host process)', 3)
    r.rule('throw-value', 'a thrown ErrorCode is never NoError', 0)
    T = Throws(facts)
    NZ = NonZero(facts)
    live = reachable_all(facts, api_roots(facts))
    for fn in repo_fns(facts):
        f = rel(fn.file)
        if not f.startswith('src/'):
            continue
        if fn.externc:
            for n, why in T.throwing_ops(fn):
                r.bad('boundary', n.loc, fn, why, 'an exception thrown by this operation (%s) is not caught inside the '
                      'C function' % why)
            r.ok('boundary', '%s %s' % (fn.loc, fn.n), fn)
            if fn.rts == 'void':
                continue
            for n in all_nodes(fn):
                if n.k == 'CXXCatchStmt':
                    bad = []
                    env = {}
                    if n.v is not None:
                        env[n.v] = True
                    rets = [x for x in n.walk() if x.k == 'ReturnStmt']
                    for x in rets:
                        if not NZ.expr(x.c[0] if x.c else None, env):
                            bad.append(x)
                    if not rets:
                        r.bad('handler-code', n.loc, fn, 'no-return', 'the handler swallows the exception and falls through')
                    for x in bad:
                        r.bad('handler-code', x.loc, fn, 'return', 'the handler can return NoError, so the caller sees success')
                    r.ok('handler-code', '%s %s' % (n.loc, fn.n))
        elif fn.nothrow and not fn.dep and fn.key in live:
            if fn.body is None:
                continue
            ops = T.throwing_ops(fn)
            for n, why in ops:
                r.bad('noexcept-body', n.loc, fn, why, '%s inside a function that must not throw' % why)
            r.ok('noexcept-body', '%s %s' % (fn.loc, fn.q), fn)
        for n in all_nodes(fn):
            if n.k == 'CXXThrowExpr' and n.c and n.c[0] is not None and 'ErrorCode' in (n.c[0].t or ''):
                if not NZ.expr(n.c[0], {}):
                    r.bad('throw-value', n.loc, fn, 'throw', 'throws an ErrorCode that may be NoError')
                else:
                    r.ok('throw-value', n.loc)
