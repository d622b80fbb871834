"""P30: enumerators, booleans and array lengths handed to the C API are range-checked."""
from ..facts import CALLS, CTORS, rel
from ..util import all_nodes, callee, strip_casts, api_roots, path, pstr, canon
from ..flow import Explorer, OK, ERR, ANY
from ..interval import get, put, INF
from ..roles import RoleClient, role_of, add_role, interval_of
from .p02 import Swallow

META = {
    'title': 'Out-of-range enumerators, booleans and array lengths are refused',
    'statement': 'A C API call given an enumeration value outside the enumeration, an integer truth value other than 0 or 1, or a '
                 'negative number of array elements reports an error instead of success, and the bad value is never used to index, '
                 'to size or to read memory.',
    'over': ['inputs'],
    'qtext': 'every C API function with enumeration, truth-value or array-length parameters and every integer value of them',
    'why': 'Tests only pass valid enumerators and true array lengths.',
    'files': ['src/capi.cpp', 'src/drawcontext.cpp', 'src/errorhandling.hpp', 'include/capypdf.h.in'],
    'mechanism': [('CHECK_ENUM_ARG / CHECK_BOOLEAN / CHECK_ARRAY_SIZE', 'src/capi.cpp'),
                  ('CHECK_ENUM', 'src/errorhandling.hpp')],
    'technique': 'interval dataflow of parameters through inlined callees: success exits unreachable for bad values',
    'level_note': 'Every C entry point with such a parameter; bad-value ranges are propagated symbolically as intervals over all '
                  'CFG paths. Bit-flag enumerations are not bounded. Arrays\' true lengths are the caller\'s contract.',
}


class Bad(RoleClient):
    def classify_return(self, st, val, env, ctx):
        return Swallow(self.facts).classify_return(None, val, env, ctx)


def enum_range(e):
    vals = sorted({x[1] for x in e['e'] if not x[0].upper().endswith(('NUM_ITEMS', '_COUNT', '_MAX'))})
    if not vals or vals != list(range(vals[0], vals[0] + len(vals))):
        return None     # bit flags
    return vals[0], vals[-1]


def accepted(facts, fn, keyexpr, p, role, lo, hi):
    st = add_role(frozenset(), p['v'], role)
    st = put(st, keyexpr, lo, hi)
    if keyexpr != 'v%d' % p['v']:
        return any(k in (OK, ANY) for k, s in Explorer(facts, Bad(facts)).run(fn, put(st, keyexpr, lo, hi)))
    return any(k in (OK, ANY) for k, s in Explorer(facts, Bad(facts)).run(fn, st))


class BoolUse(RoleClient):
    def __init__(self, facts, found):
        RoleClient.__init__(self, facts)
        self.found = found

    def use(self, st, n, ctx):
        hit = None
        for x in boolish(n):
            role = role_of(st, x)
            if role is not None:
                hit = (role, x)
                lo, hi = self.eval(st, x)
                self.found.setdefault(role, []).append((lo >= 0 and hi <= 1, n, ctx.fn))
        return None


def boolish(n):
    """operands of n that are turned into a truth value which is stored or passed on"""
    out = []
    tgt = None
    if n.k == 'BinaryOperator' and n.op == '=':
        tgt = n.c[0].t
        ops = [n.c[1]]
    elif n.k == 'CXXOperatorCallExpr' and n.op == '=':
        tgt = n.c[0].t
        ops = n.c[1:]
    elif n.k in CALLS:
        ops = n.c
    elif n.k in CTORS:
        tgt = n.t
        ops = n.c
    elif n.k in ('InitListExpr', 'ReturnStmt'):
        ops = n.c
    elif n.k == 'DeclStmt':
        ops = []
        for d in n.a.get('d', ()):
            if d.get('i') is not None and 'bool' in (d['t'] or ''):
                out.append(d['i'])
    else:
        return ()
    for o in ops:
        if o is None:
            continue
        x = strip_casts(o)
        if x.ick == 'IntegralToBoolean' or o.ick == 'IntegralToBoolean' or \
                (tgt is not None and tgt.replace('const ', '') in ('bool', 'std::optional<bool>')):
            out.append(o)
        elif any(y.k in ('CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr') and y.t == 'bool'
                 for y in chain(o)):
            out.append(o)
    return out


def chain(n):
    while n is not None:
        yield n
        if n.k in ('CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr') and n.c:
            n = n.c[0]
        else:
            return


class LenUse(RoleClient):
    """(pointer, count) uses: the count must be known >= 0"""

    def __init__(self, facts, found):
        RoleClient.__init__(self, facts)
        self.found = found

    def use(self, st, n, ctx):
        if n.k in CALLS or n.k in CTORS:
            g = callee(self.facts, n)
            inl = g is not None and not g.dep and self.inline(st, n, g, ctx)
            for a in n.c:
                if a is None:
                    continue
                role = role_of(st, a)
                if role is not None and role[0] == 's' and (not inl or unsigned_param(g, n, a)):
                    if n.n in ('conv_err',):
                        continue
                    self.note(st, role, a, n, ctx)
        elif n.k == 'BinaryOperator' and n.op in ('+', '-') and (n.t or '').endswith('*'):
            for a in n.c:
                role = role_of(st, a)
                if role is not None and role[0] == 's':
                    self.note(st, role, a, n, ctx)
        return None

    def note(self, st, role, a, n, ctx):
        lo, hi = interval_of(st, role)
        l2, h2 = self.eval(st, a)
        self.found.setdefault(role, []).append((max(lo, l2) >= 0, n, ctx.fn))


def unsigned_param(g, call, a):
    for p, x in zip(g.params, RoleClient.args_of(call, g)):
        if x is a:
            return p['t'].startswith('unsigned')
    return False


def run(facts, r):
    r.rule('enum', 'with an enumeration parameter below or above its enumerators no path reports success', 15)
    r.rule('bool', 'an integer parameter stored as a truth value is known to be 0 or 1 there', 5)
    r.rule('length', 'an array length is known to be non-negative where it sizes or bounds an access', 5)
    for fn in sorted(api_roots(facts), key=lambda f: f.l):
        if fn.cfg is None or fn.rts != 'CapyPDF_EC' and not (fn.rt or '').endswith('CapyPDF_EC'):
            continue
        for i, p in enumerate(fn.params):
            t = p['t'].replace('const ', '')
            base = t.rstrip(' *')
            if base in facts.enums and facts.enums[base]['file'].endswith('capypdf.h'):
                rng = enum_range(facts.enums[base])
                if rng is None:
                    continue
                if t.endswith('*'):
                    if p['n'].startswith('out'):
                        continue
                    # an optional input: judged on the pointed-to value when the pointer is not null
                    key, st0 = 'v%d' % p['v'], None
                    if not deref_checked(facts, fn, p, rng):
                        r.bad('enum', fn.loc, fn, p['n'], 'a value outside %s pointed to by this argument is accepted' % base)
                    else:
                        r.ok('enum', '%s %s(*%s)' % (fn.loc, fn.n, p['n']), fn)
                    continue
                bad = [x for x in ((-INF, rng[0] - 1), (rng[1] + 1, INF)) if accepted(facts, fn, 'v%d' % p['v'], p, 'e', *x)]
                if bad:
                    r.bad('enum', fn.loc, fn, p['n'], 'a value %s the range of %s can be accepted with success' % (
                        ' and '.join('below' if b[0] == -INF else 'above' for b in bad), base))
                else:
                    r.ok('enum', '%s %s(%s)' % (fn.loc, fn.n, p['n']), fn)
            elif t in ('int', 'long'):
                ptr = fn.params[i - 1] if i else None
                found = {}
                Explorer(facts, BoolUse(facts, found)).run(fn, add_role(frozenset(), p['v'], 'b'))
                l = found.get('b')
                if l:
                    w = [x for x in l if not x[0]]
                    if w:
                        r.bad('bool', w[0][1].loc, fn, p['n'], 'stored as a truth value without being known to be 0 or 1')
                    else:
                        r.ok('bool', '%s %s(%s)' % (fn.loc, fn.n, p['n']), fn)
                    continue
                if ptr is not None and ptr['t'].endswith('*') and not ptr['n'].startswith('out') and \
                        not (ptr['t'].replace('const ', '').rstrip(' *') == 'void') and i > 1:
                    if ptr['t'] == 'const char *' and t == 'int':
                        continue    # text: P04
                    found = {}
                    Explorer(facts, LenUse(facts, found)).run(fn, add_role(frozenset(), p['v'], 's'))
                    l = found.get('s')
                    if not l:
                        continue
                    w = [x for x in l if not x[0]]
                    if w:
                        r.bad('length', w[0][1].loc, fn, p['n'], 'used as an array length where it can be negative')
                    else:
                        r.ok('length', '%s %s(%s)' % (fn.loc, fn.n, p['n']), fn)


def deref_checked(facts, fn, p, rng):
    """*p tested against both ends before it is stored: with *p bad no success exit that read it"""
    class D(Bad):
        def __init__(self, facts, lo, hi):
            Bad.__init__(self, facts)
            self.lo, self.hi = lo, hi

        def eval(self, st, n):
            x = strip_casts(n)
            if x is not None and x.k == 'UnaryOperator' and x.op == '*' and role_of(st, x.c[0]) == 'd':
                return self.lo, self.hi
            return Bad.eval(self, st, n)

        def _cmp(self, st, a, op, b):
            x = strip_casts(a)
            if x is not None and x.k == 'UnaryOperator' and x.op == '*' and role_of(st, x.c[0]) == 'd':
                blo, bhi = self.eval(st, b)
                ok = {'<': self.lo < bhi, '<=': self.lo <= bhi, '>': self.hi > blo, '>=': self.hi >= blo}.get(op, True)
                return st if ok else None
            return Bad._cmp(self, st, a, op, b)
    for lo, hi in ((-INF, rng[0] - 1), (rng[1] + 1, INF)):
        st = add_role(put(frozenset(), 'v%d' % p['v'], 1, INF), p['v'], 'd')
        if any(k in (OK, ANY) for k, s in Explorer(facts, D(facts, lo, hi)).run(fn, st)):
            return False
    return True
