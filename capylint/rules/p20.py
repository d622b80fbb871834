"""P20: the C++ wrapper header calls the library the way its C prototypes ask for."""
import os
import re
import shutil
import subprocess
import tempfile
from ..facts import AnalysisBroken, REPO, rel, make_header, compile_flags
from ..origins import clean
from ..util import strip_casts
from .p19 import Proto, LENGTHS, MATRIX, norm, roots, has, has_top

META = {
    'title': 'The C++ wrapper header calls the C functions as they are declared',
    'statement': 'Every method, constructor and deleter of include/capypdf.hpp calls the C function of its class and name with the object itself and the '
                 'caller\'s arguments unchanged, in the order of the C prototype: a buffer together with its own length, an optional as the address of its '
                 'value or null, lists of exactly the length the C function reads, truth values unnegated, matrices of translate, scale and rotate in PDF '
                 'order. Every returned error code is turned into an exception with its own message, results come back from the output arguments in order, '
                 'new objects are owned by the wrapper and released by their own destroy function. Every template overload compiles for standard '
                 'containers, and every flag value that the C function accepts is accepted.',
    'over': ['programs', 'inputs'],
    'qtext': 'every path through every function of the header, for every argument, and every template overload instantiated with string, string_view and vector',
    'why': 'Template overloads are not even compiled until somebody uses them, swapped doubles have the same type, and an ignored error code only shows when '
           'the call fails; the tests call a handful of the methods.',
    'files': ['include/capypdf.hpp', 'include/capypdf.h.in', 'src/capi.cpp'],
    'mechanism': [('CAPY_CPP_CHECK', 'include/capypdf.hpp'), ('CapyC, CapyCTypeDeleter', 'include/capypdf.hpp'),
                  ('wrapper classes', 'include/capypdf.hpp'), ('C prototypes', 'src/capi.cpp')],
    'technique': 'symbolic reading of every path of every wrapper function from the clang syntax tree (templates in their uninstantiated form), compared '
                 'with the C prototypes; plus a generated translation unit that instantiates every template overload and has to type-check',
    'level_note': 'Values that the reader cannot follow are counted as unverified, not reported.',
}

TOP = ('top',)
SKIP_LEN = ('capy_generator_add_structure_item',)


class St:
    __slots__ = ('env', 'conds', 'calls', 'd', 'top')

    def __init__(self):
        self.env, self.conds, self.calls, self.d, self.top = {}, [], [], None, None

    def copy(self):
        s = St()
        s.env, s.conds, s.calls, s.d, s.top = dict(self.env), list(self.conds), list(self.calls), self.d, self.top
        return s


class Call:
    __slots__ = ('fn', 'args', 'node', 'nconds')

    def __init__(self, fn, args, node, nconds):
        self.fn, self.args, self.node, self.nconds = fn, args, node, nconds


class Reader:
    """enumerates the paths of a wrapper function"""

    def __init__(self, facts, hpp):
        self.facts = facts
        self.hpp = hpp
        self.depth = 0

    def run(self, fn):
        self.depth = 0
        self.pending = []
        st = St()
        for i, p in enumerate(fn.params):
            st.env[p['v']] = ('p', i)
        return self.body(fn, st) + self.pending

    def body(self, fn, st):
        sts = [(st, None)]
        for i in fn.inits:
            n = i.get('i')
            if i.get('m') == '_d' and n is not None:
                out = []
                for s, _ in sts:
                    for s2, v in self.ev(n, s):
                        s2.d = v
                        out.append((s2, None))
                sts = out
            elif i.get('base') and n is not None and n.k == 'CXXConstructExpr' and n.c:
                out = []
                for s, _ in sts:
                    out += [(s2, None) for s2, v in self.ev(n, s)]
                sts = out
        if fn.body is None:
            return sts
        return self.seq([fn.body], sts)

    def seq(self, stmts, sts):
        for x in stmts:
            if x is None:
                continue
            nxt = []
            for s, o in sts:
                if o is not None:
                    nxt.append((s, o))
                else:
                    nxt += self.ex(x, s)
            sts = nxt
            if len(sts) > 4000:
                raise AnalysisBroken('too many paths in the wrapper header')
        return sts

    def ex(self, x, s):
        k = x.k
        if k == 'CompoundStmt':
            return self.seq(x.c, [(s, None)])
        if k == 'NullStmt':
            return [(s, None)]
        if k == 'DeclStmt':
            sts = [s]
            for d in x.a.get('d', ()):
                i = d.get('i')
                out = []
                for t in sts:
                    if i is None or i.k == 'CXXConstructExpr' and not i.c:
                        t.env[d['v']] = ('uninit',)
                        out.append(t)
                    elif d.get('ref') and strip_casts(i) is not None and strip_casts(i).k == 'DeclRefExpr' and False:
                        out.append(t)
                    else:
                        for t2, v in self.ev(i, t):
                            if v[0] == 'thrown':
                                self.pending.append((t2, ('throw', v[1])))
                                continue
                            t2.env[d['v']] = v
                            out.append(t2)
                sts = out
            return [(t, None) for t in sts]
        if k == 'IfStmt':
            init, var, cond, th, el = (x.c + [None] * 5)[:5]
            out = []
            pre = self.seq([y for y in (init, var) if y is not None], [(s, None)])
            for s0, o in pre:
                if o is not None:
                    out.append((s0, o))
                    continue
                for s1, tr in self.cond(cond, s0):
                    br = th if tr else el
                    out += self.ex(br, s1) if br is not None else [(s1, None)]
            return out
        if k == 'ForStmt' or k == 'WhileStmt':
            if k == 'ForStmt':
                init, cv, cond, inc, body = (x.c + [None] * 5)[:5]
            else:
                init, inc, cond, body = None, None, x.c[-2], x.c[-1]
            sts = self.seq([init] if init is not None else [], [(s, None)])
            done = []
            for _ in range(70):
                nxt = []
                for s0, o in sts:
                    if o is not None:
                        done.append((s0, o))
                        continue
                    for s1, v in self.ev(cond, s0) if cond is not None else [(s0, ('c', 1))]:
                        if v[0] != 'c':
                            s1.top = s1.top or x
                            done.append((s1, None))
                        elif not v[1]:
                            done.append((s1, None))
                        else:
                            for s2, o2 in (self.ex(body, s1) if body is not None else [(s1, None)]):
                                if o2 == ('brk',):
                                    done.append((s2, None))
                                elif o2 is None or o2 == ('cont',):
                                    nxt += [(s3, None) for s3, _v in (self.ev(inc, s2) if inc is not None else [(s2, TOP)])]
                                else:
                                    done.append((s2, o2))
                sts = nxt
                if not sts:
                    break
            for s0, o in sts:
                s0.top = s0.top or x
                done.append((s0, o))
            return done
        if k in ('DoStmt', 'CXXForRangeStmt', 'SwitchStmt', 'CXXTryStmt', 'GotoStmt', 'LabelStmt'):
            s.top = s.top or x
            return [(s, None)]
        if k == 'ReturnStmt':
            if not x.c or x.c[0] is None:
                return [(s, ('ret', None))]
            return [(t, ('throw', v) if v and v[0] == 'thrown' else ('ret', v)) for t, v in self.ev(x.c[0], s)]
        if k == 'BreakStmt':
            return [(s, ('brk',))]
        if k == 'ContinueStmt':
            return [(s, ('cont',))]
        return [(t, ('throw', v) if v is not None and v[0] == 'thrown' else None) for t, v in self.ev(x, s)]

    def cond(self, n, s):
        out = []
        for t, v in self.ev(n, s):
            out += self.branch(v, t)
        return out

    def branch(self, v, t):
        pol = True
        while v[0] == 'not':
            v, pol = v[1], not pol
        if v[0] == 'c':
            return [(t, bool(v[1]) == pol)]
        if v[0] == 'cmp':
            op, a, b = v[1:]
            if op == '!=':
                op, pol = '==', not pol
            if a[0] == 'c':
                flip = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '=='}
                op, a, b = flip[op], b, a
            v = ('cmp', op, a, b)
        elif v[0] == 'addr':
            return [(t, pol)]
        else:
            v, pol = ('cmp', '==', v, ('c', 0)), not pol
        for w, tr in t.conds:
            if w == v:
                return [(t, tr == pol)]
        # a value can equal only one constant
        if v[1] == '==' and v[3][0] == 'c':
            for w, tr in t.conds:
                if w[0] == 'cmp' and w[1] == '==' and w[2] == v[2] and w[3][0] == 'c' and tr and w[3] != v[3]:
                    return [(t, not pol)]
        a, b = t, t.copy()
        a.conds.append((v, True))
        b.conds.append((v, False))
        return [(a, pol), (b, not pol)]

    def many(self, ns, s):
        res = [(s, ())]
        for n in ns:
            nxt = []
            for t, vs in res:
                for t2, v in (self.ev(n, t) if n is not None else [(t, TOP)]):
                    if v[0] == 'thrown':
                        self.pending.append((t2, ('throw', v[1])))
                    else:
                        nxt.append((t2, vs + (v,)))
            res = nxt
        return res

    def lv(self, n):
        """local variable (and field) an lvalue is"""
        x = strip_casts(n)
        while x is not None and x.k == 'ParenExpr':
            x = strip_casts(x.c[0])
        if x is None:
            return None
        if x.k == 'DeclRefExpr' and x.dk in ('local', 'param'):
            return (x.v, None)
        if x.k == 'MemberExpr' and x.c and not x.arrow:
            b = self.lv(x.c[0])
            if b is not None and b[1] is None:
                return (b[0], x.n)
        return None

    def get(self, s, lv):
        if lv[1] is not None:
            v = s.env.get(lv)
            if v is not None:
                return v
            b = s.env.get(lv[0], TOP)
            return ('uninit',) if b == ('uninit',) else ('field', b, lv[1])
        fl = tuple(sorted((k[1], v) for k, v in s.env.items() if isinstance(k, tuple) and len(k) == 2 and k[0] == lv[0] and isinstance(k[1], str)))
        if fl:
            return ('struct', fl)
        el = sorted((k[2], v) for k, v in s.env.items() if isinstance(k, tuple) and len(k) == 3 and k[0] == lv[0])
        if el:
            return ('arr', tuple(v for i, v in el)) if [i for i, v in el] == list(range(len(el))) else ('arr?', tuple(el))
        return s.env.get(lv[0], TOP)

    def ev(self, n, s):
        n = strip_casts(n)
        if n is None:
            return [(s, TOP)]
        k = n.k
        cv = n.a.get('cv')
        if cv is not None:
            try:
                return [(s, ('c', int(cv)))]
            except ValueError:
                pass
        if k == 'FloatingLiteral':
            try:
                return [(s, ('c', float(n.fv)))]
            except (TypeError, ValueError):
                return [(s, TOP)]
        if k in ('ParenExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr', 'ConstantExpr'):
            return self.ev(n.c[0], s)
        if k in ('CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'CXXReinterpretCastExpr', 'CXXConstCastExpr', 'ImplicitCastExpr'):
            return self.ev(n.c[0], s)
        if k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr'):
            return [(s, ('null',))]
        if k == 'CXXBoolLiteralExpr':
            return [(s, ('c', 1 if n.a.get('bv') or n.a.get('cv') == '1' else 0))]
        if k == 'CXXThisExpr':
            return [(s, ('addr', ('this',)))]
        if k == 'StringLiteral':
            return [(s, ('str', n.s))]
        if k == 'DeclRefExpr':
            if n.dk in ('local', 'param'):
                return [(s, self.get(s, (n.v, None)))]
            return [(s, TOP)]
        if k == 'CXXThrowExpr':
            return [(t, ('thrown', v)) for t, v in (self.ev(n.c[0], s) if n.c else [(s, TOP)])]
        if k == 'ConditionalOperator':
            out = []
            for t, tr in self.cond(n.c[0], s):
                out += self.ev(n.c[1 if tr else 2], t)
            return out
        if k == 'UnaryOperator':
            if n.op == '&':
                lv = self.lv(n.c[0])
                if lv is not None and not (lv[1] is None and s.env.get(lv[0], TOP)[0] in ('p', 'this') and False):
                    return [(s, ('addr', ('lv', lv)))]
                x = strip_casts(n.c[0])
                if x is not None and x.k == 'ArraySubscriptExpr':
                    return [(t, ('addr', v)) for t, v in self.ev(x, s)]
                return [(t, ('addr', v)) for t, v in self.ev(n.c[0], s)]
            if n.op in ('++', '--'):
                lv = self.lv(n.c[0])
                if lv is not None:
                    v = self.get(s, lv)
                    w = ('c', v[1] + (1 if n.op == '++' else -1)) if v[0] == 'c' else TOP
                    s.env[lv if lv[1] else lv[0]] = w
                    return [(s, v if n.a.get('post') else w)]
                return [(s, TOP)]
            out = []
            for t, v in self.ev(n.c[0], s):
                if n.op == '*':
                    out.append((t, v[1] if v[0] == 'addr' and v[1][0] != 'lv' else self.get(t, v[1][1]) if v[0] == 'addr' else ('deref', v)))
                elif n.op == '!':
                    out.append((t, ('c', 0 if v[1] else 1) if v[0] == 'c' else ('not', v)))
                elif n.op == '-':
                    out.append((t, ('c', -v[1]) if v[0] == 'c' else ('neg', v)))
                elif n.op == '+':
                    out.append((t, v))
                else:
                    out.append((t, ('op', n.op, v)))
            return out
        if k in ('BinaryOperator', 'CompoundAssignOperator'):
            op = n.op
            if op in ('&&', 'and', '||', 'or'):
                conj = op in ('&&', 'and')
                out = []
                for t, tr in self.cond(n.c[0], s):
                    if tr != conj:
                        out.append((t, ('c', 1 if tr else 0)))
                    else:
                        for t2, tr2 in self.cond(n.c[1], t):
                            out.append((t2, ('c', 1 if tr2 else 0)))
                return out
            if op == '=':
                out = []
                x = strip_casts(n.c[0])
                for t, v in self.ev(n.c[1], s):
                    lv = self.lv(x)
                    if lv is not None:
                        t.env[lv if lv[1] else lv[0]] = v
                    elif x is not None and x.k == 'ArraySubscriptExpr' and self.lv(x.c[0]) is not None:
                        for t2, iv in self.ev(x.c[1], t):
                            if iv[0] == 'c':
                                t2.env[(self.lv(x.c[0])[0], '[', iv[1])] = v
                            else:
                                t2.top = t2.top or n
                    else:
                        t.top = t.top or n
                    out.append((t, v))
                return out
            if k == 'CompoundAssignOperator' or op.endswith('=') and op not in ('==', '!=', '<=', '>='):
                out = []
                for t, v in self.ev(n.c[1], s):
                    lv = self.lv(n.c[0])
                    if lv is not None:
                        o = self.get(t, lv)
                        t.env[lv if lv[1] else lv[0]] = ('c', o[1] + v[1]) if op == '+=' and o[0] == v[0] == 'c' else TOP if has_top(o) or has_top(v) else ('op', op, o, v)
                    out.append((t, TOP))
                return out
            out = []
            for t, (a, b) in self.many(n.c[:2], s):
                if op in ('==', '!=', '<', '>', '<=', '>='):
                    if a == ('null',):
                        a = ('c', 0)
                    if b == ('null',):
                        b = ('c', 0)
                    if a[0] == b[0] == 'c':
                        r = {'==': a[1] == b[1], '!=': a[1] != b[1], '<': a[1] < b[1], '>': a[1] > b[1], '<=': a[1] <= b[1], '>=': a[1] >= b[1]}[op]
                        out.append((t, ('c', int(r))))
                    else:
                        out.append((t, ('cmp', op, a, b)))
                elif a[0] == b[0] == 'c' and op in '+-*':
                    out.append((t, ('c', {'+': a[1] + b[1], '-': a[1] - b[1], '*': a[1] * b[1]}[op])))
                else:
                    out.append((t, ('op', op, a, b)))
            return out
        if k == 'ArraySubscriptExpr':
            lv = self.lv(n.c[0])
            out = []
            for t, iv in self.ev(n.c[1], s):
                if lv is not None and iv[0] == 'c' and (lv[0], '[', iv[1]) in t.env:
                    out.append((t, t.env[(lv[0], '[', iv[1])]))
                else:
                    for t2, b in self.ev(n.c[0], t):
                        out.append((t2, ('idx', b, iv)))
            return out
        if k == 'MemberExpr':
            lv = self.lv(n)
            if lv is not None:
                return [(s, self.get(s, lv))]
            out = []
            for t, b in (self.ev(n.c[0], s) if n.c else [(s, TOP)]):
                if n.n == '_d' and b in (('addr', ('this',)), ('this',)):
                    out.append((t, ('own', t.d)))
                else:
                    out.append((t, ('field', b, n.n)))
            return out
        if k == 'InitListExpr' or k == 'CXXParenListInitExpr':
            return [(t, ('arr', vs)) for t, vs in self.many(n.c, s)]
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            return self.construct(n, s)
        if k == 'CXXUnresolvedConstructExpr':
            return [(t, ('ctor', n.tt or n.t, vs)) for t, vs in self.many(n.c, s)]
        if k == 'CXXMemberCallExpr':
            return self.member(n, s)
        if k == 'CXXOperatorCallExpr':
            out = []
            for t, vs in self.many(n.c, s):
                if n.op == '*' and len(vs) == 1:
                    out.append((t, ('deref', vs[0])))
                elif n.op == '[]' and len(vs) == 2:
                    out.append((t, ('idx', vs[0], vs[1])))
                elif n.op == '=' and len(vs) == 2 and self.lv(n.c[0]) is not None:
                    lv = self.lv(n.c[0])
                    t.env[lv if lv[1] else lv[0]] = vs[1]
                    out.append((t, vs[1]))
                else:
                    out.append((t, TOP))
            return out
        if k == 'CallExpr':
            return self.call(n, s)
        if k == 'CXXDefaultArgExpr':
            return [(s, ('default',))]
        return [(s, TOP)]

    def construct(self, n, s):
        cls = clean(n.cls or '')
        if n.a.get('cm') in ('copy', 'move') or len(n.c) == 1 and cls and clean(n.c[0].t or '') == cls:
            return self.ev(n.c[0], s) if n.c else [(s, TOP)]
        if cls.endswith('PdfException'):
            return [(t, ('exc',) + vs) for t, vs in self.many(n.c, s)]
        f = self.facts.fns.get(n.f)
        if f is not None and f.key in self.hpp and f.body is not None and self.depth < 5:
            out = []
            for t, vs in self.many(n.c, s):
                d0 = t.d
                t.d = None
                for t2, o in self.inline(f, t, vs):
                    v = ('wrap', cls, t2.d)
                    t2.d = d0
                    out.append((t2, ('thrown', o[1]) if o and o[0] == 'throw' else v))
            return out
        if len(n.c) == 1:
            return self.ev(n.c[0], s)          # ids by value, optionals from a value
        return [(t, ('ctor', cls, vs)) for t, vs in self.many(n.c, s)]

    def inline(self, f, t, vs):
        self.depth += 1
        try:
            for p, v in zip(f.params, vs):
                t.env[p['v']] = v
            return self.body(f, t)
        finally:
            self.depth -= 1

    def finish(self, res):
        out = []
        for t, o in res:
            if o is not None and o[0] == 'throw':
                out.append((t, ('thrown', o[1])))
            elif o is not None and o[0] == 'ret':
                out.append((t, o[1] if o[1] is not None else TOP))
            else:
                out.append((t, TOP))
        return out

    def member(self, n, s):
        out = []
        for t, ob in (self.ev(n.a['obj'], s) if n.a.get('obj') is not None else [(s, TOP)]):
            if ob[0] == 'addr' and ob[1] == ('this',):
                ob = ('this',)
            elif n.a['obj'].k == 'MemberExpr' and False:
                pass
            for t2, vs in self.many(n.c, t):
                out += self.method(n, n.n, ob, vs, t2)
        return out

    def method(self, n, name, ob, vs, t):
        if name.startswith('operator ') and name.endswith('*') and 'CapyC' in (n.q or ''):
            return [(t, ('h', ob))]
        if name == 'operator bool' or name == 'has_value':
            return [(t, ('has', ob))]
        if name == 'value' and not vs:
            return [(t, ('deref', ob))]
        if ob[0] == 'own':
            if name == 'reset' and len(vs) == 1:
                t.d = vs[0]
                return [(t, TOP)]
            if name == 'get':
                return [(t, ('h', ('this',)) if ob[1] is None else ob[1])]
            return [(t, ('own.' + name,))]
        if name in ('data', 'size', 'length', 'c_str') and not vs:
            return [(t, ('size' if name == 'length' else 'data' if name == 'c_str' else name, ob))]
        f = self.facts.fns.get(n.f) if n.f else None
        if f is not None and f.key in self.hpp and ob == ('this',) and self.depth < 5:
            return self.finish(self.inline(f, t, vs))
        return [(t, TOP)]

    def call(self, n, s):
        fe = n.a.get('fe')
        name = n.n or (fe.n if fe is not None else None)
        if fe is not None and fe.k in ('CXXDependentScopeMemberExpr', 'UnresolvedMemberExpr', 'MemberExpr') and not n.f:
            if fe.c:
                obs = self.ev(fe.c[0], s)
            else:
                obs = [(s, ('this',))]
            out = []
            for t, ob in obs:
                if ob == ('addr', ('this',)):
                    ob = ('this',)
                for t2, vs in self.many(n.c, t):
                    if ob == ('this',) and getattr(n, 'fn', None) is not None:
                        cand = [g for g in self.hpp.values() if g.cls == self.cls and g.n == name and g.body is not None
                                and len(g.params) == len(vs) and not any('type-parameter' in p['t'] for p in g.params)]
                        if len(cand) == 1 and self.depth < 5:
                            out += self.finish(self.inline(cand[0], t2, vs))
                            continue
                        out.append((t2, TOP))
                        t2.top = t2.top or n
                    else:
                        out += self.method(n, name or '', ob, vs, t2)
            return out
        if name and name.startswith('capy_') and name != 'capy_error_message':
            out = []
            for t, vs in self.many(n.c, s):
                i = len(t.calls)
                t.calls.append(Call(name, vs, n, len(t.conds)))
                for j, v in enumerate(vs):
                    if v[0] == 'addr' and v[1][0] == 'lv':
                        lv = v[1][1]
                        if s.env.get(lv[0], TOP)[0] != 'p' or lv[1] is not None:
                            t.env[lv if lv[1] else lv[0]] = ('out', i, j)
                out.append((t, ('rc', i)))
            return out
        if name in ('abort', 'exit', 'terminate', '_Exit', 'std::abort'):
            return [(s, ('thrown', ('abort',)))]
        if name == 'capy_error_message':
            return [(t, ('msg',) + vs) for t, vs in self.many(n.c, s)]
        if name in ('cos', 'sin', 'strlen', 'cosf', 'sinf'):
            return [(t, (name,) + vs) for t, vs in self.many(n.c, s)]
        if name in ('move', 'forward', 'addressof', 'as_const') and len(n.c) == 1:
            return [(t, ('addr', v) if name == 'addressof' else v) for t, v in self.ev(n.c[0], s)]
        f = self.facts.fns.get(n.f) if n.f else None
        if f is None and fe is not None and fe.k == 'UnresolvedLookupExpr':
            cand = [g for g in self.hpp.values() if g.n == name and len(g.params) == len(n.c) and g.body is not None]
            f = cand[0] if len(cand) == 1 else None
        if f is not None and f.key in self.hpp and f.body is not None and self.depth < 5:
            out = []
            for t, vs in self.many(n.c, s):
                out += self.finish(self.inline(f, t, vs))
            return out
        return [(t, TOP) for t, vs in self.many(n.c, s)]


def subject(v):
    """the parameter an argument hands over unchanged"""
    while v[0] == 'h' or v[0] == 'addr' or v[0] == 'deref':
        v = v[1]
    return v


class P20:
    def __init__(self, facts, r):
        self.facts, self.r = facts, r
        self.protos = {}
        for f in facts.fns.values():
            if f.n.startswith('capy_') and f.file.endswith('src/capi.cpp') and not f.cls:
                self.protos[f.n] = Proto(f)
        self.hpp = {k: f for k, f in facts.fns.items() if f.file.endswith('include/capypdf.hpp')}
        if not self.protos or len(self.hpp) < 40:
            raise AnalysisBroken('the wrapper header was not found among the facts')
        self.handle_of = {}
        for f in self.hpp.values():
            pass
        for nm, rec in facts.records.items():
            if not str(rec.get('file', '')).endswith('capypdf.hpp'):
                continue
            for b in rec.get('bases', ()):
                m = re.search(r'CapyC<\s*(\w+)\s*>', b if isinstance(b, str) else str(b))
                if m:
                    self.handle_of[rec['q']] = m.group(1)
        self.unv = 0

    def where(self, n, f):
        return '%s:%s' % (rel(f.file), n.l if n is not None else f.loc.rsplit(':', 1)[-1])

    def run(self):
        r = self.r
        r.rule('methods', 'each wrapper function calls the C function of its class and name', 90)
        r.rule('arguments', 'arguments are the caller\'s, unchanged and in the order of the prototype; buffers with their own length', 150)
        r.rule('errors', 'every error code is tested and thrown with its own message', 90)
        r.rule('results', 'results come from the output arguments, in order, and new objects are owned', 35)
        r.rule('destroy', 'every type is released by its own destroy function', 12)
        r.rule('lengths', 'lists have the length the C function reads', 2)
        r.rule('rejects', 'only arguments that the C function rejects, too, are turned away', 0)
        r.rule('templates', 'every template overload type-checks for standard containers', 8)
        for f in sorted(self.hpp.values(), key=lambda f: (int(f.loc.rsplit(':', 1)[-1]), f.key)):
            if f.cls == 'capypdf::CapyCTypeDeleter':
                if 'type-parameter' not in f.params[0]['t']:
                    self.deleter(f)
                continue
            if f.n.startswith('operator '):
                self.conversion(f)
                continue
            if f.n.startswith('~') or f.n.startswith('operator') or f.cls not in self.handle_of or f.body is None:
                continue
            if f.access in ('private', 'protected') and not f.ctor:
                continue            # helpers are read where they are called
            self.one(f)
        self.templates()
        r.count('wrapper_functions', len(self.hpp))
        r.count('unverified_values', self.unv)
        r.assume('wrapper values that the reader cannot follow are not judged')

    # -- a wrapper function
    def one(self, f):
        r = self.r
        fn = '%s::%s' % (f.cls.split('::')[-1], f.n)
        rd = Reader(self.facts, self.hpp)
        rd.cls = f.cls
        paths = rd.run(f)
        T = self.handle_of[f.cls]
        isctor = f.n == f.cls.split('::')[-1]
        if any(s.top is not None for s, o in paths):
            self.unv += 1
        own = [c for s, o in paths for c in s.calls]
        if isctor and len(f.params) == 1 and clean(f.params[0]['t']).replace('*', '').strip() == T and not own:
            for s, o in paths:          # takes ownership of a new object
                if o is None and s.top is None:
                    if s.d == ('p', 0):
                        r.ok('results', '%s owns its argument' % fn, fn)
                    elif s.d is None or not has_top(s.d):
                        r.bad('results', self.where(None, f), fn, 'ctor', '%s does not keep the object it is given' % fn)
            return
        self.methods(f, fn, T, isctor, own)
        used = set()
        for s, o in paths:
            for c in s.calls:
                for a in c.args:
                    roots(a, used)
            for c, tr in s.conds:
                roots(c, used)
        full = not any(s.top is not None for s, o in paths) and not any(has_top(a) for c in own for a in c.args)
        if own and full:
            for i, p in enumerate(f.params):
                if i not in used and p['n']:
                    r.bad('arguments', self.where(None, f), fn, 'unused %s' % p['n'], '%s ignores its argument %s' % (fn, p['n']))
        done = set()
        for s, o in paths:
            if s.top is not None:
                continue
            self.path(f, fn, T, isctor, s, o, done)
        self.rejections(f, fn, paths)
        if f.n in MATRIX:
            self.matrix(f, fn, own)

    def methods(self, f, fn, T, isctor, own):
        r = self.r
        cn = f.cls.split('::')[-1]
        if isctor:
            cands = [x for x in self.protos if norm(x[5:]) == norm(cn) + 'new']
            if not cands:
                cands = [x for x, p in self.protos.items() if x.endswith('_new') and ('out', ('handle', T)) in p.kinds]
        else:
            sn = re.sub(r'(?<=[a-z0-9])(?=[A-Z])', '_', cn).lower()
            pre = ('capy_' + sn + '_', 'capy_' + T.replace('_capyPDF_', '').lower() + '_', 'capy_' + re.sub(r'(?<=[a-z0-9])(?=[A-Z])', '_', T.replace('_capyPDF_', '')).lower() + '_')
            cands = [x for x in self.protos if x.endswith('_' + f.n) and self.protos[x].kinds and self.protos[x].kinds[0] == ('handle', T)]
            near = [x for x in cands if x == pre[0] + f.n] or [x for x in cands if x in [q + f.n for q in pre]] or [x for x in cands if any(x.startswith(q) for q in pre)]
            cands = near or cands
            if not cands:       # cmd_BDC_ocg, cmd_Do_image
                cands = [x for x in self.protos if ('_' + f.n + '_') in x and self.protos[x].kinds and self.protos[x].kinds[0] == ('handle', T)]
            if not cands and f.n not in MATRIX:
                words = set(re.split(r'_|(?<=[a-z])(?=[A-Z])', f.n))
                sc = [(len(words & set(x.split('_'))), x) for x, p in self.protos.items() if p.kinds and p.kinds[0] == ('handle', T) and (
                    not own or any(c.fn in self.protos and p.kinds[-1:] == self.protos[c.fn].kinds[-1:] or
                                   [k for k in p.kinds if k[0] == 'out'] == [k for k in self.protos[c.fn].kinds if k[0] == 'out'] for c in own if c.fn in self.protos))]
                mx = max([a for a, x in sc], default=0)
                cands = [x for a, x in sc if a == mx] if mx >= 2 else []
        if not cands:
            return
        names = {c.fn for c in own}
        if not own:
            r.bad('methods', self.where(None, f), fn, 'none', '%s does not call %s' % (fn, ' or '.join(sorted(cands))))
            return
        for c in own:
            if c.fn not in cands and not any(c.fn.startswith(x + '_') for x in cands):
                if not (names & set(cands)):
                    r.bad('methods', self.where(c.node, f), fn, c.fn, '%s calls %s instead of %s' % (fn, c.fn, ' or '.join(sorted(cands))))
                    return
        r.ok('methods', '%s calls %s' % (fn, ', '.join(sorted(names))), fn)

    def path(self, f, fn, T, isctor, s, o, done):
        r = self.r
        threw = o is not None and o[0] == 'throw'
        rcs = {}
        for c, tr in s.conds:
            if c[1] == '==' and c[2][0] == 'rc' and c[3] == ('c', 0):
                rcs[c[2][1]] = tr
            elif c[2][0] == 'rc' or c[3][0] == 'rc':
                rcs[(c[2] if c[2][0] == 'rc' else c[3])[1]] = None if c[1] != '==' else 'odd'
        failed = [i for i, ok in rcs.items() if ok is False]
        for i, c in enumerate(s.calls):
            key = (c.fn, c.node.l)
            pr = self.protos.get(c.fn)
            if pr is None:
                if ('nolib', c.fn) in done:
                    continue
                done.add(('nolib', c.fn))
                r.bad('methods', self.where(c.node, f), fn, c.fn, '%s calls %s, which the library does not define' % (fn, c.fn))
                continue
            if i not in rcs:
                returned = o is not None and o[0] == 'ret' and o[1] is not None and has(o[1], ('rc', i))
                if not returned and not (threw and failed) and ('rc', key) not in done:
                    done.add(('rc', key))
                    r.bad('errors', self.where(c.node, f), fn, c.fn, '%s does not look at the error code of %s' % (fn, c.fn))
            elif rcs[i] == 'odd':
                r.bad('errors', self.where(c.node, f), fn, c.fn + ' compared', '%s compares the error code of %s with something else than success' % (fn, c.fn))
            elif rcs[i] is None:
                r.bad('errors', self.where(c.node, f), fn, c.fn + ' sign', '%s tests the error code of %s with an ordering: not every error is seen' % (fn, c.fn))
            elif rcs[i] is False:
                if not threw:
                    r.bad('errors', self.where(c.node, f), fn, c.fn, '%s goes on after %s has failed' % (fn, c.fn))
                else:
                    m = o[1]
                    if m == ('abort',):
                        r.ok('errors', '%s stops when %s fails' % (fn, c.fn), fn)
                    elif has(m, ('msg', ('rc', i))):
                        r.ok('errors', '%s raises the error of %s' % (fn, c.fn), fn)
                    elif has_top(m):
                        self.unv += 1
                    else:
                        r.bad('errors', self.where(c.node, f), fn, c.fn + ' message', '%s raises an error that is not the one %s reported' % (fn, c.fn))
            elif rcs[i] is True and threw and not failed:
                r.bad('errors', self.where(c.node, f), fn, c.fn, '%s raises an error although %s has succeeded' % (fn, c.fn))
            if key + tuple(map(str, c.args)) not in done:
                done.add(key + tuple(map(str, c.args)))
                self.args(f, fn, T, c, pr, s)
        if not threw and s.calls and not failed:
            self.result(f, fn, T, isctor, s, o)

    def args(self, f, fn, T, c, pr, s):
        r = self.r
        W = self.where(c.node, f)
        if len(c.args) != len(pr.kinds):
            r.bad('arguments', W, fn, c.fn + ' count', '%s calls %s with %d arguments; it has %d' % (fn, c.fn, len(c.args), len(pr.kinds)))
            return
        pnames = [p['n'] for p in f.params]
        cnames = [p['n'] for p in pr.f.params]
        last = -1
        for i, (k, a) in enumerate(zip(pr.kinds, c.args)):
            what = '%s argument %d (%s)' % (c.fn, i + 1, cnames[i])
            if has_top(a):
                self.unv += 1
                continue
            bad = None
            if i == 0 and k == ('handle', T):
                if a != ('h', ('this',)):
                    bad = 'is not the object itself'
            elif k[0] == 'handle':
                if a == ('null',):
                    # only where there is nothing to hand over
                    lost = [j for j, p in enumerate(f.params) if self.is_wrapper(p['t'], k[1]) and not self.absent(s, j) and not self.elsewhere(c, i, j)]
                    if lost:
                        bad = 'is null although the caller gave %s' % pnames[lost[0]]
                elif a[0] == 'h' and a[1][0] == 'deref' and a[1][1][0] == 'p' and self.absent(s, a[1][1][1]):
                    bad = 'follows a null pointer'
                elif a[0] == 'h' and a[1][0] in ('p', 'deref') and subject(a)[0] == 'p':
                    pass
                elif a[0] == 'p':
                    pass
                elif a[0] == 'h' and a[1] == ('this',):
                    bad = 'is the object itself'
                else:
                    self.unv += 1
                    continue
            elif k[0] == 'out':
                if a[0] != 'addr' or a[1][0] != 'lv':
                    if a[0] == 'p' or a[0] == 'addr':
                        pass
                    else:
                        bad = 'is not the address of a result variable'
            elif k[0] == 'handles' or k[0] == 'array':
                bad = self.array_wrong(f, c, pr, i, k, a, s)
            elif k[0] == 'bytes':
                bad = self.bytes_wrong(f, c, pr, i, k, a)
            elif pr.size_of(i):
                bad = self.size_wrong(f, c, pr, i, a, c.args[i - 1], s)
            else:
                bad = self.scalar_wrong(f, k, a)
            if bad is None and k[0] != 'out' and not (i == 0 and k == ('handle', T)) and f.n not in MATRIX:
                rs = roots(a)
                if len(rs) == 1:
                    j = next(iter(rs))
                    pn, cnm = pnames[j], cnames[i]
                    others = [x for x in range(len(cnames)) if x != i and cnames[x] == pn and pr.kinds[x][0] == k[0]]
                    if pn == cnm:
                        pass
                    elif others and cnm in pnames:
                        bad = 'is the caller\'s %s' % pn
                    elif j < last and pnames[j] not in cnames:
                        bad = 'is the caller\'s %s: the arguments are out of order' % pn
                    elif j == last and not (pr.size_of(i)):
                        bad = 'is the caller\'s %s for the second time' % pn
                    last = max(last, j)
            if bad:
                r.bad('arguments', W, fn, '%s %d' % (c.fn, i), '%s: %s %s' % (fn, what, bad))
            else:
                r.ok('arguments', '%s: %s' % (fn, what), fn)

    def is_wrapper(self, t, h):
        base = clean(re.sub(r'[&*]', '', t)).strip()
        return self.handle_of.get(base) == h

    def elsewhere(self, c, i, j):
        return any(x != i and j in roots(a) for x, a in enumerate(c.args))

    def absent(self, s, j):
        """has this path found parameter j to be null or empty?"""
        for c, tr in s.conds:
            if c[1] == '==' and c[3] == ('c', 0) and c[2] in (('p', j), ('has', ('p', j))) and tr:
                return True
        return False

    def present(self, s, j):
        for c, tr in s.conds:
            if c[1] == '==' and c[3] == ('c', 0) and c[2] in (('p', j), ('has', ('p', j))) and not tr:
                return True
        return False

    def scalar_wrong(self, f, k, a):
        if f.n in MATRIX:
            return None
        if a[0] == 'p':
            return None
        if a[0] == 'c' or a[0] == 'default':
            return None if not f.params else 'is a constant' if a[0] == 'c' else None
        if a[0] == 'not':
            return 'is negated'
        if a[0] in ('neg', 'op'):
            return 'is not the value the caller gave'
        if a[0] == 'cmp' and a[3] == ('c', 0) and a[2][0] == 'p':
            return 'is negated' if a[1] == '==' else None
        if a[0] == 'uninit':
            return 'is not initialised'
        if a[0] in ('size', 'data', 'null', 'str'):
            return 'is not the value the caller gave'
        self.unv += 1
        return None

    def bytes_wrong(self, f, c, pr, i, k, a):
        if a[0] == 'p' or a[0] == 'data' and a[1][0] == 'p' or a[0] == 'str':
            return None
        if a == ('null',):
            return None
        if a[0] == 'p' or subject(a)[0] == 'p':
            return None
        self.unv += 1
        return None

    def size_wrong(self, f, c, pr, i, a, prev, s):
        pnames = [p['n'] for p in f.params]
        if prev[0] == 'data':
            if a == ('size', prev[1]):
                return None
            if a[0] == 'size':
                return 'is the length of another object than the buffer'
            if a[0] == 'c' or a == ('default',):
                return 'is %s although the buffer need not end with a null byte' % (a[1] if a[0] == 'c' else 'the default')
            if a[0] in ('op', 'neg'):
                return 'is not the length of the buffer'
            if a[0] == 'p':
                return None
            self.unv += 1
            return None
        if prev[0] == 'p':
            j = prev[1]
            if a[0] == 'p':
                if a[1] == j + 1:
                    return None
                if j + 1 < len(f.params) and re.search(r'size$|len$|^num_|count$|length$', pnames[j + 1]) and a[1] != j + 1:
                    return 'is %s, not the length of %s' % (pnames[a[1]], pnames[j])
                return None
            if a[0] in ('c', 'op', 'neg', 'size'):
                nxt = pnames[j + 1] if j + 1 < len(pnames) else ''
                if re.search(r'size$|len$|^num_|count$|length$', nxt) and not (a[0] == 'c' and any(
                        cd[1] == '==' and tr and cd[2] == ('p', j + 1) and cd[3] == a for cd, tr in s.conds)):
                    return 'is not the length the caller gave'
                if a == ('c', -1) and 'char' in f.params[j]['t']:
                    return None
                if a[0] == 'c':
                    return 'is a constant'
            self.unv += 1
            return None
        if prev[0] == 'arr':
            if a[0] == 'c':
                return None if a[1] == len(prev[1]) else 'is %d for %d elements' % (a[1], len(prev[1]))
        if prev == ('null',):
            return None
        if prev[0] == 'str' and a[0] == 'c' and a[1] not in (-1, len(prev[1])):
            return 'is %d for a text of %d bytes' % (a[1], len(prev[1]))
        self.unv += 1
        return None

    def array_wrong(self, f, c, pr, i, k, a, s):
        r = self.r
        need = LENGTHS.get((c.fn, i))
        fn = '%s::%s' % (f.cls.split('::')[-1], f.n)
        pnames = [p['n'] for p in f.params]
        if a == ('null',):
            cand = [j for j, p in enumerate(f.params) if j not in set().union(*[roots(x) for x in c.args]) and (
                p['t'].startswith('std::optional') or p['t'].endswith('*') or self.is_wrapper(p['t'], k[1]))]
            lost = [j for j in cand if self.present(s, j)]
            if lost:
                return 'is null although the caller gave %s' % pnames[lost[0]]
            return None
        if a[0] == 'addr' and a[1][0] == 'deref' and a[1][1][0] == 'p':
            j = a[1][1][1]
            if 'optional' in f.params[j]['t']:
                if self.absent(s, j):
                    return 'is the value of the empty optional %s' % pnames[j]
                if not self.present(s, j):
                    return 'takes the value of %s without knowing that there is one' % pnames[j]
            return None
        if a[0] == 'addr' and a[1][0] == 'lv':
            v = a[1][1]
            return None
        if a[0] == 'p' and need is not None:
            j = a[1]
            got = None
            for cd, tr in s.conds:
                if cd[1] == '==' and cd[2] == ('p', j + 1) and cd[3][0] == 'c' and tr:
                    got = cd[3][1]
            if re.search(r'size$|len$|^num_|count$', pnames[j + 1] if j + 1 < len(pnames) else ''):
                if got is None:
                    return 'is handed on whatever its length; the library reads %d elements' % need
                if got != need:
                    return 'is accepted with %d elements; the library reads %d' % (got, need)
                r.ok('lengths', '%s: %s has %d elements' % (fn, pnames[j], need), fn)
            return None
        if a[0] == 'p' or a[0] == 'data' and a[1][0] == 'p':
            return None
        if a[0] in ('arr', 'arr?', 'uninit'):
            if a[0] != 'arr':
                return 'is an array with elements that are not set'
            if need is not None and len(a[1]) != need:
                return 'is an array of %d elements; the library reads %d' % (len(a[1]), need)
            src = set()
            for x, e in enumerate(a[1]):
                if has_top(e):
                    self.unv += 1
                    return None
                b = e
                while b[0] in ('h', 'addr'):
                    b = b[1]
                if b[0] == 'idx' and b[1][0] == 'p' and b[2][0] == 'c':
                    src.add(b[1][1])
                    if b[2][1] != x:
                        return 'has element %s of the caller\'s list at %d' % (b[2][1], x)
                elif b[0] == 'deref' and b[1][0] == 'op':
                    self.unv += 1
                    return None
                elif b == ('uninit',):
                    return 'has an element that is not set'
            if need is not None:
                if len(src) == 1:
                    j = next(iter(src))
                    got = [cd[3][1] for cd, tr in s.conds if cd[1] == '==' and cd[2] == ('p', j + 1) and cd[3][0] == 'c' and tr]
                    if re.search(r'size$|len$|^num_|count$', pnames[j + 1] if j + 1 < len(pnames) else '') and (not got or got[0] < need):
                        return 'reads %d elements of %s, whose length is %s' % (need, pnames[j], got[0] if got else 'not tested')
                r.ok('lengths', '%s: array of %d' % (fn, need), fn)
            return None
        self.unv += 1
        return None

    # -- results
    def result(self, f, fn, T, isctor, s, o):
        r = self.r
        outs = []
        for i, c in enumerate(s.calls):
            pr = self.protos.get(c.fn)
            if pr is None:
                continue
            for j, k in enumerate(pr.kinds):
                if k[0] == 'out' and j < len(c.args):
                    outs.append((i, j, k, c, pr))
        W = self.where(s.calls[-1].node, f)
        if isctor:
            new = [('out', i, j) for i, j, k, c, pr in outs if k == ('out', ('handle', T))]
            if s.d in new:
                r.ok('results', '%s owns the new object' % fn, fn)
            elif s.d is None or not has_top(s.d):
                r.bad('results', W, fn, 'owner', '%s does not keep the object it has made' % fn)
            return
        v = o[1] if o is not None and o[0] == 'ret' else None
        if not outs:
            if s.d is not None:
                r.bad('results', W, fn, 'owner', '%s replaces the object' % fn)
            return
        if v is None:
            r.bad('results', W, fn, 'none', '%s does not return its result' % fn)
            return
        if has_top(v):
            self.unv += 1
            return
        if len(outs) == 1:
            i, j, k, c, pr = outs[0]
            w = ('out', i, j)
            x = v
            if k[1][0] == 'handle':
                if x == w and self.raw(f):
                    r.ok('results', '%s hands on the new object' % fn, fn)
                elif x[0] == 'wrap' and x[2] == w and self.handle_of.get(x[1]) == k[1][1]:
                    r.ok('results', '%s returns the new object' % fn, fn)
                else:
                    r.bad('results', W, fn, c.fn, '%s does not return an owner of the object that %s made' % (fn, c.fn))
                return
            if x == w:
                r.ok('results', '%s returns what %s gave' % (fn, c.fn), fn)
            elif x[0] == 'cmp' and x[2] == w and x[3] == ('c', 0):
                if x[1] == '!=':
                    r.ok('results', '%s returns the truth value' % fn, fn)
                else:
                    r.bad('results', W, fn, c.fn, '%s returns the truth value the wrong way round' % fn)
            elif x == ('not', ('not', w)):
                r.ok('results', '%s returns the truth value' % fn, fn)
            elif x[0] == 'c' and any(cd[2] == w for cd, tr in s.conds):
                tr = [(cd, tr) for cd, tr in s.conds if cd[2] == w][0]
                if tr[0][1] == '==' and tr[0][3] == ('c', 0):
                    if bool(x[1]) == (not tr[1]):
                        r.ok('results', '%s returns the truth value' % fn, fn)
                    else:
                        r.bad('results', W, fn, c.fn, '%s returns the truth value the wrong way round' % fn)
                else:
                    self.unv += 1
            else:
                r.bad('results', W, fn, c.fn, '%s does not return what %s gave' % (fn, c.fn))
            return
        if v[0] in ('struct', 'arr', 'ctor'):
            els = list(v[1]) if v[0] == 'struct' else [(None, e) for e in (v[1] if v[0] == 'arr' else v[2])]
            for x, (i, j, k, c, pr) in enumerate(outs):
                cn = pr.f.params[j]['n']
                if v[0] == 'struct':
                    e = dict(els).get(cn)
                    if e is None:
                        self.unv += 1
                        continue
                else:
                    e = els[x][1] if x < len(els) else None
                if e == ('out', i, j):
                    r.ok('results', '%s returns %s' % (fn, cn), fn)
                else:
                    r.bad('results', W, fn, '%s %s' % (c.fn, cn), '%s does not return %s as its %s' % (fn, cn, cn))
            return
        self.unv += 1

    def raw(self, f):
        return '*' in (f.rt or '')

    # -- turning arguments away
    def rejections(self, f, fn, paths):
        """paths that throw before any library call: only when a length or a flag is one the library does not take"""
        r = self.r
        ok = {}
        for s, o in paths:
            if s.top is not None:
                return
        for s, o in paths:
            if o is None or o[0] != 'throw' or s.calls:
                continue
            eq = [(c, tr) for c, tr in s.conds if c[1] == '==' and c[2][0] == 'p' and c[3][0] == 'c']
            if not eq:
                continue
            for j in sorted({c[2][1] for c, tr in eq}):
                ok.setdefault(j, s)
        for j, s in sorted(ok.items()):
            # values of the parameter on paths that reach the library
            vals = set()
            free = False
            for t, o in paths:
                if not t.calls:
                    continue
                pos = [c[3][1] for c, tr in t.conds if c[1] == '==' and c[2] == ('p', j) and c[3][0] == 'c' and tr]
                if pos:
                    vals.add(pos[0])
                else:
                    free = True
            if free:
                continue
            names = [c.fn for t, o in paths for c in t.calls]
            if not names or f.params[j]['n'].startswith('num_'):
                continue
            lim = self.accepted(names[0], f, j, paths)
            if lim is None:
                self.unv += 1
                continue
            miss = lim - vals
            extra = vals - lim
            if miss:
                r.bad('rejects', self.where(None, f), fn, f.params[j]['n'], '%s turns away %s = %s, which %s accepts' % (
                    fn, f.params[j]['n'], ', '.join(map(str, sorted(miss))), names[0]))
            elif extra:
                r.bad('rejects', self.where(None, f), fn, f.params[j]['n'], '%s hands on %s = %s, which %s rejects' % (
                    fn, f.params[j]['n'], ', '.join(map(str, sorted(extra))), names[0]))
            else:
                r.ok('rejects', '%s takes the values of %s that %s takes' % (fn, f.params[j]['n'], names[0]), fn)

    def accepted(self, cname, f, j, paths):
        """edge flags: 1 and 2 continue a triangle, 1 to 3 a patch (ISO 32000, 8.7.4.5.5 and 8.7.4.5.7)"""
        if cname == 'capy_type4_shading_extend':
            return {1, 2}
        if cname == 'capy_type6_shading_extend':
            return {1, 2, 3}
        return None

    def matrix(self, f, fn, own):
        r = self.r
        for c in own[:1]:
            if len(c.args) != 7 or any(has_top(a) for a in c.args):
                self.unv += 1
                return
            got = []
            for a in c.args[1:]:
                if a[0] == 'c':
                    got.append(0 if a[1] == 0 else a[1])
                elif a[0] == 'p':
                    got.append('p%d' % a[1])
                elif a == ('cos', ('p', 0)):
                    got.append('cos')
                elif a == ('sin', ('p', 0)):
                    got.append('sin')
                elif a == ('neg', ('sin', ('p', 0))):
                    got.append('-sin')
                else:
                    got.append('?')
            if tuple(got) == tuple(MATRIX[f.n]):
                r.ok('arguments', '%s has the matrix of the operation' % fn, fn)
            elif '?' not in got:
                r.bad('arguments', self.where(c.node, f), fn, 'matrix', '%s uses the matrix (%s), not (%s)' % (
                    fn, ', '.join(map(str, got)), ', '.join(map(str, MATRIX[f.n]))))
            else:
                self.unv += 1

    # -- ownership
    def deleter(self, f):
        r = self.r
        t = clean(f.params[0]['t']).replace('*', '').strip()
        rd = Reader(self.facts, self.hpp)
        rd.cls = f.cls
        fn = 'CapyCTypeDeleter<%s>' % t
        want = [x for x, p in self.protos.items() if x.endswith('_destroy') and p.kinds == [('handle', t)]]
        for s, o in rd.run(f):
            if s.top is not None:
                self.unv += 1
                continue
            hit = [c for c in s.calls if c.fn in want]
            if len(hit) == 1 and len(s.calls) == 1 and hit[0].args == (('p', 0),):
                r.ok('destroy', '%s calls %s' % (fn, hit[0].fn), fn)
            elif not want:
                self.unv += 1
            else:
                r.bad('destroy', self.where(None, f), fn, t, 'the wrapper of %s %s instead of %s' % (
                    t, 'calls ' + ', '.join(c.fn for c in s.calls) if s.calls else 'releases nothing', ' or '.join(want)))
                break

    def conversion(self, f):
        if 'type-parameter' in f.n or f.body is None:
            return
        rd = Reader(self.facts, self.hpp)
        rd.cls = f.cls
        for s, o in rd.run(f):
            if o is not None and o[0] == 'ret' and o[1] == ('h', ('this',)):
                self.r.ok('destroy', 'the conversion of %s lends the object' % f.n, f.q)
            elif o is not None and o[0] == 'ret' and o[1] is not None and str(o[1][0]).startswith('own.'):
                self.r.bad('destroy', self.where(None, f), f.q, f.n, 'the conversion %s gives the object away (%s): nobody releases it' % (f.n, o[1][0][4:]))
            else:
                self.unv += 1

    # -- templates
    def templates(self):
        r = self.r
        ts = [f for f in self.hpp.values() if f.cls in self.handle_of and any('type-parameter' in p['t'] for p in f.params)]
        ts.sort(key=lambda f: int(f.loc.rsplit(':', 1)[-1]))
        if not ts:
            return
        src = ['#include <capypdf.hpp>', '#include <string>', '#include <string_view>', '#include <vector>']
        base = len(src)
        lines = {}
        for f in ts:
            for T in ('std::string', 'std::string_view', 'std::vector<char>'):
                ps, ok = [], True
                for p in f.params:
                    t = p['ts'] if 'type-parameter' not in p['t'] else None
                    if 'type-parameter' in p['t']:
                        if not re.match(r'^(const )?type-parameter-0-0( const)? ?&?&?$', p['t']):
                            ok = False
                        ps.append('const %s &' % T)
                    else:
                        ps.append(t)
                if not ok:
                    self.unv += 1
                    continue
                cn = f.cls
                names = ['a%d' % i for i in range(len(ps))]
                decl = ', '.join('%s %s' % (t, n) for t, n in zip(ps, names))
                if f.n == cn.split('::')[-1]:
                    src.append('namespace capypdf { void w%d(%s) { %s o(%s); } }' % (len(src), decl, cn, ', '.join(names)))
                else:
                    src.append('namespace capypdf { void w%d(%s &o%s) { (void)o.%s(%s); } }' % (len(src), cn, ', ' + decl if decl else '', f.n, ', '.join(names)))
                lines[len(src)] = (f, T)
        d = tempfile.mkdtemp(prefix='capylint-')
        try:
            inc = os.path.join(d, 'inc')
            os.makedirs(inc)
            make_header(os.path.join(inc, 'capypdf.h'))
            p = os.path.join(d, 'w.cpp')
            with open(p, 'w') as h:
                h.write('\n'.join(src) + '\n')
            res = subprocess.run(['/usr/bin/clang++-18', '-fsyntax-only', '-fno-color-diagnostics', '-ferror-limit=0', '-fno-caret-diagnostics'] +
                                 compile_flags(inc) + [p], capture_output=True, text=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        bad = {}
        err = None
        for ln in res.stderr.splitlines():
            m = re.match(r'^(\S+?):(\d+):\d+: (error|note|fatal error): (.*)$', ln)
            if not m:
                continue
            if m.group(3) != 'note':
                err = (m.group(1), int(m.group(2)), m.group(4))
            if err and m.group(1).endswith('w.cpp') and int(m.group(2)) in lines:
                bad.setdefault(int(m.group(2)), err)
        if res.returncode != 0 and not bad:
            raise AnalysisBroken('the witness for the template overloads does not compile:\n' + res.stderr[-2000:])
        for l, (f, T) in sorted(lines.items()):
            fn = '%s::%s' % (f.cls.split('::')[-1], f.n)
            if l in bad:
                e = bad[l]
                where = '%s:%d' % ('include/capypdf.hpp', e[1]) if e[0].endswith('capypdf.hpp') else self.where(None, f)
                if 'private' in e[2] or 'protected' in e[2]:
                    self.unv += 1
                    continue
                r.bad('templates', where, fn, '%s<%s>' % (f.n, T), 'the template overload %s does not compile for %s: %s' % (fn, T, e[2]))
            else:
                r.ok('templates', '%s compiles for %s' % (fn, T), fn)


def run(facts, r):
    P20(facts, r).run()
