"""P02: no failure is lost between the place that detects it and the caller."""
from ..facts import CALLS, CTORS, rel
from ..util import (all_nodes, callee, repo_fns, strip_casts, reachable_all, api_roots, path, pstr, canon, split_not)
from ..flow import Explorer, Client, OK, ERR, ANY, is_expected, is_unexpected

META = {
    'title': 'A detected failure is never lost on its way to the caller',
    'statement': 'Whenever some step inside the library fails (an invalid argument, an unreadable or malformed file, a failed read '
                 'or write, a failure reported by a helper library) the public call that triggered it reports an error instead of '
                 'success. No failure result is dropped, ignored, overwritten before it was looked at or turned into success.',
    'over': ['inputs', 'fault_sequences'],
    'qtext': 'every failing step of every call',
    'why': 'Tests exercise hardly any failing step; an ignored result changes nothing when everything succeeds.',
    'files': ['src/errorhandling.hpp', 'src/capi.cpp', 'src/document.cpp', 'src/pdfwriter.cpp', 'src/generator.cpp',
              'src/fontsubsetter.cpp', 'src/cffsubsetter.cpp', 'src/imagefileops.cpp'],
    'mechanism': [('rvoe / ERCV / ERC propagation macros', 'src/errorhandling.hpp'), ('conv_err', 'src/capi.cpp')],
    'technique': 'must-check dataflow of std::expected values over the CFG (discarded, unexamined, swallowed results)',
    'level_note': 'Every call returning std::expected in code reachable from the C API, on every CFG path, plus the statuses of '
                  'the listed C library calls. Assumes clang\'s CFG.',
}


STMT_PARENTS = {'CompoundStmt', 'IfStmt', 'ForStmt', 'WhileStmt', 'CXXForRangeStmt', 'CaseStmt', 'DefaultStmt', 'DoStmt', 'SwitchStmt'}


def discarded(n):
    """is the value of this expression thrown away?"""
    p = n.parent
    while p is not None and p.k == 'CStyleCastExpr' and p.tt == 'void':
        n, p = p, p.parent
    if p is None:
        return False
    if p.k == 'CompoundStmt':
        return True
    if p.k == 'BinaryOperator' and p.op == ',' and p.c[0] is n:
        return True
    if p.k in ('IfStmt',):
        return n in p.c[3:]
    if p.k == 'ForStmt':
        return n is p.c[3] or n is p.c[4] or n is p.c[0]
    if p.k == 'WhileStmt':
        return n is p.c[2]
    if p.k == 'CXXForRangeStmt':
        return n is p.c[2]
    if p.k in ('CaseStmt', 'DefaultStmt'):
        return n is p.c[-1]
    return False


class Swallow(Client):
    """state: (failed, pending): expected objects known to hold an error / never looked at"""

    def __init__(self, facts):
        self.facts = facts
        self.uses = {}

    def on_node(self, st, n, ctx):
        failed, pend = st
        if n.k == 'DeclStmt':
            add = [(d['v'], d['n'], n.l) for d in n.a.get('d', ()) if d.get('i') is not None and is_expected(d['t'])
                   and not d.get('ref')]
            if add:
                vs = {a[0] for a in add}
                failed = frozenset(x for x in failed if x[0] not in vs)
                return [(failed, frozenset(x for x in pend if x[0] not in vs) | frozenset(add))]
        elif n.k == 'DeclRefExpr' and n.v is not None and is_expected(n.t):
            p = n.parent
            if p is not None and p.k == 'CStyleCastExpr' and p.tt == 'void':
                return None
            if p is not None and p.k == 'CXXOperatorCallExpr' and p.op == '=' and p.c[0] is n:
                failed = frozenset(x for x in failed if x[0] != n.v)
                return [(failed, frozenset(x for x in pend if x[0] != n.v) | {(n.v, n.n, n.l)})]
            if any(x[0] == n.v for x in pend):
                return [(failed, frozenset(x for x in pend if x[0] != n.v))]
        return None

    def on_branch(self, st, cond, truth, ctx):
        failed, pend = st
        v = ok_var(cond)
        if v is not None and not truth:
            return (failed | {(v[0], v[1], cond.l)}, pend)
        return st

    def classify_return(self, st, val, env, ctx):
        fn = ctx.fn
        v = strip_casts(val)
        if fn.externc or (fn.rt or '').endswith('CapyPDF_EC') or fn.rts == 'CapyPDF_EC':
            return self.ec_kind(v, env)
        return None

    def ec_kind(self, v, env):
        cv = v.cvi()
        if cv is not None:
            return OK if cv == 0 else ERR
        if v.k in CALLS and v.n == 'conv_err' and v.c:
            a = strip_casts(v.c[0])
            if a.cvi() is not None:
                return OK if a.cvi() == 0 else ERR
            t = canon(a)
            if t is not None and ('ok(%s)' % t) in env:
                return OK if env['ok(%s)' % t] else ERR
            if a.k == 'CXXMemberCallExpr' and a.n == 'error':
                return ERR
            if env.get('#%d' % a.id) is not None:
                return env['#%d' % a.id]
            return ANY
        if v.k in CALLS:
            g = callee(self.facts, v)
            if g is not None and g.n == 'handle_exception':
                return ERR
        if v.k == 'CXXMemberCallExpr' and v.n == 'error':
            return ERR
        return ANY


def ok_var(c):
    """expected variable tested by a condition"""
    c, pol = split_not(c)
    if c is None:
        return None
    if c.k == 'CXXMemberCallExpr' and c.n in ('operator bool', 'has_value') and c.obj is not None and is_expected(c.obj.t):
        o = strip_casts(c.obj)
        if o.k == 'DeclRefExpr' and o.v is not None:
            return (o.v, o.n)
    return None


class Checked(Client):
    """unchecked dereference of an expected: state = nothing; consult env through explorer"""


EXT_MUST = {
    'fwrite', 'fread', 'fseek', 'ftell', 'fgetc', 'FT_New_Face', 'FT_New_Memory_Face', 'FT_Load_Glyph', 'FT_Load_Char', 'FT_Init_FreeType',
    'FT_Set_Pixel_Sizes', 'FT_Get_MM_Var', 'FT_Set_Var_Design_Coordinates', 'FT_Set_Named_Instance', 'FT_Load_Sfnt_Table',
    'deflate', 'deflateInit_', 'deflateInit2_', 'compress', 'compress2', 'fflush', 'fsync', 'fileno',
    'png_image_begin_read_from_file', 'png_image_begin_read_from_memory', 'png_image_finish_read', 'png_image_begin_read_from_stdio',
    'TIFFReadScanline', 'TIFFReadEncodedStrip', 'TIFFReadRGBAImage', 'TIFFOpen', 'mmap', 'fstat', 'open', 'cmsSaveProfileToMem',
    'WebPDecodeRGBA', 'fopen', 'fdopen', 'mkstemp', 'rename', 'iconv', 'FT_Get_Char_Index', 'FT_Get_Glyph_Name',
}


def run(facts, r):
    r.rule('discard', 'the result of a call that can fail (std::expected) is never dropped', 250)
    r.rule('unexamined', 'an expected stored in a variable is looked at on every path that reports success', 150)
    r.rule('swallow', 'when an expected is found to hold an error, no path from there reports success', 150)
    r.rule('deref', 'the value of an expected is taken (*x, x->) only where it was found to be present', 20)
    r.rule('no-success-error', 'an error object is never created with the code NoError', 60)
    r.rule('ext-status', 'status results of the C libraries the readers and font code depend on are not dropped', 20)
    live = reachable_all(facts, api_roots(facts))
    for fn in repo_fns(facts):
        if not rel(fn.file).startswith('src/') or fn.key not in live:
            continue
        has_exp = False
        for n in all_nodes(fn):
            if is_expected(n.t) and (n.k in CALLS):
                has_exp = True
                if n.k == 'CXXOperatorCallExpr' and n.op == '=':
                    continue
                if discarded(n):
                    r.bad('discard', n.loc, fn, 'call of %s' % (n.n,), 'the result of %s, which can be an error, is '
                          'dropped' % n.q)
                else:
                    r.ok('discard', '%s %s' % (n.loc, n.n), fn)
            elif n.k == 'DeclStmt' and any(is_expected(d['t']) for d in n.a.get('d', ())):
                has_exp = True
            if n.k == 'CXXMemberCallExpr' and n.n in ('value_or', 'error_or', 'or_else') and n.obj is not None \
                    and is_expected(n.obj.t):
                r.bad('swallow', n.loc, fn, '%s#%s' % (n.n, strip_casts(n.obj).n or strip_casts(n.obj).k),
                      'a failure is replaced by an ordinary value with %s' % n.n)
            if n.k in CALLS and n.ec and not n.rp and n.n in EXT_MUST:
                if discarded(n):
                    r.bad('ext-status', n.loc, fn, 'call of %s' % n.n, 'the status returned by %s is dropped' % n.n)
                else:
                    r.ok('ext-status', '%s %s' % (n.loc, n.n), fn)
            if n.k in CALLS and n.n == 'create_error' or (n.k in CTORS and is_unexpected(n.t) and not n.cm):
                a = strip_casts(n.c[0]) if n.c else None
                if a is not None and a.cvi() == 0 and 'ErrorCode' in (a.t or ''):
                    r.bad('no-success-error', n.loc, fn, 'NoError', 'an error is created with ErrorCode::NoError')
                else:
                    r.ok('no-success-error', n.loc, fn)
        if not has_exp or fn.cfg is None:
            continue
        cl = Swallow(facts)
        ex = Explorer(facts, cl)
        exits = ex.run(fn, (frozenset(), frozenset()))
        rep_ok = is_expected(fn.rt) or fn.externc or fn.rts in ('CapyPDF_EC',)
        seen = set()
        nvars = sum(1 for n in all_nodes(fn) if n.k == 'DeclStmt' for d in n.a.get('d', ()) if is_expected(d['t']))
        for kind, (failed, pend) in exits:
            if kind == ERR:
                continue
            for v in pend:
                if ('p', v[1], v[2]) not in seen:
                    seen.add(('p', v[1], v[2]))
                    r.bad('unexamined', '%s:%d' % (rel(fn.file), v[2]), fn, v[1],
                          'the result kept in "%s" is never examined on a path that reports success' % v[1])
            if kind == OK and failed:
                for v in failed:
                    if ('f', v[1], v[2]) not in seen:
                        seen.add(('f', v[1], v[2]))
                        r.bad('swallow', '%s:%d' % (rel(fn.file), v[2]), fn, v[1],
                              'after "%s" was found to hold an error the function still %s' % (
                                  v[1], 'reports success' if rep_ok else 'carries on and its caller is not told'))
        for i in range(nvars):
            r.ok('unexamined', '%s #%d' % (fn.loc, i), fn)
            r.ok('swallow', '%s #%d' % (fn.loc, i), fn)
        deref(fn, facts, r)


def deref(fn, facts, r):
    sites = []
    for n in all_nodes(fn):
        o = None
        if n.k == 'CXXOperatorCallExpr' and n.op in ('*', '->') and len(n.c) == 1:
            o = n.c[0]
        elif n.k == 'CXXMemberCallExpr' and n.n in ('operator*', 'operator->', 'error', 'value'):
            o = n.obj
        if o is not None and is_expected(o.t):
            sites.append((n, strip_casts(o)))
    if not sites:
        return

    class D(Client):
        def __init__(self):
            self.reached = {}
    # env-sensitive: use a client that records the env through classify hook
    rec = {}

    class E(Explorer):
        def _elem(self, fn2, s, en, rk, e, ctx, inter):
            if not isinstance(e, tuple) and e.id in want:
                d = dict(en)
                p = path(want[e.id])
                st = d.get('ok(%s)' % pstr(p)) if p is not None else None
                rec.setdefault(e.id, set()).add(st)
            return Explorer._elem(self, fn2, s, en, rk, e, ctx, inter)
    want = {n.id: o for n, o in sites}
    E(facts, D()).run(fn, 0)
    for n, o in sites:
        sts = rec.get(n.id, set())
        isval = not (n.k == 'CXXMemberCallExpr' and n.n == 'error')
        nm = o.n or o.k
        if isval and n.n == 'value':
            if False in sts:
                r.bad('deref', n.loc, fn, 'value of %s' % nm, 'the value is taken on a path where an error is known to be held')
            else:
                r.ok('deref', '%s %s' % (n.loc, nm), fn)
        elif isval:
            if sts and sts != {True}:
                r.bad('deref', n.loc, fn, 'deref of %s' % nm, 'the value is taken without the error having been ruled out')
            else:
                r.ok('deref', '%s %s' % (n.loc, nm), fn)
        else:
            if sts and True in sts:
                r.bad('deref', n.loc, fn, 'error of %s' % nm, 'error() is read where a value is known to be held')
            else:
                r.ok('deref', '%s %s' % (n.loc, nm), fn)
