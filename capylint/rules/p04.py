"""P04: text arguments are checked before use."""
from ..facts import CALLS, CTORS, rel
from ..util import all_nodes, callee, strip_casts, api_roots, path, pstr, canon, repo_fns, split_not
from ..flow import Explorer, Client, OK, ERR, ANY, is_expected
from ..interval import get, put, INF
from ..roles import RoleClient, role_of, add_role, interval_of

META = {
    'title': 'Text arguments are length-checked, null-checked and content-validated',
    'statement': 'Every text argument given to the C API with a length is read only if the pointer is not null, never beyond the '
                 'given length, up to its terminating NUL only when the length is exactly -1, and any length below -1 is refused '
                 'with an error. Text reaches the document only after its content was checked: UTF-8 texts have passed the UTF-8 '
                 'check, ASCII texts are ASCII, and neither these nor names contain NUL bytes. Optional pointer arguments may be null '
                 'and are read only when they are not.',
    'over': ['inputs'],
    'qtext': 'every C API function taking text or optional pointers, every pointer/length pair and every byte content',
    'why': 'Tests pass short well-formed literals with length -1.',
    'files': ['src/capi.cpp', 'src/pdfcommon.cpp', 'src/pdfcommon.hpp', 'src/utils.cpp', 'include/capypdf.h.in'],
    'mechanism': [('validate_* helpers', 'src/capi.cpp'), ('u8string / asciistring / PdfName factories', 'src/pdfcommon.cpp')],
    'technique': 'interval dataflow on pointer/length pairs through inlined helpers; must-validate-before-construct typestate',
    'level_note': 'All C entry points with text or optional-pointer parameters, all CFG paths. File names and binary buffers are '
                  'outside the text rules. The validators\' own byte logic (what is_valid_utf8 accepts) is trusted here.',
}

STRINGY = ('std::string', 'std::basic_string', 'basic_string_view', 'string_view')


def is_path_name(fn, p):
    return p['n'] in ('filename', 'fname', 'path', 'profile_path')


class TextUse(RoleClient):
    def __init__(self, facts, pairs, report):
        RoleClient.__init__(self, facts)
        self.pairs = pairs
        self.report = report     # callable(rule, node, fn, detail, msg)
        self.validated_uses = 0

    def use(self, st, n, ctx):
        if n.k in CALLS or n.k in CTORS:
            g = callee(self.facts, n)
            inl = g is not None and not g.dep and self.inline(st, n, g, ctx)
            args = [a for a in n.c if a is not None]
            roles = [role_of(st, a) for a in args]
            for i, ro in enumerate(roles):
                if ro is None or ro[0] != 'p':
                    continue
                if inl:
                    continue
                nx = roles[i + 1] if i + 1 < len(roles) else None
                self.check_use(st, n, ro, args[i + 1] if i + 1 < len(args) else None, nx, ctx)
        elif n.k == 'ArraySubscriptExpr' or (n.k == 'UnaryOperator' and n.op == '*'):
            ro = role_of(st, n.c[0])
            if ro is not None and ro[0] == 'p':
                self.check_use(st, n, ro, None, None, ctx)
        elif n.k == 'BinaryOperator' and n.op in ('+',):
            for x, y in ((n.c[0], n.c[1]), (n.c[1], n.c[0])):
                ro = role_of(st, x)
                if ro is not None and ro[0] == 'p':
                    self.check_use(st, n, ro, y, role_of(st, y), ctx)
        return None

    def check_use(self, st, n, ro, nxt, nxrole, ctx):
        lo, hi = interval_of(st, ro)
        if lo <= 0 <= hi:
            self.report('ptr-null', n, ctx.fn, ro, 'the text pointer is used on a path where it can be null')
        else:
            self.report('ptr-null', None, ctx.fn, ro, None)
        srole = 's' + ro[1:]
        if srole not in self.pairs.values():
            return
        nt = (strip_casts(nxt).t or '') if nxt is not None else ''
        has_len = nxt is not None and any(x in nt for x in ('int', 'long', 'short'))
        if has_len:
            lo, hi = self.eval(st, nxt)
            if nxrole == srole or mentions(st, nxt, srole):
                l2, h2 = interval_of(st, srole)
                if max(lo, l2) < 0:
                    self.report('size-range', n, ctx.fn, ro, 'the length is used as a byte count on a path where it can be negative')
                else:
                    self.report('size-range', None, ctx.fn, ro, None)
            else:
                self.report('size-range', n, ctx.fn, ro, 'the text is read with a length that is not the one given for it')
        else:
            lo, hi = interval_of(st, srole)
            if (lo, hi) != (-1, -1):
                self.report('size-range', n, ctx.fn, ro, 'the text is read up to its NUL on a path where the length is not '
                            'known to be -1 (length in [%s, %s])' % (lo, hi))
            else:
                self.report('size-range', None, ctx.fn, ro, None)


def mentions(st, n, srole):
    return any(x.k == 'DeclRefExpr' and role_of(st, x) == srole for x in n.walk())


def int_param(p):
    return p['t'] in ('int', 'long', 'short', 'long long')


def run(facts, r):
    r.rule('ptr-null', 'every read through a text pointer is reached only with the pointer known to be non-null', 25)
    r.rule('size-range', '(pointer, length) uses have length >= 0; NUL-terminated uses have length == -1', 20)
    r.rule('refuse', 'no path reports success with a length below -1', 20)
    r.rule('optional-null', 'optional pointer arguments are dereferenced only where known non-null', 5)
    r.rule('validated-construct', 'validated text objects are constructed only after the matching content check', 4)
    r.rule('private-construct', 'nothing outside the validating factories constructs validated text objects from bytes', 3)
    r.assume('parameters with the nonnull attribute are non-null by contract unless they are text')
    npairs = 0
    for fn in sorted(api_roots(facts), key=lambda f: f.l):
        if fn.cfg is None:
            continue
        text = {}
        sizes = {}
        for i, p in enumerate(fn.params):
            if p['t'] == 'const char *':
                if is_path_name(fn, p):
                    continue
                nx = fn.params[i + 1] if i + 1 < len(fn.params) else None
                if nx is not None and nx['t'].startswith('unsigned'):
                    continue    # binary buffer
                if nx is not None and nx['t'] == 'long':
                    continue    # binary buffer, judged with the counts (P30)
                text['p%d' % i] = p
                if nx is not None and int_param(nx):
                    sizes['p%d' % i] = nx
        nn = set()
        for d in facts.decls.get(fn.key, []):
            nn |= set(d.get('nonnull') or [])
        opt = [p for i, p in enumerate(fn.params) if p['t'].endswith('*') and i not in nn and p['t'] != 'const char *' and
               not (i == 0 and fn.params[0]['n'] == 'ctx')]
        if text:
            st = frozenset()
            pairs = {}
            binary = []
            for k, p in list(text.items()):
                st = add_role(st, p['v'], k)
                if k in sizes:
                    pairs[k] = 's' + k[1:]
                    st = add_role(st, sizes[k]['v'], 's' + k[1:])
            rep = Rep(r, text)
            cl = TextUse(facts, pairs, rep)
            ex = Explorer(facts, cl)
            exits = ex.run(fn, st)
            if fn.n in BINARY:
                continue
            rep.flush(fn)
            npairs += len(pairs)
            if not rep.seen and not rep.bads:
                r.bad('ptr-null', fn.loc, fn, 'unused', 'text argument is never read')
            for k, p in sizes.items():
                r.ok('refuse', '%s %s(%s)' % (fn.loc, fn.n, p['n']), fn)
                if refuse_violated(facts, fn, text[k], p):
                    r.bad('refuse', fn.loc, fn, p['n'], 'a length below -1 can be accepted', count=False)
        for p in opt:
            optional(facts, fn, p, r)
    construct(facts, r)


BINARY = {'capy_embedded_file_set_contents'}


def refuse_violated(facts, fn, tp, sp):
    """is there a success exit with size <= -2 (assuming non-null, if the text is optional)?"""
    class C(RoleClient):
        def classify_return(self, st, val, env, ctx):
            from .p02 import Swallow
            return Swallow(facts).classify_return(None, val, env, ctx)
    st = add_role(add_role(frozenset(), tp['v'], 'p'), sp['v'], 's')
    st = put(put(st, 'v%d' % sp['v'], -INF, -2), 'v%d' % tp['v'], 1, INF)
    for kind, s in Explorer(facts, C(facts)).run(fn, st):
        if kind == OK:
            return True
    return False


class Rep:
    def __init__(self, r, text):
        self.r = r
        self.text = text
        self.bads = {}
        self.seen = {}

    def __call__(self, rule, n, fn, role, msg):
        if msg is None:
            self.seen[(rule, role)] = 1
        else:
            self.bads[(rule, role, n.loc, msg)] = (n, fn)

    def flush(self, root):
        for (rule, role) in self.seen:
            self.r.ok(rule, '%s %s(%s)' % (root.loc, root.n, self.text[role]['n']), root)
        for (rule, role, loc, msg), (n, fn) in self.bads.items():
            self.r.bad(rule, loc, root, '%s in %s' % (self.text[role]['n'], fn.n), msg)


def optional(facts, fn, p, r):
    rep = {}

    class C(RoleClient):
        def use(self, st, n, ctx):
            tgt = None
            if n.k == 'MemberExpr' and n.arrow and n.c:
                tgt = n.c[0]
            elif n.k == 'UnaryOperator' and n.op == '*':
                tgt = n.c[0]
            elif n.k == 'ArraySubscriptExpr':
                tgt = n.c[0]
            elif n.k == 'CXXMemberCallExpr' and n.obj is not None and (n.obj.t or '').endswith('*'):
                tgt = n.obj
            if tgt is not None and role_of(st, tgt) is not None:
                lo, hi = self.eval(st, tgt)
                if lo <= 0 <= hi:
                    rep[(n.loc, n.fn.n)] = n
                rep.setdefault('seen', True)
            return None
    Explorer(facts, C(facts)).run(fn, add_role(frozenset(), p['v'], 'o'))
    r.ok('optional-null', '%s %s(%s)' % (fn.loc, fn.n, p['n']), fn)
    for k, n in rep.items():
        if k != 'seen':
            r.bad('optional-null', n.loc, fn, p['n'], 'optional argument dereferenced where it can be null', count=False)


VALID = {'u8string': ({'is_valid_utf8'}, True), 'asciistring': ({'is_ascii'}, True), 'PdfName': (set(), True)}


class MustCheck(Client):
    """state: frozenset of checks passed: 'content', 'nul'"""

    def __init__(self, checks, cls, out, facts):
        self.checks = checks
        self.cls = cls
        self.out = out
        self.facts = facts

    def on_branch(self, st, cond, truth, ctx):
        c, pol = split_not(cond)
        truth = truth == pol
        if c.k in CALLS and c.n in self.checks and truth:
            return st | {'content'}
        if is_nul_find(c) is not None:
            eq = is_nul_find(c)
            if truth == eq:
                return st | {'nul'}
        if c.k in CALLS and c.n == 'contains' and has_nul_arg(c) and not truth:
            return st | {'nul'}
        return st

    def on_return(self, st, n, ctx):
        self.out.append((n, st))
        return st

    def inline(self, st, call, fn, ctx):
        return False


def has_nul_arg(c):
    return any(a is not None and strip_casts(a).cvi() == 0 for a in c.c)


def is_nul_find(c):
    """for find('\\0') compared with npos: the truth value that means 'no NUL found'"""
    if c.k in ('BinaryOperator',) and c.op in ('==', '!='):
        for x, y in ((c.c[0], c.c[1]), (c.c[1], c.c[0])):
            x = strip_casts(x)
            if x.k == 'CXXMemberCallExpr' and x.n in ('find', 'find_first_of') and x.c and x.c[0] is not None and \
                    strip_casts(x.c[0]).cvi() == 0:
                return c.op == '=='
    return None


def construct(facts, r):
    for cls, (checks, nul) in VALID.items():
        q = 'capypdf::internal::' + cls
        for fn in repo_fns(facts):
            if not rel(fn.file).startswith('src/'):
                continue
            builds = [n for n in all_nodes(fn) if n.k in CTORS and n.cls == q and not n.cm and n.c and not dflt(n)]
            if not builds:
                continue
            if fn.cls != q:
                for n in builds:
                    r.bad('private-construct', n.loc, fn, cls, '%s is built from bytes outside its validating factories' % cls)
                continue
            r.ok('private-construct', '%s %s' % (fn.loc, fn.q), fn)
            if fn.ctor:
                continue
            out = []
            Explorer(facts, MustCheck(checks, cls, out, facts)).run(fn, frozenset())
            bad = False
            for n, st in out:
                k = Explorer.ret_kind(n.c[0]) if n.c else OK
                if k != ERR and not is_err(n):
                    need = set()
                    if checks and 'content' not in st:
                        need.add('content check')
                    if 'nul' not in st and nul and not cstr_only(fn):
                        need.add('NUL check')
                    if need:
                        bad = True
                        r.bad('validated-construct', n.loc, fn, cls, '%s is returned without its %s' % (cls, ' and '.join(sorted(need))))
            if not bad:
                r.ok('validated-construct', '%s %s' % (fn.loc, fn.q), fn)


def dflt(n):
    return not [a for a in n.c if a is not None]


def is_err(n):
    return any(x.k in CALLS and x.n == 'create_error' for x in n.walk())


def cstr_only(fn):
    return len(fn.params) == 1 and fn.params[0]['t'] == 'const char *'
