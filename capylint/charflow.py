"""Per-byte value-set dataflow: what a function that copies a text character by character emits for each input byte.

State: the set of values the current input character can have on this path, and the output emitted since the
start of the iteration (a sequence of literal bytes, 'C' = the character itself, 'X2'/'X2U' = its two hex digits).
"""
from .facts import CALLS, CTORS
from .util import strip_casts, callee, lit_str

ALL = frozenset(range(256))
LOOPS = ('CXXForRangeStmt', 'ForStmt', 'WhileStmt', 'DoStmt')
UNK = ('U',)
MAXSTATES = 3000


class TooHard(Exception):
    pass


def text_type(t):
    t = (t or '').replace('const ', '').rstrip(' &*')
    return t in ('std::basic_string<char>', 'std::basic_string_view<char>', 'char', 'capypdf::internal::u8string',
                 'capypdf::internal::asciistring', 'capypdf::internal::PdfName', 'std::span<const char>',
                 'std::vector<char>', 'std::span<std::byte>', 'std::vector<std::byte>', 'unsigned char')


def char_type(t):
    return (t or '').replace('const ', '').rstrip(' &') in ('char', 'unsigned char', 'signed char', 'std::byte', 'char8_t')


def signed_view(t, b):
    t = (t or '').replace('const ', '').rstrip(' &')
    if t in ('char', 'signed char') and b >= 128:
        return b - 256
    return b


class Interp:
    """explores one function; env maps variable -> abstract value"""

    def __init__(self, facts, depth=0):
        self.facts = facts
        self.depth = depth

    # integer value of an expression when the current character is b
    def num(self, n, env, b):
        if n is None:
            return None
        v = self._num(n, env, b)
        if v is None:
            return None
        return conv(n, v)

    def _num(self, n, env, b):
        if n.k in ('CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'CXXReinterpretCastExpr') and n.c:
            return trunc(n.t, self.num(n.c[0], env, b))
        if n.cv is not None and n.k not in ('DeclRefExpr',):
            return int(n.cv)
        if n.k == 'ParenExpr':
            return self.num(n.c[0], env, b)
        if n.k == 'DeclRefExpr':
            if n.v is not None and n.v in env:
                val = env[n.v]
                if val[0] == 'C':
                    return signed_view(n.t, b) if b is not None else None
                if val[0] == 'N':
                    return val[1]
                return None
            return int(n.cv) if n.cv is not None else None
        if self.is_char(n, env):
            return signed_view(n.t, b) if b is not None else None
        if n.k == 'UnaryOperator':
            x = self.num(n.c[0], env, b)
            if x is None:
                return None
            return {'!': int(not x), '-': -x, '~': ~x, '+': x}.get(n.op)
        if n.k == 'BinaryOperator':
            x = self.num(n.c[0], env, b)
            if n.op == '&&':
                if x == 0:
                    return 0
                y = self.num(n.c[1], env, b)
                return 0 if y == 0 else (None if x is None or y is None else 1)
            if n.op == '||':
                if x:
                    return 1
                y = self.num(n.c[1], env, b)
                return 1 if y else (None if x is None or y is None else 0)
            y = self.num(n.c[1], env, b)
            if x is None or y is None:
                return None
            try:
                return {'<': lambda: int(x < y), '>': lambda: int(x > y), '<=': lambda: int(x <= y),
                        '>=': lambda: int(x >= y), '==': lambda: int(x == y), '!=': lambda: int(x != y),
                        '+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '&': lambda: x & y,
                        '|': lambda: x | y, '^': lambda: x ^ y, '>>': lambda: x >> y, '<<': lambda: x << y,
                        '/': lambda: x // y, '%': lambda: x % y}[n.op]()
            except Exception:
                return None
        if n.k == 'ConditionalOperator':
            c = self.num(n.c[0], env, b)
            if c is None:
                return None
            return self.num(n.c[1] if c else n.c[2], env, b)
        if n.k in CALLS:
            g = callee(self.facts, n)
            if g is not None and not g.dep and g.cfg is not None and self.depth < 8 and b is not None:
                e2 = {}
                for p, a in zip(g.params, n.c):
                    if self.is_char(a, env):
                        e2[p['v']] = ('C',)
                    else:
                        x = self.num(a, env, b)
                        if x is not None:
                            e2[p['v']] = ('N', x)
                try:
                    res = Interp(self.facts, self.depth + 1).run(g, e2, frozenset({b}))
                except TooHard:
                    return None
                vals = {r[2] for r in res['ret']}
                if len(vals) == 1:
                    v = next(iter(vals))
                    if v[0] == 'N':
                        return v[1]
                return None
            if n.n in ('isalnum', 'isalpha', 'isdigit', 'isprint', 'isgraph', 'isspace', 'iscntrl', 'ispunct', 'isxdigit',
                       'isupper', 'islower') and n.c:
                x = self.num(n.c[0], env, b)
                if x is None:
                    return None
                c = chr(x & 255)
                if x < 0 or x > 127:
                    return 0
                return int({'isalnum': c.isalnum(), 'isalpha': c.isalpha(), 'isdigit': c.isdigit(),
                            'isprint': 32 <= x < 127, 'isgraph': 32 < x < 127, 'isspace': c in ' \t\n\r\v\f',
                            'iscntrl': x < 32 or x == 127, 'ispunct': 32 < x < 127 and not c.isalnum(),
                            'isxdigit': c in '0123456789abcdefABCDEF', 'isupper': c.isupper(),
                            'islower': c.islower()}[n.n])
            if n.n in ('strchr', 'memchr') and len(n.c) >= 2:
                s = lit_str(n.c[0])
                x = self.num(n.c[1], env, b)
                if s is None or x is None:
                    return None
                return int(chr(x & 255) in s + ('\0' if n.n == 'strchr' else ''))
            if n.k == 'CXXMemberCallExpr' and n.n in ('find', 'contains', 'find_first_of') and n.obj is not None and n.c:
                s = self.const_str(n.obj, env)
                x = self.num(n.c[0], env, b)
                if s is None or x is None:
                    return None
                if n.n == 'contains':
                    return int((x & 255) in s)
                return s.index(x & 255) if (x & 255) in s else (1 << 64) - 1
        return None

    def const_str(self, n, env):
        s = lit_str(n)
        if s is not None:
            return tuple(x & 255 for x in s.encode('latin-1', 'replace'))
        n = strip_casts(n)
        if n is not None and n.k == 'DeclRefExpr':
            if n.v in env and env[n.v][0] == 'S':
                p = env[n.v][1]
                if all(isinstance(x, int) for x in p):
                    return p
            if n.dk == 'global':
                for g in self.facts.globals:
                    if g['q'] == n.q and g['var'].get('i') is not None:
                        s = lit_str(g['var']['i'])
                        if s is not None:
                            return tuple(s.encode('latin-1', 'replace'))
        return None

    def is_char(self, n, env):
        """does this expression denote the current input character?"""
        n = strip_casts(n)
        if n is None:
            return False
        if n.k == 'DeclRefExpr':
            return n.v is not None and env.get(n.v, UNK)[0] == 'C'
        if n.k in ('UnaryOperator', 'CXXOperatorCallExpr') and n.op == '*' and len(n.c) == 1:
            return self.is_iter(n.c[0], env) and char_type(n.t)
        if n.k == 'ArraySubscriptExpr' or (n.k == 'CXXOperatorCallExpr' and n.op == '[]'):
            return char_type(n.t) and self.is_input(n.c[0], env)
        if n.k == 'CXXMemberCallExpr' and n.n in ('at', 'front', 'back') and n.obj is not None:
            return char_type(n.t) and self.is_input(n.obj, env)
        return False

    def is_input(self, n, env):
        n = strip_casts(n)
        if n is None:
            return False
        if n.k == 'DeclRefExpr':
            return n.v is not None and env.get(n.v, UNK)[0] == 'I'
        if n.k == 'CXXMemberCallExpr' and n.n in ('sv', 'data', 'c_str', 'view', 'substr') and n.obj is not None:
            return self.is_input(n.obj, env)
        if n.k in CTORS and len(n.c) >= 1:
            return self.is_input(n.c[0], env)
        if n.k == 'CXXMemberCallExpr' and n.n and n.n.startswith('operator ') and n.obj is not None:
            return self.is_input(n.obj, env)
        return False

    def is_iter(self, n, env):
        n = strip_casts(n)
        if n is None:
            return False
        if n.k == 'DeclRefExpr':
            return n.v is not None and env.get(n.v, UNK)[0] in ('IT', 'I')
        if n.k == 'CXXMemberCallExpr' and n.n in ('begin', 'cbegin', 'data', 'c_str') and n.obj is not None:
            return self.is_input(n.obj, env)
        if n.k == 'CallExpr' and n.n in ('begin', 'cbegin') and n.c:
            return self.is_input(n.c[0], env)
        if n.k == 'UnaryOperator' and n.op in ('++', '&') and n.c:
            return self.is_iter(n.c[0], env)
        if n.k == 'BinaryOperator' and n.op == '+':
            return self.is_iter(n.c[0], env) or self.is_iter(n.c[1], env)
        return False

    # abstract value of an expression being appended / bound: list of (S, value) alternatives
    def val(self, n, env, S):
        n0 = n
        n = strip_casts(n)
        if n is None:
            return [(S, UNK)]
        if self.is_char(n, env):
            return [(S, ('S', ('C',)) if False else ('C',))]
        if n.k == 'DeclRefExpr' and n.v in env:
            return [(S, env[n.v])]
        if self.is_input(n, env):
            return [(S, ('I',))]
        if self.is_iter(n, env):
            return [(S, ('IT',))]
        cs = self.const_str(n, env)
        if cs is not None:
            return [(S, ('S', cs))]
        if n.k == 'ConditionalOperator':
            out = []
            for truth, s2 in self.split(n.c[0], env, S):
                out += self.val(n.c[1] if truth else n.c[2], env, s2)
            return out
        if n.k == 'InitListExpr' and n.c and all(x is None or strip_casts(x).cvi() is not None for x in n.c):
            bs = []
            for x in n.c:
                v = strip_casts(x).cvi() & 255
                if v == 0:
                    break
                bs.append(v)
            return [(S, ('S', tuple(bs)))]
        if n.k in CTORS:
            args = [a for a in n.c if a is not None]
            if not args:
                return [(S, ('S', ()))]
            if len(args) >= 2 and strip_casts(args[0]).cvi() is not None and char_type(args[1].t):
                cnt = strip_casts(args[0]).cvi()
                return [(s, ('S', elem(v) * cnt) if v[0] in ('C', 'N') and cnt < 16 else UNK) for s, v in self.val(args[1], env, S)]
            return self.val(args[0], env, S)
        if n.k == 'CallExpr' and n.n == 'format' and n.c:
            return [(S, self.fmt(n.c, env))]
        if n.k == 'CallExpr' and n.n in ('move', 'forward') and n.c:
            return self.val(n.c[0], env, S)
        if n.k == 'CXXMemberCallExpr' and n.n in ('sv', 'c_str', 'data', 'view') and n.obj is not None:
            return self.val(n.obj, env, S)
        if n.k == 'CXXOperatorCallExpr' and n.op == '+' and len(n.c) == 2:
            out = []
            for s1, a in self.val(n.c[0], env, S):
                for s2, b in self.val(n.c[1], env, s1):
                    ea, eb = elem(a), elem(b)
                    out.append((s2, UNK if ea is None or eb is None else ('S', ea + eb)))
            return out
        if n.k in CALLS:
            g = callee(self.facts, n)
            if g is not None and not g.dep and g.cfg is not None and self.depth < 8:
                return [(s, v) for (s, p, v) in self.call(n, g, env, S) if not p] or [(S, UNK)]
        # integer for every byte?
        vals = {self.num(n0, env, b) for b in S} if S is not None else {self.num(n0, env, None)}
        if len(vals) == 1 and None not in vals:
            return [(S, ('N', next(iter(vals))))]
        if None not in vals and len(vals) <= 256:
            groups = {}
            for b in S:
                groups.setdefault(self.num(n0, env, b), set()).add(b)
            return [(frozenset(s), ('N', v)) for v, s in groups.items()]
        return [(S, UNK)]

    def fmt(self, args, env):
        """pattern of a std::format call (format string first)"""
        f = lit_str(args[0])
        rest = args[1:]
        if f is None:
            return UNK
        # arguments may be bundled in make_format_args
        out = []
        i = 0
        k = 0
        while i < len(f):
            c = f[i]
            if c in '{}' and i + 1 < len(f) and f[i + 1] == c:
                out.append(ord(c))
                i += 2
                continue
            if c == '{':
                j = f.index('}', i)
                spec = f[i + 1:j]
                i = j + 1
                if k >= len(rest):
                    return UNK
                a = rest[k]
                k += 1
                e = self.fmtarg(spec, a, env)
                if e is None:
                    return UNK
                out += e
                continue
            out.append(ord(c) & 255)
            i += 1
        return ('S', tuple(out))

    def fmtarg(self, spec, a, env):
        if self.is_char(a, env):
            sx = spec.lstrip(':')
            uns = unsigned_view(a)
            if sx in ('02x', '02X') and uns:
                return ['X2']
            if sx == '' and (strip_casts(a).t or '').replace('const ', '') == 'char':
                return ['C']
            return None
        for s, v in self.val(a, env, None):
            e = elem(v)
            return list(e) if e is not None else None
        return None

    def split(self, cond, env, S):
        """-> [(truth, S')]"""
        if S is None:
            v = self.num(cond, env, None)
            if v is None:
                return [(True, None), (False, None)]
            return [(bool(v), None)]
        t, f = set(), set()
        for b in S:
            v = self.num(cond, env, b)
            if v is None:
                t.add(b)
                f.add(b)
            elif v:
                t.add(b)
            else:
                f.add(b)
        out = []
        if t:
            out.append((True, frozenset(t)))
        if f:
            out.append((False, frozenset(f)))
        return out

    def call(self, n, g, env, S):
        """inline a repository callee: -> [(S', emitted pattern, return value)]"""
        args = n.c
        if n.k == 'CXXOperatorCallExpr' and g.cls and not g.static:
            args = args[1:]
        e2 = {}
        related = False
        for p, a in zip(g.params, args):
            if a is None:
                continue
            if self.is_char(a, env) and char_type(p['t']) or (self.is_char(a, env) and (p['t'] or '') in ('int', 'unsigned int')):
                e2[p['v']] = ('C',)
                related = True
            elif self.is_input(a, env):
                e2[p['v']] = ('I',)
            else:
                for s, v in self.val(a, env, None)[:1]:
                    e2[p['v']] = v
                x = strip_casts(a)
                if x is not None and x.k == 'DeclRefExpr' and env.get(x.v, UNK)[0] == 'O':
                    related = True
                    e2[p['v']] = ('O',)
                if (p['t'] or '').endswith('&') and 'basic_string<char>' in p['t'] and not p['t'].startswith('const'):
                    e2[p['v']] = ('O',)
                    related = True
        if not related and not any(v[0] == 'I' for v in e2.values()):
            return [(S, (), UNK)]
        sub = Interp(self.facts, self.depth + 1)
        res = sub.run(g, e2, S)
        if res['iter'] or res['pre']:
            return [(S, ('U',), UNK)]
        return list(res['ret'])

    def run(self, fn, env0, S0):
        """-> {'pre': patterns before the loop, 'iter': [(S, pattern)], 'ret': [(S, pattern, value)]}"""
        cfg = fn.cfg
        if cfg is None or self.depth > 8:
            raise TooHard()
        env0 = dict(env0)
        for p in fn.params:
            t = p['t'] or ''
            if p['v'] not in env0 and t.endswith('&') and not t.startswith('const') and 'basic_string<char>' in t:
                env0[p['v']] = ('O',)
        pre, iters, ret = set(), set(), set()
        init = (frozenset(env0.items()), S0, ())
        seen = {}
        work = [(cfg.entry, init)]
        nst = 0
        while work:
            bi, (en, S, pat) = work.pop()
            b = cfg.blocks[bi]
            nst += 1
            if nst > MAXSTATES:
                raise TooHard()
            if b.tk in LOOPS and self.depth == 0:
                # iteration boundary
                if S is None:
                    if pat:
                        pre.add(pat)
                else:
                    iters.add((S, pat))
                pat = ()
                S = None
                en = frozenset((k, v) for k, v in en if v[0] not in ('C', 'HX'))
            elif b.tk in LOOPS:
                pass
            states = [(dict(en), S, pat)]
            returned = False
            for e in b.e:
                if isinstance(e, tuple):
                    continue
                if e.k == 'ReturnStmt':
                    for (d, s, p) in states:
                        if e.c and e.c[0] is not None:
                            for s2, v in self.val(e.c[0], d, s):
                                ret.add((s2, p, v))
                        else:
                            ret.add((s, p, ('V',)))
                    returned = True
                    break
                nxt = []
                for st in states:
                    nxt += self.step(e, st)
                states = nxt
                if len(states) > 600:
                    raise TooHard()
            if returned or b.nr:
                continue
            live = [x for x in b.succs]
            for (d, s, p) in states:
                if b.tk == 'SwitchStmt':
                    self.switch(cfg, b, d, s, p, work, seen)
                    continue
                if len(b.succs) == 2 and b.cond is not None:
                    from .util import branch_cond
                    c = branch_cond(b)
                    for truth, s2 in self.split(c, d, s):
                        su = b.succs[0 if truth else 1]
                        self.push(su, d, s2, p, work, seen)
                    continue
                for su in b.succs:
                    if su == cfg.exit:
                        ret.add((s, p, ('V',)))
                    self.push(su, d, s, p, work, seen)
        return {'pre': pre, 'iter': iters, 'ret': ret}

    def push(self, su, d, s, p, work, seen):
        if su < 0 or len(p) > 24:
            if len(p) > 24:
                raise TooHard()
            return
        st = (frozenset(d.items()), s, p)
        k = seen.setdefault(su, set())
        if st in k:
            return
        k.add(st)
        work.append((su, st))

    def switch(self, cfg, b, d, s, p, work, seen):
        cond = b.cond
        labs = {}
        default = None
        for su in b.succs:
            if su < 0:
                continue
            lab = cfg.blocks[su].lab
            if lab is not None and lab.k == 'CaseStmt':
                labs.setdefault(su, set()).add(strip_casts(lab.c[0]).cvi())
            else:
                default = su
        taken = set()
        if s is None:
            for su in b.succs:
                self.push(su, d, s, p, work, seen)
            return
        for su, vals in labs.items():
            # several labels on one statement
            sub = frozenset(x for x in s if self.num(cond, d, x) in vals)
            unknown = any(self.num(cond, d, x) is None for x in s)
            taken |= sub
            if unknown:
                sub = s
            if sub:
                self.push(su, d, sub, p, work, seen)
        rest = frozenset(x for x in s if x not in taken)
        if default is not None and rest:
            self.push(default, d, rest, p, work, seen)

    def step(self, n, st):
        d, S, pat = st
        if n.k == 'DeclStmt':
            outs = [(d, S, pat)]
            for dv in n.a.get('d', ()):
                v = dv['v']
                i = dv.get('i')
                nxt = []
                for (e, s, p) in outs:
                    e = dict(e)
                    if i is None:
                        e.pop(v, None)
                        nxt.append((e, s, p))
                        continue
                    t = dv['t'] or ''
                    if char_type(t) and self.is_char(i, e):
                        e[v] = ('C',)
                        nxt.append((e, ALL if s is None else s, p))
                        continue
                    if i is not None and strip_casts(i).k in CALLS and strip_casts(i).n == 'back_inserter':
                        e[v] = ('O',)
                        nxt.append((e, s, p))
                        continue
                    if 'basic_string<char>' in t and not dv.get('ref'):
                        # an output being built, or a constant
                        for s2, val in self.val(i, e, s):
                            e2 = dict(e)
                            if t.startswith('const '):
                                e2[v] = val
                                nxt.append((e2, s2, p))
                            elif val == ('S', ()):
                                e2[v] = ('O',)
                                nxt.append((e2, s2, p))
                            elif val[0] == 'S':
                                e2[v] = ('O',)
                                nxt.append((e2, s2, p + val[1]))
                            else:
                                e2[v] = val
                                nxt.append((e2, s2, p))
                        continue
                    for s2, val in self.val(i, e, s):
                        e2 = dict(e)
                        e2[v] = val
                        if val == UNK:
                            e2.pop(v)
                        nxt.append((e2, s2, p))
                outs = nxt
            return outs
        if n.k == 'CXXMemberCallExpr' and n.obj is not None and n.n in ('push_back', 'append', 'assign', 'insert', 'emplace_back'):
            if self.is_out(n.obj, d):
                if n.n in ('assign', 'insert'):
                    return [(d, S, pat + ('U',))]
                return self.emit(n.c, st)
            return [st]
        if n.k == 'CXXOperatorCallExpr' and n.op in ('+=', '=') and len(n.c) == 2 and self.is_out(n.c[0], d):
            if n.op == '=':
                # re-initialising an output before anything was written
                vs = self.val(n.c[1], d, S)
                out = []
                for s, v in vs:
                    e = elem(v)
                    out.append((d, s, pat + e if e is not None else pat + ('U',)))
                return out
            return self.emit([n.c[1]], st)
        if n.k == 'CallExpr' and n.n == 'format_to' and n.c:
            v = self.fmt(n.c[1:], d)
            e = elem(v)
            return [(d, S, pat + (e if e is not None else ('U',)))]
        if n.k == 'CallExpr' and n.n in ('snprintf', 'sprintf') and n.c:
            k = 2 if n.n == 'snprintf' else 1
            f = lit_str(n.c[k])
            tgt = strip_casts(n.c[0])
            if tgt is not None and tgt.k == 'DeclRefExpr':
                d = dict(d)
                args = n.c[k + 1:]
                val = UNK
                if f is not None and len(args) == 1 and self.is_char(args[0], d) and unsigned_view(args[0]):
                    pre, m, post = f.partition('%02x' if '%02x' in f else '%02X')
                    if m and '%' not in pre + post:
                        val = ('S', tuple(pre.encode()) + ('X2',) + tuple(post.encode()))
                if val == UNK:
                    d.pop(tgt.v, None)
                else:
                    d[tgt.v] = val
            return [(d, S, pat)]
        if n.k in CALLS:
            g = callee(self.facts, n)
            if g is not None and not g.dep and g.cfg is not None and self.depth < 8:
                if any(a is not None and (self.is_out(a, d) or self.out_field_arg(a)) for a in n.c) or (
                        n.obj is not None and strip_casts(n.obj).k == 'CXXThisExpr'):
                    res = self.call(n, g, d, S)
                    return [(d, s, pat + p) for s, p, v in res] or []
        if n.k == 'BinaryOperator' and n.op == '=':
            t = strip_casts(n.c[0])
            if t is not None and t.k == 'DeclRefExpr' and t.v is not None:
                out = []
                for s, v in self.val(n.c[1], d, S):
                    e = dict(d)
                    if v == UNK:
                        e.pop(t.v, None)
                    else:
                        e[t.v] = v
                    out.append((e, (ALL if s is None and v[0] == 'C' else s), pat))
                return out
        if n.k in ('UnaryOperator', 'CompoundAssignOperator') and (n.op in ('++', '--') or n.k == 'CompoundAssignOperator'):
            t = strip_casts(n.c[0])
            if t is not None and t.k == 'DeclRefExpr' and t.v in d and d[t.v][0] in ('N', 'C'):
                e = dict(d)
                e.pop(t.v)
                return [(e, S, pat)]
        return [st]

    def out_field_arg(self, a):
        a = strip_casts(a)
        return a is not None and a.k == 'MemberExpr' and a.dk == 'field' and 'basic_string<char>' in (a.t or '')

    def is_out(self, n, env):
        n = strip_casts(n)
        if n is None:
            return False
        if n.k == 'DeclRefExpr':
            return env.get(n.v, UNK)[0] == 'O'
        if n.k == 'MemberExpr' and n.dk == 'field':
            return 'basic_string<char>' in (n.t or '')
        if n.k in ('UnaryOperator', 'CXXOperatorCallExpr') and n.op == '*' and n.c:
            return self.is_out(n.c[0], env)
        return False

    def emit(self, args, st):
        d, S, pat = st
        args = [a for a in args if a is not None and a.k != 'CXXDefaultArgExpr']
        if len(args) == 2 and (strip_casts(args[0]).cvi() is not None):
            cnt = strip_casts(args[0]).cvi()
            a = args[1]
            out = []
            for s, v in self.val(a, d, S):
                e = elem(v)
                out.append((d, s, pat + (e * cnt if e is not None and cnt < 16 else ('U',))))
            return out
        if len(args) != 1:
            return [(d, S, pat + ('U',))]
        a = args[0]
        if S is None and self.is_char(a, d):
            S = ALL
        out = []
        for s, v in self.val(a, d, S):
            e = elem(v)
            out.append((d, s, pat + (e if e is not None else ('U',))))
        return out


def unsigned_view(a):
    """the character reaches the formatter as a value 0..255"""
    n = a
    while n is not None:
        t = (n.t or '').replace('const ', '').rstrip(' &')
        if t in ('unsigned char', 'std::byte', 'unsigned char &'):
            return True
        if n.k in ('CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'ParenExpr', 'ImplicitCastExpr') and n.c:
            n = n.c[0]
            continue
        return False
    return False


def elem(v):
    if v[0] == 'C':
        return ('C',)
    if v[0] == 'N':
        return (v[1] & 255,)
    if v[0] == 'S':
        return v[1]
    return None


def conv(n, v):
    if n.ic:
        return trunc(n.ic, v)
    return v


def trunc(t, v):
    if v is None:
        return None
    t = (t or '').replace('const ', '')
    if t == 'unsigned char':
        return v & 255
    if t in ('char', 'signed char'):
        v &= 255
        return v - 256 if v > 127 else v
    if t == 'unsigned int':
        return v & 0xffffffff
    if t == 'unsigned long':
        return v & 0xffffffffffffffff
    if t == 'bool':
        return int(bool(v))
    return v


# -- judging the output

LITSPECIAL = {ord('('), ord(')'), ord('\\'), 13}
REGULAR = frozenset(c for c in range(0x21, 0x7f) if chr(c) not in '#()<>[]{}/%')
BACKSLASH = ord('\\')


def lit_ok(S, pat):
    """why not? None when the pattern is well-formed inside a literal string and decodes to the character"""
    i = 0
    dec = []
    while i < len(pat):
        e = pat[i]
        if e == 'U' or e == 'X2':
            return 'emits something the analysis cannot relate to the input'
        if e == BACKSLASH:
            if i + 1 >= len(pat):
                return 'ends in a bare backslash'
            f = pat[i + 1]
            if f == 'C':
                if not S <= {ord('('), ord(')'), BACKSLASH}:
                    return 'puts a backslash before %s, which changes its meaning' % show(S - {40, 41, 92})
                dec.append('C')
            elif f in (ord('('), ord(')'), BACKSLASH):
                dec.append(f)
            elif f in b'nrtbf':
                dec.append({'n': 10, 'r': 13, 't': 9, 'b': 8, 'f': 12}[chr(f)])
            else:
                return 'emits an unknown escape'
            i += 2
            continue
        if e == 'C':
            bad = S & LITSPECIAL
            if bad:
                return 'copies %s unescaped' % show(bad)
            dec.append('C')
        elif e in LITSPECIAL:
            return 'emits a bare %r' % chr(e)
        else:
            dec.append(e)
        i += 1
    return decoded(S, dec, allow=(BACKSLASH,))


def decoded(S, dec, allow=()):
    want = [d for d in dec if d == 'C' or not (d in allow and not (len(S) == 1 and d in S))]
    if want == ['C']:
        return None
    if len(want) == 1 and len(S) == 1 and want[0] in S:
        return None
    if not dec:
        return 'drops %s' % show(S)
    return 'does not reproduce %s' % show(S)


def name_ok(S, pat):
    i = 0
    dec = []
    while i < len(pat):
        e = pat[i]
        if e == 'U':
            return 'emits something the analysis cannot relate to the input'
        if e == ord('#'):
            if i + 1 < len(pat) and pat[i + 1] == 'X2':
                dec.append('C')
                i += 2
                continue
            if i + 2 < len(pat) and isinstance(pat[i + 1], int) and isinstance(pat[i + 2], int):
                try:
                    dec.append(int(chr(pat[i + 1]) + chr(pat[i + 2]), 16))
                except ValueError:
                    return 'emits a # that starts no escape'
                i += 3
                continue
            return 'emits a # that starts no escape'
        if e == 'X2':
            return 'emits hex digits without #'
        if e == 'C':
            bad = S - REGULAR
            if bad:
                return 'copies %s unescaped' % show(bad)
            dec.append('C')
        elif e in REGULAR:
            dec.append(e)
        else:
            return 'emits a bare %r' % chr(e)
        i += 1
    return decoded(S, dec)


ENT = {'&lt;': 60, '&gt;': 62, '&amp;': 38, '&quot;': 34, '&apos;': 39}


def xml_ok(S, pat, special=frozenset(b'<&')):
    dec = []
    i = 0
    while i < len(pat):
        e = pat[i]
        if e in ('U', 'X2'):
            return 'emits something the analysis cannot relate to the input'
        if e == 38:
            s = ''.join(chr(x) if isinstance(x, int) else '\0' for x in pat[i:i + 6])
            for k, v in ENT.items():
                if s.startswith(k):
                    dec.append(v)
                    i += len(k)
                    break
            else:
                return 'emits a bare &'
            continue
        if e == 'C':
            bad = S & special
            if bad:
                return 'copies %s unescaped' % show(bad)
            dec.append('C')
        elif e in special:
            return 'emits a bare %r' % chr(e)
        else:
            dec.append(e)
        i += 1
    return decoded(S, dec)


def show(S):
    S = sorted(S)
    t = ', '.join(repr(chr(b)) if 32 <= b < 127 else '0x%02x' % b for b in S[:6])
    return t + (' and %d more byte values' % (len(S) - 6) if len(S) > 6 else '')


def candidate(fn):
    """functions that walk over the characters of a text parameter"""
    if fn.cfg is None or fn.dep or fn.is_lambda:
        return False
    if not any(text_type(p['t']) for p in fn.params):
        return False
    return any(b.tk in LOOPS for b in fn.cfg.blocks.values())


def analyse(facts, fn):
    """{param index: {'lit'|'name'|'xml': reason or None}} with the judged (S, pattern) pairs"""
    out = {}
    for i, p in enumerate(fn.params):
        if not text_type(p['t']) or ((p['t'] or '').endswith('&') and not p['t'].startswith('const')):
            continue
        if char_type(p['t']):
            continue
        try:
            res = Interp(facts).run(fn, {p['v']: ('I',)}, None)
        except TooHard:
            continue
        iters = [(S, pat) for S, pat in res['iter']]
        if not iters or not any(pat for S, pat in iters):
            continue
        covered = frozenset().union(*[S for S, _ in iters])
        pre = [x for p in res['pre'] for x in p]
        post = [x for r in res['ret'] for x in r[1]]
        edges = {'lit': None, 'name': None, 'xml': None}
        if 'U' in pre or 'U' in post:
            edges = dict.fromkeys(edges, 'output around the text is not known')
        if edges['lit'] is None:
            lp = {p for p in res['pre'] if p}
            if not (all(p[0] == ord('(') and not any(x in LITSPECIAL for x in p[1:]) for p in lp) and lp and
                    all(r[1] == (ord(')'),) for r in res['ret'] if r[1]) and any(r[1] for r in res['ret'])):
                edges['lit'] = 'the text is not enclosed in parentheses'
        if edges['name'] is None:
            if any(x not in REGULAR and x != ord('/') for x in pre + post):
                edges['name'] = 'other than regular characters around the text'
        if edges['xml'] is None and pre and chr(pre[0]) == '(':
            edges['xml'] = 'not XML'
        kinds = {}
        for kind, f in (('lit', lit_ok), ('name', name_ok), ('xml', xml_ok)):
            why = edges[kind]
            if why is None and covered != ALL:
                why = 'not every byte value was followed'
            if why is None:
                for S, pat in sorted(iters, key=lambda x: (sorted(x[0])[:1], str(x[1]))):
                    why = f(S, pat)
                    if why is not None:
                        break
            kinds[kind] = why
        out[i] = kinds
    return out
