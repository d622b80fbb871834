"""P31: a drawing call appends the operator it stands for, complete, with the caller's operands in PDF's order."""
from ..facts import CALLS, CTORS, AnalysisBroken
from ..util import strip_casts, all_nodes, callee, repo_fns
from ..flow import Client, Explorer, OK, ERR
from ..origins import clean
from .. import csim, prov
from ..csim import CSF

META = {
    'title': 'Every drawing call appends its own complete operator',
    'statement': 'Every successful drawing or text call of the C API appends to the content stream exactly the PDF operator it stands for, '
                 'complete, with the caller\'s arguments as its operands in the order PDF defines (a colour call: the selection of the '
                 'colour space, if any, then the components in order; a text call: when its text object is rendered). '
                 'An operator that opens a level (q, BT, BMC, BDC) opens the matching nesting level, one that closes a level (Q, ET, EMC) '
                 'is written only after the level of its own kind was the innermost one and has been closed, and a stream with an open '
                 'level is never handed out. A call that fails has appended nothing, or has left a level open that keeps the '
                 'stream from being handed out.',
    'over': ['inputs', 'histories'],
    'qtext': 'every drawing and text call, every argument value, every path through a call, and every order of calls',
    'why': 'Tests compare rendered pictures of a few scenes; a swapped operand, a stale level or an operator written before a refused call '
           'shows only for particular values or call orders.',
    'files': ['src/drawcontext.cpp', 'src/commandstreamformatter.cpp', 'src/commandstreamformatter.hpp', 'src/pdftext.hpp', 'src/capi.cpp'],
    'mechanism': [('cmd_*, set_color, render_text, serialize_charsequence', 'src/drawcontext.cpp'),
                  ('CommandStreamFormatter append_command, indent, dedent, steal', 'src/commandstreamformatter.cpp'),
                  ('PdfText, TextSequence events', 'src/pdftext.hpp')],
    'technique': 'path-sensitive abstract interpretation of the text appended on every path of every call (literal pieces and formatted '
                 'values with call strings), parsed as content-stream operators, with context-sensitive provenance of every operand',
    'level_note': 'Loops are taken zero, one and more times with repeated pieces collapsed. Values (number formats, encodings) are not judged '
                  'here; nor are the resource names inside operands.',
}

# operators of content streams: kinds of their operands (n number, N name, a array, d dictionary, s string, p dictionary or name)
OPS = {'b': '', 'B': '', 'b*': '', 'B*': '', 'f': '', 'F': '', 'f*': '', 'n': '', 's': '', 'S': '', 'h': '', 'W': '', 'W*': '',
       'q': '', 'Q': '', 'BT': '', 'ET': '', 'EMC': '', 'T*': '', 'BMC': 'N', 'BDC': 'Np', 'MP': 'N', 'DP': 'Np',
       'c': 'nnnnnn', 'cm': 'nnnnnn', 'l': 'nn', 'm': 'nn', 're': 'nnnn', 'v': 'nnnn', 'y': 'nnnn', 'd': 'an', 'i': 'n', 'j': 'n', 'J': 'n',
       'w': 'n', 'M': 'n', 'ri': 'N', 'gs': 'N', 'sh': 'N', 'Do': 'N', 'CS': 'N', 'cs': 'N', 'G': 'n', 'g': 'n', 'RG': 'nnn', 'rg': 'nnn',
       'K': 'nnnn', 'k': 'nnnn', 'Tc': 'n', 'Tw': 'n', 'Tz': 'n', 'TL': 'n', 'Tr': 'n', 'Ts': 'n', 'Td': 'nn', 'TD': 'nn', 'Tm': 'nnnnnn',
       'Tf': 'Nn', 'Tj': 's', 'TJ': 'a', "'": 's', '"': 'nns', 'SC': None, 'sc': None, 'SCN': None, 'scn': None}
OPENS = {'q': 'SaveState', 'BT': 'Text', 'BMC': 'MarkedContent', 'BDC': 'MarkedContent'}
CLOSES = {'Q': 'SaveState', 'ET': 'Text', 'EMC': 'MarkedContent'}
# levels no public call can close on its own: they are opened and closed within one call, and refuse to be opened twice
STUCK = ('Text', 'Dictionary')


def nums(*ps):
    return tuple(('n', p) for p in ps)


# public function -> [(operator, operands)]; operand: ('n', parameter) value | ('N', parameter or None) name | ('a', parameters) array |
#                    ('d', ..) dictionary | ('s', parameters) string
X6 = ('x1', 'y1', 'x2', 'y2', 'x3', 'y3')
SPEC = {
    'dc_cmd_BMC': [('BMC', (('N', 1),))],
    'dc_cmd_BDC_builtin': [('BDC', (('N', None), ('d', (1, 2))))],
    'dc_cmd_BDC_testing': [('BDC', (('N', 1), ('d', (3,))))],
    'dc_cmd_BDC_ocg': [('BDC', (('N', None), ('N', None)))],
    'dc_cmd_d': [('d', (('a', (1, 2)), ('n', 3)))],
    'dc_cmd_Do_trgroup': [('Do', (('N', None),))],
    'dc_cmd_Do_image': [('Do', (('N', None),))],
    'dc_cmd_gs': [('gs', (('N', 1),))],
    'dc_cmd_sh': [('sh', (('N', 1),))],
    'dc_cmd_ri': [('ri', (('N', 1),))],
    'text_cmd_BDC_builtin': [('BDC', (('N', None), ('d', (1,))))],
    'text_cmd_Tf': [('Tf', (('N', 1), ('n', 2)))],
    'text_cmd_Tj': [('Tj', (('s', (1, 2)),))],
    'text_cmd_TJ': [('TJ', (('a', ()),))],
    'text_cmd_d': [('d', (('a', (1, 2)), ('n', 3)))],
    'text_cmd_gs': [('gs', (('N', 1),))],
}
# calls that also produce the event of another call (rendering a text at a position)
ALSO = {'text_cmd_Td': {0: ('dc_render_text', 'x'), 1: ('dc_render_text', 'y')},
        'text_cmd_Tf': {0: ('dc_render_text', 'fid'), 1: ('dc_render_text', 'point_size')}}
COLOURS = {
    'G': [('color_set_gray', 'v')],
    'RG': [('color_set_rgb', 'r'), ('color_set_rgb', 'g'), ('color_set_rgb', 'b')],
    'K': [('color_set_cmyk', c) for c in 'cmyk'],
}
SPACES = [[('color_set_lab', 'l'), ('color_set_lab', 'a'), ('color_set_lab', 'b')], [('color_set_separation', 'value')],
          [('color_set_icc', 'values')]]


def default_spec(facts, f, name):
    if name in SPEC:
        return SPEC[name]
    for pre in ('dc_cmd_', 'text_cmd_'):
        if name.startswith(pre):
            op = name[len(pre):]
            if op.endswith('star'):
                op = op[:-4] + '*'
            want = OPS.get(op)
            if want is None or set(want) - {'n'}:
                return None
            ps = f.params[1:]
            if len(ps) != len(want):
                return None
            return [(op, tuple(('n', i + 1) for i in range(len(ps))))]
    return None


def holes(t):
    if isinstance(t, tuple) and t and t[0] == 'V' and len(t) == 5:
        yield t
    elif isinstance(t, (tuple, list)):
        for x in t:
            yield from holes(x)


def is_num(t):
    try:
        float(t)
        return True
    except ValueError:
        return False


def kind_ok(want, a):
    """an operand of the kind wanted; None when it cannot be told"""
    if want == 'a':
        return a[0] == '['
    if want == 'd':
        return a[0] == '<<'
    if want == 'p':
        return a[0] == '<<' or kind_ok('N', a)
    if want == 's':
        return a[0] == '<' or a[0] == 'w' and (not isinstance(a[1][0], str) or a[1][0].startswith('('))
    if a[0] != 'w':
        return False
    parts = a[1]
    lone = len(parts) == 1 and not isinstance(parts[0], str)
    if want == 'N':
        return lone or isinstance(parts[0], str) and parts[0].startswith('/') and (len(parts) > 1 or len(parts[0]) > 1)
    return lone or len(parts) == 1 and is_num(parts[0])


class Judge:
    def __init__(self, facts, r):
        self.facts, self.r = facts, r
        self.P = prov.build(facts)
        self.sim = csim.Sim(facts)
        self.ex = Explorer(facts, self.sim, cap=1500)
        self.malformed = {}

    def traces(self, f):
        self.sim.steps, self.sim.budget = 0, 150000
        try:
            return csim.traces(self.facts, f, self.sim, self.ex), None
        except AnalysisBroken:
            self.ex = Explorer(self.facts, self.sim, cap=1500)
        self.sim.steps, self.sim.budget = 0, 600000
        self.sim.reduced, self.sim.seen, self.sim.items = True, set(), set()
        try:
            tr = csim.traces(self.facts, f, self.sim, Explorer(self.facts, self.sim, cap=6000))
            return tr, self.sim.seen
        except csim.Malformed as e:
            self.malformed[f.key] = str(e)
            return None, None
        except AnalysisBroken:
            return None, None
        finally:
            self.sim.reduced = False

    def atoms(self, h):
        f = self.facts.fns[h[1]]
        return self.P.of(f, f.nodes[h[2]], (), h[3])

    def params(self, t):
        """({(public function, parameter index)}, arithmetic?, {path})"""
        out, arith = set(), False
        for h in holes(t):
            for a in self.atoms(h):
                if a[0] == 'p':
                    out.add((a[1], a[2]))
                elif a[0] == 'a':
                    arith = True
        return out, arith

    def looped(self, h):
        """the value is appended from inside a loop, the operator's own text is not"""
        f = self.facts.fns[h[1]]
        for n in [f.nodes[h[2]]] + [self.facts.fns[k].nodes[i] for k, i, g in h[3][-2:]]:
            p = n.parent
            while p is not None:
                if p.k in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt'):
                    return True
                p = p.parent
        return False

    def name(self, q, i):
        fs = self.facts.by_q.get(q)
        return '%s(%s)' % (q, fs[0].params[i]['n']) if fs and i < len(fs[0].params) else q


def stripped(ops):
    return [(o, a) for o, a in ops if o not in ('+', '-')]


def wellformed(J, f, ops, root):
    """-> message or None for a complete sequence of operators"""
    for o, a in ops:
        if o in ('+', '-'):
            continue
        a = tuple(x for x in a if x[0] not in '+-')
        if o is None:
            return 'operands are left over without an operator: %s' % show(a)
        if o not in OPS:
            return 'the operator `%s` does not exist in content streams' % o
        want = OPS[o]
        if want is None:
            continue
        if len(a) != len(want):
            return 'the operator `%s` takes %d operands but is given %d' % (o, len(want), len(a))
        for w, x in zip(want, a):
            if kind_ok(w, x) is False:
                return 'an operand of `%s` is not %s: %s' % (o, {'n': 'a number', 'N': 'a name', 'a': 'an array', 'd': 'a dictionary',
                                                                's': 'a string', 'p': 'a dictionary or name'}[w], show((x,)))
    return None


WIDTH = {'unsigned char': 1, 'char': 1, 'signed char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8}


def cut(n):
    w = WIDTH.get(clean(n.t))
    p = n.parent
    while w and p is not None and (p.k.endswith('CastExpr') or p.k == 'ParenExpr'):
        v = WIDTH.get(clean(p.t))
        if v and v < w and p.k != 'ImplicitCastExpr':
            return True
        p = p.parent
    return False


def narrowed(J, ops):
    for o, a in ops:
        if o in ('+', '-'):
            continue
        for h in holes(a):
            if any(x[0] == 'a' and x[2] == 'truncation' for x in J.atoms(h)) or cut(J.facts.fns[h[1]].nodes[h[2]]):
                return 'an operand of `%s` is cut down to a narrower integer type' % o
    return None


def show(a):
    def one(x):
        if isinstance(x, str):
            return x
        if isinstance(x, tuple) and x and x[0] == 'V':
            return '{}'
        if isinstance(x, (tuple, list)):
            return ''.join(one(y) for y in (x[1] if x and x[0] in ('w', '[', '<', '<<', '(') and len(x) == 2 else x))
        return ''
    return ' '.join(one(x) for x in a)[:80]


def nesting(ops):
    up, down = [], []
    opened, closed = [], []
    pend = []          # kinds popped and not yet followed by their operator
    for o, a in ops:
        inner = [x for x in a if x[0] in '+-'] if o not in ('+', '-') else []
        for x in inner:
            (up if x[0] == '+' else down).append(x[1])
        for x in a if o not in ('+', '-') else ():
            if x[0] in ('[', '<<'):
                for y in x[1]:
                    if y[0] in '+-':
                        (up if y[0] == '+' else down).append(y[1])
        if o == '+':
            up.append(a)
        elif o == '-':
            down.append(a)
        elif o in OPENS:
            opened.append(OPENS[o])
        elif o in CLOSES:
            closed.append((CLOSES[o], CLOSES[o] in down))
    up = [k for k in up if k != 'Dictionary']
    down2 = [k for k in down if k != 'Dictionary']
    for k, before in closed:
        if not before:
            return 'the operator closing a %s level is written without that level having been closed first' % k
    if sorted(up) != sorted(opened):
        return 'opens the levels %s but writes operators opening %s' % (names(up), names(opened))
    if sorted(down2) != sorted(k for k, _ in closed):
        return 'closes the levels %s but writes operators closing %s' % (names(down2), names(k for k, _ in closed))
    return None


def names(l):
    return ', '.join(sorted(l)) or 'none'


def stuck(pieces):
    """the innermost unclosed level of a failed call's trace"""
    st = []
    for p in pieces:
        if p[0] == '+':
            st.append(p[1])
        elif p[0] == '-':
            if st:
                st.pop()
    return [k for k in st if k in STUCK]


def judge_spec(J, f, api, traces, spec, also=None):
    """('ok'|'bad'|'unknown', message, operator)"""
    oks = [csim.operators(p) for k, p in traces if k != ERR]
    q = 'capy_' + api
    apif = J.facts.by_q[q][0]
    also = also or {}
    # a value that may be any of several parameters: not readable, e.g. operands passed through an array
    for ops in oks:
        for o, a in stripped(ops):
            for x in a:
                if x[0] == 'w':
                    ps, ar = J.params(x)
                    mine = {i for g, i in ps if g == q}
                    if any(J.looped(h) for h in holes(x)):
                        return 'unknown', '', None
                    if len(mine) > 1 and not ar and not any(w[0] in 'sNd' for _, s in spec for w in s):
                        return 'unknown', '', None
    for ops in oks:
        ops = stripped(ops)
        if [o for o, _ in ops] != [o for o, _ in spec]:
            return 'bad', 'a successful call appends %s instead of `%s`' % (
                ' '.join('`%s`' % o for o, _ in ops) or 'nothing', ' '.join(o for o, _ in spec)), None
        for (o, a), (_, want) in zip(ops, spec):
            a = [x for x in a if x[0] not in '+-']
            if len(a) != len(want):
                return 'bad', 'appends `%s` with %d operands instead of %d' % (o, len(a), len(want)), None
            for i, (x, w) in enumerate(zip(a, want)):
                ps, ar = J.params(x)
                if w[1] is None:
                    continue
                if w[0] == 'n' or w[0] == 'N':
                    need = (q, w[1])
                    allow = {need}
                    if i in also:
                        g, pn = also[i]
                        gf = J.facts.by_q.get('capy_' + g)
                        if gf:
                            allow |= {('capy_' + g, k) for k, p in enumerate(gf[0].params) if p['n'] == pn}
                    if need not in ps:
                        if w[0] == 'N':
                            continue   # names are built from object numbers
                        return 'bad', 'operand %d of `%s` does not hold `%s` but %s' % (
                            i + 1, o, apif.params[w[1]]['n'], ', '.join(sorted(J.name(*p) for p in ps)) or 'a fixed value'), None
                    if w[0] == 'n' and ps - allow:
                        return 'bad', 'operand %d of `%s` may hold %s instead of `%s`' % (
                            i + 1, o, ', '.join(sorted(J.name(*p) for p in ps - allow)), apif.params[w[1]]['n']), None
                    if w[0] == 'n' and ar:
                        return 'bad', 'operand %d of `%s` is computed from `%s` instead of being the value given' % (
                            i + 1, o, apif.params[w[1]]['n']), None
    # arrays, strings and dictionaries: the data must show up on some path, and nothing else may
    for k, (o, want) in enumerate(spec):
        for i, w in enumerate(want):
            if w[0] not in 'asd' or not w[1]:
                continue
            ps = set()
            for ops in oks:
                a = [x for x in stripped(ops)[k][1] if x[0] not in '+-']
                ps |= J.params(a[i])[0]
            if w[0] == 'a' and not {(q, j) for j in w[1]} & ps:
                return 'bad', 'operand %d of `%s` does not hold `%s`' % (i + 1, o, apif.params[w[1][0]]['n']), None
            if w[0] == 'a' and {p for p in ps if p[0] == q} - {(q, j) for j in w[1]}:
                return 'bad', 'operand %d of `%s` may hold %s' % (
                    i + 1, o, ', '.join(sorted(J.name(*p) for p in ps - {(q, j) for j in w[1]}))), None
            if w[0] == 'd' and not any((q, j) in ps for j in w[1]):
                return 'bad', 'the properties of `%s` hold none of the caller\'s data' % o, None
    return 'ok', '', spec[-1][0]


def judge_colour(J, f, traces, stroke):
    up = (lambda o: o) if stroke else (lambda o: o.lower())
    seen = set()
    for k, p in traces:
        if k == ERR:
            continue
        ops = stripped(csim.operators(p))
        seq = [o for o, _ in ops]
        if not seq:
            return 'a successful call sets no colour', seen
        if len(seq) == 1:
            base = seq[0].upper()
            if base not in COLOURS or seq[0] != up(base):
                return 'appends `%s`, which is not an operator for the %s colour' % (seq[0], 'stroke' if stroke else 'fill'), seen
            a = ops[0][1]
            for i, (x, (fn, pn)) in enumerate(zip(a, COLOURS[base])):
                m = component(J, x, fn, pn)
                if m:
                    return 'operand %d of `%s` %s' % (i + 1, seq[0], m), seen
            seen.add(base)
        elif len(seq) == 2:
            if seq != [up('CS'), up('SCN')] and seq != [up('CS'), up('SC')]:
                return 'appends %s, which does not set the %s colour' % (' '.join('`%s`' % s for s in seq), 'stroke' if stroke else 'fill'), seen
            cs, comps = ops[0][1], ops[1][1]
            if not cs or cs[0][0] != 'w' or not isinstance(cs[0][1][0], str):
                return None, seen
            pat = cs[0][1] == ('/Pattern',)
            if pat:
                if len(comps) != 1 or kind_ok('N', comps[0]) is False:
                    return 'selects the pattern colour space but not a pattern', seen
                seen.add('pattern')
                continue
            named = [x for x in comps if x[0] == 'w' and isinstance(x[1][0], str) and x[1][0].startswith('/')]
            if named:
                return 'gives a pattern name as component of another colour space', seen
            fit = None
            msg = None
            for alt in SPACES:
                ms = [component(J, x, fn, pn, True) for x, (fn, pn) in zip(comps, alt)]
                src = {a[0] for x in comps for a in J.params(x)[0]}
                if 'capy_' + alt[0][0] in src:
                    if alt[0][1] != 'values' and len(comps) != len(alt):
                        msg = 'gives %d of the %d components' % (len(comps), len(alt))
                    msg = msg or next((m for m in ms if m), None)
                    fit = alt[0][0]
            if msg:
                return 'after `%s`: %s' % (seq[0], msg), seen
            if fit:
                seen.add(fit)
        else:
            return 'appends %s' % ' '.join('`%s`' % s for s in seq), seen
    return None, seen


def component(J, x, fn, pn, only=False):
    ps, ar = J.params(x)
    f = J.facts.by_q.get('capy_' + fn)
    if not f:
        return None
    idx = [i for i, p in enumerate(f[0].params) if p['n'] == pn]
    if not idx:
        return None
    mine = {i for g, i in ps if g == 'capy_' + fn}
    if not mine:
        return None if only else 'does not hold `%s` of capy_%s' % (pn, fn)
    if pn == 'values':
        return None
    if len(mine) > 1 and idx[0] in mine and not ar:
        return None         # passed through a container: not readable
    if mine != {idx[0]}:
        return 'holds `%s` of capy_%s instead of `%s`' % (f[0].params[min(mine)]['n'], fn, pn)
    if ar:
        return 'is computed from `%s` of capy_%s' % (pn, fn)
    return None


def event_roots(J):
    """class of text event -> functions that append what it stands for"""
    facts = J.facts
    out = {}
    for f in repo_fns(facts):
        if f.body is None or f.key not in J.sim.emitting or f.cls and f.cls.endswith('PdfText'):
            continue
        for p in f.params:
            c = clean(p['t'])
            if c.startswith('capypdf::internal::') and '<' not in c:
                out.setdefault(c, []).append(f)
    return out


def events_of(J, f):
    """classes of objects put into a text object by a public function (directly, or through PdfText)"""
    facts = J.facts
    seen, work, out = set(), [f], set()
    while work:
        g = work.pop()
        if g.key in seen or g.body is None:
            continue
        seen.add(g.key)
        for n in all_nodes(g):
            if n.k in CALLS and n.obj is not None and n.n in ('push_back', 'emplace_back', 'emplace'):
                o = strip_casts(n.obj)
                if o is not None and o.k == 'MemberExpr' and o.cls and o.cls.endswith('PdfText'):
                    work2 = [c for c in n.c if c is not None]
                    while work2:
                        m = work2.pop()
                        t = clean(m.t)
                        if t.startswith('capypdf::internal::') and '<' not in t:
                            out.add(t)
                        else:
                            work2.extend(x for x in m.c if x is not None)
            if n.f:
                h = facts.fns.get(n.f)
                if h is not None and h.cls and h.cls.endswith('PdfText'):
                    work.append(h)
    return out


class Flag(Client):
    """paths with what is known of one boolean condition"""
    def __init__(self, facts, test, effect=None):
        from .p02 import Swallow
        self.test, self.effect, self.ec = test, effect, Swallow(facts)
        self.facts = facts

    def on_branch(self, st, cond, truth, ctx):
        for f, x, tr, b in csim.implied(self.facts, ctx.fn, cond, truth):
            v = self.test(x, tr)
            if v is not None:
                st = frozenset(st | {v})
        return st

    def on_node(self, st, n, ctx):
        if self.effect:
            v = self.effect(n)
            if v is not None:
                return [frozenset(st | {v})]
        return None

    def classify_return(self, st, val, env, ctx):
        return self.ec.classify_return(None, val, env, ctx)


def handed_out(J, r):
    """the buffer leaves the formatter only when no level is open"""
    facts = J.facts

    def test(x, truth):
        if x is None or x.k != 'CXXMemberCallExpr':
            return None
        o = strip_casts(x.obj) if x.obj is not None else None
        if x.n == 'empty' and o is not None and o.k == 'MemberExpr' and o.cls == CSF and o.n == 'stack':
            return 'closed' if truth else 'open'
        if x.n == 'has_unclosed_state' and x.cls == CSF:
            return 'open' if truth else 'closed'
        return None
    for f in repo_fns(facts):
        if f.body is None or f.cls != CSF or not any(t in (f.rt or '') for t in ('basic_string', 'std::string')):
            continue
        outs = [n for n in all_nodes(f) if n.k == 'MemberExpr' and n.cls == CSF and n.n == 'buf']
        if not outs:
            continue
        users = [g for g in repo_fns(facts) for n in all_nodes(g) if n.f == f.key]
        if not users:
            r.ok('steal', '%s hands out the stream but is never called' % f.n, f)
            continue
        ex = Explorer(facts, Flag(facts, test), cap=2000)
        bad = [st for k, st in ex.run(f, frozenset()) if k != ERR and 'closed' not in st]
        if bad:
            r.bad('steal', f.loc, f, f.n, 'the content stream can be handed out while a nesting level is open')
        else:
            r.ok('steal', '%s hands out the stream only when every level is closed' % f.n, f)


def actual_text(J, r):
    facts = J.facts
    SEQ = 'TextSequence'

    def flag(x):
        x = strip_casts(x)
        if x is None:
            return False
        if x.k == 'MemberExpr' and x.dk == 'field' and (x.cls or '').endswith(SEQ) and (x.t or '') == 'bool':
            return True
        if x.k == 'CXXMemberCallExpr' and (x.cls or '').endswith(SEQ) and 'bool' == (x.t or ''):
            return True
        return False

    def test(x, truth):
        return ('in' if truth else 'out') if flag(x) else None

    def effect(n):
        if n.k in ('BinaryOperator',) and n.op == '=' and flag(n.c[0]):
            v = n.c[1].cvi()
            x = strip_casts(n.c[1])
            if v is None and x is not None and x.k == 'CXXBoolLiteralExpr':
                v = x.cvi()
            return 'set%s' % (1 if v else 0) if v is not None else 'set?'
        if n.k in CALLS and n.n in ('push_back', 'emplace_back') and n.obj is not None:
            for c in n.c:
                for m in ([c] + list(c.walk())) if c is not None else ():
                    t = clean(m.t)
                    if t.endswith('::ActualTextStart'):
                        return 'start'
                    if t.endswith('::ActualTextEnd'):
                        return 'end'
        if n.k in CALLS and n.n == 'steal_guts':
            return 'taken'
        return None
    for f in repo_fns(facts):
        if f.body is None or not any(effect(n) in ('start', 'end', 'taken') for n in all_nodes(f)):
            continue
        if not (f.cls or '').endswith((SEQ, 'PdfText')):
            continue
        ex = Explorer(facts, Flag(facts, test, effect), cap=2000)
        msg = None
        for k, st in ex.run(f, frozenset()):
            if k == ERR:
                continue
            if 'start' in st and not {'out', 'set1'} <= st:
                msg = 'an actual-text span can be opened inside another one, or without being recorded as open'
            elif 'end' in st and not {'in', 'set0'} <= st:
                msg = 'an actual-text span can be closed that is not open, or without being recorded as closed'
            elif 'taken' in st and 'out' not in st:
                msg = 'a text sequence with an open actual-text span is accepted'
        if msg:
            r.bad('actualtext', f.loc, f, f.n, msg)
        else:
            r.ok('actualtext', '%s keeps actual-text spans paired' % f.n, f)


def run(facts, r):
    r.rule('operator', 'on every successful path a drawing call appends exactly its own operator, the caller\'s arguments being its operands, '
                       'each in its place and unchanged', 30)
    r.rule('colour', 'a colour call selects the colour space and gives the components of the colour in order, for stroke or fill as asked', 2)
    r.rule('complete', 'whatever a drawing call appends on a successful path is a sequence of complete operators with operands of the right '
                       'number and kind', 40)
    r.rule('levels', 'operators that open or close a level go with opening or closing the same level of the nesting stack', 40)
    r.rule('failed', 'on every failing path nothing has been appended, or a level that cannot be closed any more stays open', 20)
    r.rule('event', 'a text call records the event whose rendering appends its operator', 8)
    r.rule('steal', 'the content stream is handed out only when no level is open', 1)
    r.rule('actualtext', 'actual-text spans are opened and closed in pairs within one text sequence', 2)
    J = Judge(facts, r)
    er = event_roots(J)
    cache = {}

    def tr(f):
        if f.key not in cache:
            cache[f.key] = J.traces(f)
        return cache[f.key]
    roots = []
    for q, fs in sorted(facts.by_q.items()):
        f = fs[0]
        if not (f.externc and f.n.startswith('capy_')) or f.body is None:
            continue
        api = f.n[5:]
        if f.key in J.sim.emitting and api.startswith('dc_'):
            roots.append((f, False))
            t, seen = tr(f)
            if t is None:
                r.count('calls too large to follow')
                continue
            if api in ('dc_set_stroke', 'dc_set_nonstroke'):
                msg, kinds = judge_colour(J, f, t, api == 'dc_set_stroke')
                if msg:
                    r.bad('colour', f.loc, f, api, msg)
                else:
                    r.ok('colour', '%s: %s' % (api, ', '.join(sorted(kinds))), f)
                continue
            spec = default_spec(facts, f, api)
            if spec is None:
                continue
            v, msg, op = judge_spec(J, f, api, t, spec)
            if v == 'bad':
                r.bad('operator', f.loc, f, api, msg)
            elif v == 'ok':
                r.ok('operator', '%s appends `%s` (%d paths)' % (api, op, len(t)), f)
            else:
                r.count('calls whose operands could not be told apart')
        elif api.startswith(('text_cmd_', 'text_set_')):
            ev = events_of(J, f)
            spec = default_spec(facts, f, api)
            kinds = [c for c in ev if c in er]
            if not kinds:
                r.count('text calls without a recognised event')
                continue
            for c in kinds:
                for g in er[c]:
                    t, seen = tr(g)
                    if t is None or seen is not None:
                        if seen is not None and spec and not any(o == spec[0][0] for o, _ in seen):
                            r.bad('event', f.loc, f, api, 'the event recorded is never rendered as `%s`' % spec[0][0])
                        elif seen is not None and spec:
                            r.ok('event', '%s is rendered as `%s`' % (api, spec[0][0]), f)
                        continue
                    if api in ('text_set_stroke', 'text_set_nonstroke'):
                        msg, ks = judge_colour(J, g, t, api == 'text_set_stroke')
                        if msg:
                            r.bad('colour', g.loc, f, api, msg)
                        else:
                            r.ok('colour', '%s: %s' % (api, ', '.join(sorted(ks))), f)
                        continue
                    if spec is None:
                        continue
                    v, msg, op = judge_spec(J, g, api, t, spec, ALSO.get(api))
                    if v == 'bad':
                        r.bad('event', g.loc, f, api, 'rendering the event of this call: ' + msg)
                    elif v == 'ok':
                        r.ok('event', '%s is rendered as `%s`' % (api, op), f)
                    else:
                        r.count('calls whose operands could not be told apart')
    done = {f.key for f, _ in roots}
    # parts of rendering that run on their own: event visitors, and whatever appends and is called by no other such function
    evk = {g.key for gs in er.values() for g in gs}
    called = set()
    for f in repo_fns(facts):
        if f.key in J.sim.emitting:
            for n in all_nodes(f):
                if n.f and n.f != f.key:
                    called.add(n.f)
    extra = [facts.fns[k] for k in evk]
    for f in repo_fns(facts):
        if f.key in J.sim.emitting and f.key not in called and f.key not in done and f.key not in evk and not f.externc and \
                f.cls != CSF and f.q.startswith('capypdf::internal::'):
            extra.append(f)
    cls_draw = [f for f in repo_fns(facts) if f.key in J.sim.emitting and f.cls and f.cls.endswith('PdfDrawContext') and
                f.key not in evk and f.n.startswith(('render_', 'draw_'))]
    extra = [f for f in extra if f.cls != CSF]
    extra += [f for f in cls_draw if f not in extra]
    for f, isroot in [(f, True) for f, _ in roots] + [(f, False) for f in extra]:
        if f.is_lambda and f.key not in evk and not any(f.key == k for k in evk):
            continue
        t, seen = tr(f)
        label = f.n if f.externc else (f.n + ' ' + ','.join(clean(p['t']).split('::')[-1] for p in f.params))
        if f.key in J.malformed:
            r.bad('complete', f.loc, f, label, J.malformed[f.key])
            continue
        if t is None:
            r.count('calls too large to follow')
            continue
        msg = cutm = None
        nest = None
        fail = None
        loose = set()
        for k, p in sorted(t, key=repr):
            if k != ERR:
                ops = csim.operators(p)
                loose |= {o for o, a in ops if o not in ('+', '-') and any(J.looped(h) for x in a if x[0] == 'w' for h in holes(x))}
                m = wellformed(J, f, ops, isroot)
                msg = msg or m
                cutm = cutm or narrowed(J, ops)
                if seen is None:
                    nest = nest or nesting(ops)
            elif isroot and p:
                if not stuck(p):
                    fail = fail or 'a failing call has already appended `%s`' % shown(p)
        if seen:
            msg = msg or wellformed(J, f, sorted(seen, key=repr), isroot)
        if msg and loose & set(OPS):
            r.count('calls that append operands from a loop')
        elif msg:
            r.bad('complete', f.loc, f, label, msg)
        elif cutm:
            r.bad('complete', f.loc, f, label, cutm)
        else:
            r.ok('complete', '%s (%d paths)' % (label, len(t)), f)
        if nest:
            r.bad('levels', f.loc, f, label, nest)
        else:
            r.ok('levels', label, f)
        if isroot and any(k == ERR for k, p in t):
            if fail:
                r.bad('failed', f.loc, f, label, fail)
            else:
                r.ok('failed', label, f)
    handed_out(J, r)
    actual_text(J, r)


def shown(p):
    return ' '.join(''.join(x[1] if x[0] == 'L' else '{}' if x[0] == 'V' else '' for x in p).split())[:80]
