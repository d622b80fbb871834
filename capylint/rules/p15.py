"""P15: numbers are written as PDF numbers."""
import re
from ..facts import rel, CALLS
from ..util import repo_fns, all_nodes, strip_casts, callee
from ..report import short

META = {
    'title': 'Numbers are written as PDF numbers, in full and apart from each other',
    'statement': 'Every finite real number is written in fixed notation with a decimal point and at least five decimals, never with an exponent '
                 'and independently of the locale, whatever its size; integers are written in decimal except inside hex strings. A real number '
                 'that the caller gives is not cut down to an integer or to single precision on its way into the file. Neighbouring numbers, and a '
                 'number and the operator or token after it, are separated by white space or a delimiter.',
    'over': ['inputs', 'configurations'],
    'qtext': 'every real or integer value, at every place that turns a number into text, under every locale',
    'why': 'Exponents appear only for very small, very large or awkward values and decimal commas only under other locales; tests use round '
           'values and the C locale.',
    'files': ['src/drawcontext.cpp', 'src/objectformatter.cpp', 'src/commandstreamformatter.cpp', 'src/pdfwriter.cpp', 'src/document.cpp',
              'src/utils.cpp'],
    'mechanism': [('ObjectFormatter::add_token', 'src/objectformatter.cpp'), ('CommandStreamFormatter::append_command',
                  'src/commandstreamformatter.cpp'), ('cmd_* methods', 'src/drawcontext.cpp')],
    'technique': 'every format string parsed and matched with the types of its arguments; inventory of real-to-integer conversions in the typed '
                 'syntax tree; must-happen dataflow for separators in the object formatter',
    'level_note': 'Not a number and infinite values are outside the rule. Separation across two pieces of text is decided for the object '
                  'formatter; elsewhere within each piece.',
}

FLOATS = {'double', 'float', 'long double'}
INTS = re.compile(r'^(?:unsigned |signed )?(?:char|short|int|long|long long|unsigned|__int128)$|^(?:u?int(?:8|16|32|64)_t|size_t|unsigned|bool)$')
PRINTF = {'snprintf': 2, 'sprintf': 1, 'vsnprintf': 2, 'vsprintf': 1, 'asprintf': 1}
WS = ' \t\r\n\f\0'
DELIM = '()<>[]{}/%'
# conversions of a real number to an integer or to single precision, reviewed
CONVERSIONS = {
    'append_floatvalue': 'shading data: the clamped ratio scaled to the full range of the integer type',
    'glyph_advance': 'advance width in font units, which are integers',
    'set_table_size': 'number of font tables',
    'build_subset_width_array': 'glyph widths of a /W array in integer thousandths',
}
ROUNDERS = {'round', 'lround', 'llround', 'rint', 'lrint', 'llrint', 'floor', 'ceil', 'trunc', 'nearbyint', 'roundf', 'floorf', 'ceilf',
            'truncf', 'fmod', 'remainder', 'modf'}


def base(t):
    t = (t or '').replace('const ', '').replace('&', '').strip()
    return t[:-6].strip() if t.endswith(' const') else t


def fields(s):
    """[(start, end, argument index or None, spec)] of a std::format string"""
    out, i, auto = [], 0, 0
    while i < len(s):
        if s.startswith('{{', i) or s.startswith('}}', i):
            i += 2
            continue
        if s[i] == '{':
            j, d = i + 1, 1
            while j < len(s) and d:
                d += {'{': 1, '}': -1}.get(s[j], 0)
                j += 1
            m = re.match(r'^(\d*)(?::(.*))?$', s[i + 1:j - 1], re.S)
            if not m:
                return None
            if m.group(1):
                k = int(m.group(1))
            else:
                k, auto = auto, auto + 1
            spec = m.group(2) or ''
            auto += spec.count('{}')
            out.append((i, j, k, spec))
            i = j
            continue
        i += 1
    return out


def literal(f, n, depth=0):
    x = strip_casts(n)
    while x is not None and x.k != 'StringLiteral' and x.c and len([c for c in x.c if c is not None]) == 1 and \
            (x.k.startswith('CXXConstruct') or x.k in ('CXXTemporaryObjectExpr', 'InitListExpr', 'ConstantExpr', 'ImplicitCastExpr')):
        x = strip_casts([c for c in x.c if c is not None][0])
    if x is not None and x.k == 'StringLiteral':
        return x.s
    return None


def spec_of(spec):
    """(fill/width ignored) -> (sign, alt, width, precision, L, type)"""
    m = re.match(r'^(?:.?[<>^])?([ +-])?(#)?(0)?(\d+|\{\d*\})?(?:\.(\d+|\{\d*\}))?(L)?([a-zA-Z?]?)$', spec, re.S)
    return m.groups() if m else None


def in_hex(s, pos, fl):
    """is a position of a format string inside <...>, or does the string consist of hex digits only?"""
    before = s[:pos].replace('<<', '').replace('>>', '')
    if before.rfind('<') > before.rfind('>'):
        return True
    rest = s
    for a, b, _, sp in reversed(fl):
        q = spec_of(sp)
        if q is None or q[6] not in ('x', 'X'):
            return False
        rest = rest[:a] + rest[b:]
    return not rest.strip('0123456789abcdefABCDEF')


def run(facts, r):
    r.rule('notation', 'a real number is formatted with the f conversion, at least five decimals and no locale', 20)
    r.rule('integers', 'an integer is formatted in decimal, or in hex inside a hex string, without locale', 15)
    r.rule('separated', 'a number in a piece of text is followed by white space or a delimiter', 30)
    r.rule('other', 'no other way of turning real numbers into text (to_string, printf conversions, streams, to_chars), and no global locale, is used', 1)
    r.rule('kept', 'real numbers are turned into integers or single precision only where the file format asks for it', 1)
    r.rule('tokens', 'the object formatter puts white space after every token it writes', 5)
    for f in repo_fns(facts):
        if f.body is None or '/src/' not in f.file:
            continue
        for n in all_nodes(f):
            if n.k not in CALLS:
                conv(r, f, n)
                continue
            nm, q = n.n or '', n.q or ''
            if nm in ('format', 'format_to', 'format_to_n', 'print', 'println', 'vformat', 'vformat_to') and q.startswith('std::'):
                formatted(facts, r, f, n)
            elif nm in ('to_string', 'to_wstring') and q.startswith('std::') and n.c and base(n.c[0].t) in FLOATS:
                r.bad('other', '%s:%d' % (rel(f.file), n.l), f, 'to_string', 'std::to_string of a real number depends on the locale')
            elif nm == 'to_chars' and q.startswith('std::') and len(n.c) >= 3 and n.c[2] is not None and base(n.c[2].t) in FLOATS:
                fixed = len(n.c) >= 4 and n.c[3] is not None and any(x.n == 'fixed' for x in n.c[3].walk())
                if not fixed:
                    r.bad('other', '%s:%d' % (rel(f.file), n.l), f, 'to_chars', 'std::to_chars of a real number may write an exponent')
            elif nm in PRINTF and len(n.c) > PRINTF[nm]:
                s = literal(f, n.c[PRINTF[nm]])
                if s is None:
                    r.count('printf formats that are not literals')
                    if any(a is not None and base(a.t) in FLOATS for a in n.c[PRINTF[nm] + 1:]):
                        r.bad('other', '%s:%d' % (rel(f.file), n.l), f, nm, '%s of a real number depends on the locale' % nm)
                elif re.search(r'%[-+ #0-9.*]*(?:l|L)?[aAeEfFgG]', s):
                    r.bad('other', '%s:%d' % (rel(f.file), n.l), f, nm, '%s of a real number depends on the locale' % nm)
                else:
                    r.ok('other', '%s:%d %s without real numbers' % (rel(f.file), n.l, nm), f)
            elif n.k == 'CXXOperatorCallExpr' and n.op == '<<' and len(n.c) == 2 and n.c[1] is not None and base(n.c[1].t) in FLOATS or \
                    n.k == 'CXXMemberCallExpr' and n.n == 'operator<<' and n.c and n.c[0] is not None and base(n.c[0].t) in FLOATS:
                r.bad('other', '%s:%d' % (rel(f.file), n.l), f, 'stream', 'a real number is written to a stream in its default notation')
            elif nm == 'setlocale' or q == 'std::locale::global':
                r.bad('other', '%s:%d' % (rel(f.file), n.l), f, nm, 'the locale of the process is changed')
            conv(r, f, n)
    kept(facts, r)
    tokens(facts, r)


def formatted(facts, r, f, n):
    args = list(n.c)
    at = 1 if n.n in ('format_to', 'vformat_to') else 2 if n.n == 'format_to_n' else 0
    while at < len(args) and args[at] is not None and literal(f, args[at]) is None and \
            re.search(r'locale|FILE|ostream', args[at].t or ''):
        if 'locale' in (args[at].t or ''):
            r.bad('other', '%s:%d' % (rel(f.file), n.l), f, 'locale', 'text is formatted for a locale')
        at += 1
    s = literal(f, args[at]) if at < len(args) and args[at] is not None else None
    fl = fields(s) if s is not None else None
    if fl is None:
        r.count('format strings that are not literals')
        return
    vals = args[at + 1:]
    for i, (a, b, k, spec) in enumerate(fl):
        if k >= len(vals) or vals[k] is None:
            continue
        t = base(vals[k].ic and vals[k].t or vals[k].t)
        where = '%s:%d' % (rel(f.file), vals[k].l)
        isf, isi = t in FLOATS, bool(INTS.match(t))
        q = spec_of(spec)
        if isf:
            ok = q is not None and q[6] in ('f', 'F') and not q[5] and (q[4] is None or q[4].isdigit() and int(q[4]) >= 5)
            if ok:
                r.ok('notation', '%s %s' % (where, short(f.q)), f)
            else:
                r.bad('notation', where, f, 'field %d of %s' % (i, s.strip()[:60]),
                      'a real number is written with "{%s}" in "%s"' % (':' + spec if spec else '', s.strip()[:60]))
        elif isi and t != 'bool':
            ok = q is not None and not q[5] and (q[6] in ('', 'd') or q[6] in ('x', 'X') and in_hex(s, a, fl))
            if ok:
                r.ok('integers', '%s %s' % (where, short(f.q)), f)
            else:
                r.bad('integers', where, f, 'field %d of %s' % (i, s.strip()[:60]),
                      'an integer is written with "{%s}" in "%s"' % (':' + spec if spec else '', s.strip()[:60]))
        if isf or isi and t != 'bool' and not (q and q[6] in ('x', 'X')):
            nx = s[b:b + 1]
            bad = None
            if nx == '{' and s[b:b + 2] != '{{':
                bad = 'the next value'
            elif nx and nx not in WS and nx not in DELIM and (isf or not s[:a].split(' ')[-1].startswith('/')):
                bad = '"%s"' % nx
            pv = s[a - 1:a]
            if isf and a and pv not in WS and pv not in DELIM and not (pv == '}' and i and fl[i - 1][1] == a and lead(fl, vals, i)):
                bad = bad or 'what comes before it'
            if bad:
                r.bad('separated', where, f, 'field %d of %s' % (i, s.strip()[:60]), 'a number is not separated from %s in "%s"' % (bad, s.strip()[:60]))
            else:
                r.ok('separated', '%s %s' % (where, short(f.q)), f)


def lead(fl, vals, i):
    """the field before is text (such as an indent)"""
    k = fl[i - 1][2]
    t = base(vals[k].t) if k < len(vals) and vals[k] is not None else ''
    return t not in FLOATS and not INTS.match(t)


HOLDER = re.compile(r'^std::(?:optional|vector|deque|list)<((?:unsigned |signed )?(?:char|short|int|long|long long|float|bool)|u?int(?:8|16|32|64)_t|size_t|unsigned)[,>]')


def conv(r, f, n):
    to = None
    if n.ick in ('FloatingToIntegral', 'FloatingCast') and not (n.ick == 'FloatingCast' and base(str(n.ic)) in ('double', 'long double')):
        to = n
    if n.ck in ('FloatingToIntegral',) or n.ck == 'FloatingCast' and base(n.t) == 'float':
        to = n
    if to is None and n.k in CALLS and n.n in ROUNDERS and (n.q or '').split('::')[0] in ('std', n.n) and any(
            a is not None and base(a.t) in FLOATS for a in n.c):
        to = n
    if to is None and (n.k in CALLS or n.k.startswith('CXX') and 'Construct' in n.k or n.k == 'CXXTemporaryObjectExpr'):
        # conversion inside a container or optional
        subj = n.obj if n.k == 'CXXMemberCallExpr' else n.c[0] if n.k == 'CXXOperatorCallExpr' and n.op == '=' and len(n.c) == 2 else \
            n if n.k not in CALLS else None
        m = HOLDER.match((subj.t or '').replace('const ', '')) if subj is not None else None
        if m and base(m.group(1)) not in ('double', 'long double'):
            for a in (n.c[1:] if n.k == 'CXXOperatorCallExpr' else n.c):
                if a is not None and base(a.t) in FLOATS:
                    to = a
    if n.k == 'DeclStmt':
        for d in n.d or ():
            if re.search(r'\bfloat\b', str(d.get('t') or '')):
                to = n
    if to is not None and to.cvi() is None:
        r._conv = getattr(r, '_conv', [])
        r._conv.append((f, n))


def kept(facts, r):
    seen, files = {}, {}
    for f, n in getattr(r, '_conv', []):
        seen.setdefault((rel(f.file), n.l), (f, n))
    for (file, l), (f, n) in sorted(seen.items()):
        if short(f.q).split('::')[-1] in CONVERSIONS:
            r.ok('kept', '%s:%d %s' % (file, l, short(f.q)), f)
        else:
            files.setdefault(file, []).append((f, n))
    for q, rec in sorted(facts.records.items()):
        if '/src/' not in (rec.get('file') or ''):
            continue
        for fd in rec['fields']:
            if re.search(r'\bfloat\b', fd.get('t') or ''):
                r.bad('kept', '%s:%d' % (rel(rec['file']), fd.get('l') or 0), q, fd['n'], '%s::%s keeps a real number in single precision' % (
                    short(q), fd['n']))
    r.count('records whose members were looked at', len(facts.records))
    # a reviewed conversion that moved into a helper leaves its function
    present = {short(f.q).split('::')[-1] for f, n in seen.values()}
    moved = len([x for x in CONVERSIONS if x not in present])
    for file, v in sorted(files.items()):
        for f, n in v:
            if moved > 0 and any(reviewed_caller(facts, f, nm) for nm in CONVERSIONS if nm not in present):
                moved -= 1
                r.ok('kept', '%s:%d %s (helper of a reviewed conversion)' % (file, n.l, short(f.q)), f)
                continue
            r.bad('kept', '%s:%d' % (file, n.l), f, n.n or n.k, 'a real number becomes an integer or single precision in %s' % short(f.q))


def reviewed_caller(facts, f, name):
    for g in repo_fns(facts):
        if short(g.q).split('::')[-1] == name and g.body is not None:
            for n in all_nodes(g):
                if n.k in CALLS and n.f == f.key:
                    return True
    return False


# -- the object formatter

def starts_delim(n):
    x = strip_casts(n)
    if x is None:
        return False
    if x.k == 'StringLiteral':
        return x.s[:1] in tuple(DELIM.replace('/', '') + WS) and x.s[:1] != ''
    if x.k == 'CharacterLiteral':
        return x.cvi() is not None and chr(x.cvi()) in DELIM + WS
    if x.k == 'ConditionalOperator':
        return starts_delim(x.c[1]) and starts_delim(x.c[2])
    return False


def is_ws(n):
    x = strip_casts(n)
    if x is None:
        return False
    if x.k == 'StringLiteral':
        return bool(x.s) and x.s[-1] in WS
    if x.k == 'CharacterLiteral':
        return x.cvi() is not None and chr(x.cvi()) in WS
    if x.k == 'ConditionalOperator':
        return is_ws(x.c[1]) and is_ws(x.c[2])
    return False


def on_buf(n):
    """is this the text of the formatter?"""
    x = strip_casts(n)
    return x is not None and x.k == 'MemberExpr' and x.n in ('buf', 'app') and (not x.c or x.c[0] is None or strip_casts(x.c[0]).k == 'CXXThisExpr')


def writes(e):
    """(kind, node) of an expression that adds to the text: 'tok' or 'ws'"""
    if e.k == 'CXXOperatorCallExpr' and e.op == '+=' and len(e.c) == 2 and on_buf(e.c[0]):
        return 'ws' if is_ws(e.c[1]) else 'tok'
    if e.k == 'CXXMemberCallExpr' and e.n in ('append', 'push_back', 'insert') and e.obj is not None and on_buf(e.obj):
        return 'ws' if e.c and e.c[-1] is not None and is_ws(e.c[-1]) else 'tok'
    if e.k == 'CallExpr' and e.n in ('format_to',) and any(
            x.k == 'MemberExpr' and on_buf(x) for x in (e.c[0].walk() if e.c and e.c[0] is not None else ())):
        return 'tok'
    return None


def tokens(facts, r):
    ms = [f for f in repo_fns(facts) if (f.cls or '').split('::')[-1] == 'ObjectFormatter' and f.cfg is not None and not f.ctor]
    if not ms:
        r.count('object formatter not found')
        return
    ender = [f for f in ms if f.n == 'added_item']
    end_ok = set()
    for f in ender:
        if spaced_end(f):
            end_ok.add(f.key)
            r.ok('tokens', '%s adds white space whenever a container is open' % short(f.q), f)
        else:
            r.bad('tokens', rel(f.file), f, 'added_item', 'an item inside a container may end without white space')
    # 'pending': a token may be written last without white space after it, from the start of the function to its end
    memo = {}

    def pending(f, start, stack=()):
        k = (f.key, start)
        if k in memo:
            return memo[k]
        if f.key in stack or f.cfg is None:
            return start
        state = {f.cfg.entry: start}
        work = [f.cfg.entry]
        out = False
        while work:
            b = work.pop()
            st = state[b]
            for e in f.cfg.blocks[b].e:
                if isinstance(e, tuple):
                    continue
                w = writes(e)
                if w == 'tok':
                    st = True
                elif w == 'ws':
                    st = False
                elif e.k in CALLS and e.f:
                    if e.f in end_ok:
                        st = False
                    else:
                        g = facts.fns.get(e.f)
                        if g is not None and g in ms:
                            st = pending(g, st, stack + (f.key,))
            for s in f.cfg.blocks[b].succs:
                if s < 0 or f.cfg.blocks[b].nr:
                    continue
                if s == f.cfg.exit:
                    out = out or st
                if s not in state or (st and not state[s]):
                    state[s] = st if s not in state else True
                    work.append(s)
        if f.cfg.entry == f.cfg.exit:
            out = start
        memo[k] = out
        return out
    for f in ms:
        if f.access not in (None, 'public') or f.key in end_ok or f.n in ('steal', 'current_indent', 'depth') or f.static:
            continue
        if f.n.startswith('operator'):
            continue
        # only functions that write
        if pending(f, False):
            r.bad('tokens', rel(f.file), f, f.n,
                  '%s may leave a token without white space after it' % short(f.q))
        else:
            r.ok('tokens', short(f.q), f)


def spaced_end(f):
    """every path to the end writes white space, stops, or is taken only when no container is open"""
    cfg = f.cfg
    inits = {}
    for n in all_nodes(f):
        if n.k == 'DeclStmt':
            for d in n.d or ():
                if d.get('i') is not None:
                    inits[d['v']] = d['i']
    seen, work = {cfg.entry}, [cfg.entry]
    while work:
        b = cfg.blocks[work.pop()]
        done = False
        for e in b.e:
            if not isinstance(e, tuple) and writes(e) == 'ws':
                done = True
        if done or b.nr:
            continue
        succs = list(b.succs)
        if len(succs) == 2 and b.cond is not None:
            c = strip_casts(b.cond)
            neg = False
            for _ in range(6):
                if c is not None and c.k == 'UnaryOperator' and c.op == '!':
                    neg, c = not neg, strip_casts(c.c[0])
                elif c is not None and c.k == 'DeclRefExpr' and c.v in inits:
                    c = strip_casts(inits[c.v])
            if c is not None and c.k == 'CXXMemberCallExpr' and c.n == 'empty' and c.obj is not None and \
                    strip_casts(c.obj).k == 'MemberExpr' and 'stack' in (c.obj.t or ''):
                succs = [succs[0] if neg else succs[1]]
        for s in succs:
            if s < 0:
                continue
            if s == cfg.exit:
                return False
            if s not in seen:
                seen.add(s)
                work.append(s)
    return True
