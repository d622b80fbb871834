"""P27: no kind of value makes the library end the process."""
import re
from ..facts import AnalysisBroken, rel, CALLS, CTORS
from ..util import repo_fns, all_nodes, strip_casts, branch_cond, callee, canon, api_roots, reachable_all
from ..csim import implied
from ..report import short
from .. import choice

META = {
    'title': 'No kind of value makes the library end the process',
    'statement': 'Where the library tells apart the kinds of a value (colours, shadings, functions, patches, annotations, form fields, '
                 'destinations, halftones, text events, structure items, data sources, enumerators of the API), every kind that the API can '
                 'hand over is either handled or refused with an error code. No kind, no order of API calls and no missing optional part '
                 'reaches std::abort, a failing assert or std::terminate; the stops that remain in the library guard its own invariants.',
    'over': ['inputs', 'programs'],
    'qtext': 'every alternative of every variant and every enumerator, at every stop of the process in the library',
    'why': 'A stop on an unsupported combination is reached only by the program that uses it, and it takes the whole application down; tests '
           'hand over the supported kinds.',
    'files': ['src/document.cpp', 'src/drawcontext.cpp', 'src/pdfwriter.cpp', 'src/capi.cpp', 'src/colorconverter.cpp', 'src/mmapper.cpp',
              'src/pdfcommon.cpp', 'src/ft_subsetter.cpp', 'src/fontsubsetter.cpp'],
    'mechanism': [('serialize_shade4, serialize_shade6, color2numbers, serialize_shading', 'src/document.cpp'),
                  ('set_color, serialize_charsequence, text event visitors', 'src/drawcontext.cpp'),
                  ('write_form_field, write_annotation', 'src/pdfwriter.cpp'), ('capy_form_field_new', 'src/capi.cpp'),
                  ('num_bytes_for, pixelformat_for, profile_for', 'src/colorconverter.cpp'), ('span_of_source', 'src/mmapper.cpp')],
    'technique': 'reachability of every abort and assertion failure in the control flow graph, evaluated once per alternative of each variant and '
                 'per enumerator that the function tells apart, with the conditions under which callers get there',
    'level_note': 'Stops that do not depend on the kind of a value are decided by comparison with a reviewed inventory.',
}

STOPS = {'abort', '__assert_fail', 'exit', '_exit', '_Exit', 'quick_exit', 'terminate', '__builtin_trap', '__builtin_abort', 'unreachable',
         '__builtin_unreachable'}
VAR = re.compile(r'^(?:const )?std::variant<(.*)>[ &*const]*$')


def split_args(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<(':
            d += 1
        elif ch in '>)':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def bare(t):
    t = (t or '').replace('const ', '').strip()
    while t.endswith(('&', '*', ' const')):
        t = t[:-6] if t.endswith(' const') else t[:-1]
        t = t.strip()
    return t


def alts(t):
    m = VAR.match(bare(t))
    return [bare(x) for x in split_args(m.group(1))] if m else None


class Kinds:
    """which alternative a condition asks for"""

    def __init__(self, facts):
        self.facts = facts
        self.ch = choice.build(facts)

    def arg(self, f, n):
        """(key, alternatives) of the variant an argument denotes"""
        x = strip_casts(n)
        if x is not None and x.k == 'UnaryOperator' and x.op == '&':
            x = strip_casts(x.c[0])
        if x is None:
            return None
        a = alts(x.t)
        k = self.ch.key(f, x)
        return (k, a) if a and k else None

    def atom(self, f, n):
        """(key, alternatives, alternative asked for)"""
        x = strip_casts(n)
        for _ in range(4):
            if x is not None and x.k == 'DeclRefExpr' and x.v is not None:
                d, w = self.ch.locals(f)
                if x.v in d and x.v not in w and d[x.v] is not None:
                    x = strip_casts(d[x.v])
                    continue
            break
        if x is None or x.k != 'CallExpr' or len(x.c) != 1:
            return None
        if x.n == 'get_if' and (x.q or '').startswith('std::'):
            s = self.arg(f, x.c[0])
            return (s[0], s[1], bare(x.t)) if s else None
        if x.n == 'holds_alternative' and (x.q or '').startswith('std::'):
            s = self.arg(f, x.c[0])
            if not s:
                return None
            m = re.search(r'holds_alternative<#(.*)', x.f or '')
            if not m:
                return None
            # the alternative is the first template argument: compare with the last component of each type
            first = m.group(1)
            best = None
            names = [re.sub(r'<.*', '', a).split('::')[-1] for a in s[1]]
            for a, nm in zip(s[1], names):
                if names.count(nm) > 1:
                    continue
                p = re.match(r'\$[\w@():]*?@%s(?![A-Za-z0-9_])' % re.escape(nm), first)
                if p and (best is None or len(nm) > len(best.split('::')[-1])):
                    best = a
            if best is None:
                best = prim(first, s[1])
            return (s[0], s[1], best) if best else None
        return None

    def index(self, f, n):
        x = strip_casts(n)
        if x is not None and x.k == 'CXXMemberCallExpr' and x.n == 'index' and x.obj is not None:
            return self.arg(f, x.obj)
        return None

    def ev(self, f, n, key, alt, env=None, depth=0):
        """truth (or number) of a condition when the variant key holds alternative alt"""
        x = strip_casts(n)
        if x is None or depth > 12:
            return None
        if x.cvi() is not None:
            return x.cvi()
        if x.k == 'UnaryOperator' and x.op == '!':
            a = self.ev(f, x.c[0], key, alt, env, depth + 1)
            return None if a is None else int(not a)
        if x.k in ('BinaryOperator', 'CXXRewrittenBinaryOperator', 'CXXOperatorCallExpr') and len(x.c) == 2 and x.op in ('&&', '||', '==', '!='):
            if x.op in ('==', '!='):
                l, r = strip_casts(x.c[0]), strip_casts(x.c[1])
                for a, b in ((l, r), (r, l)):
                    if b is not None and b.k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr') or b is not None and b.cvi() == 0 and self.atom(f, a):
                        v = self.ev(f, a, key, alt, env, depth + 1)
                        return None if v is None else int(bool(v) == (x.op == '!='))
            a, b = self.ev(f, x.c[0], key, alt, env, depth + 1), self.ev(f, x.c[1], key, alt, env, depth + 1)
            if x.op == '&&':
                return 0 if a == 0 or b == 0 else (None if a is None or b is None else 1)
            if x.op == '||':
                return 1 if a or b else (None if a is None or b is None else 0)
            if a is not None and b is not None:
                return int((a == b) == (x.op == '=='))
            return None
        i = self.index(f, x)
        if i and i[0] == key and alt in i[1]:
            return i[1].index(alt)
        a = self.atom(f, x)
        if a and a[0] == key:
            return int(a[2] == alt)
        if env:
            c = canon(x)
            if c in env:
                return env[c]
        if x.k == 'DeclRefExpr' and x.v is not None:
            d, w = self.ch.locals(f)
            if x.v in d and x.v not in w and d[x.v] is not None and bare(x.t) == 'bool':
                return self.ev(f, d[x.v], key, alt, env, depth + 1)
        if x.k in CALLS and (x.t or '') == 'bool' and x.k != 'CXXOperatorCallExpr':
            g = callee(self.facts, x)
            if g is not None and g.body is not None and not g.dep:
                b = [c for c in g.body.c if c is not None]
                if len(b) == 1 and b[0].k == 'ReturnStmt' and b[0].c:
                    for p, ar in zip(g.params, x.c):
                        if ar is not None and self.ch.key(f, ar) == key:
                            return self.ev(g, b[0].c[0], 'v%d' % p['v'], alt, None, depth + 1)
                    if key.startswith('this') and (x.obj is None or strip_casts(x.obj).k == 'CXXThisExpr'):
                        return self.ev(g, b[0].c[0], key, alt, None, depth + 1)
                    if x.obj is not None:
                        o = self.ch.key(f, x.obj)
                        if o is not None and key.startswith(o + '.'):
                            return self.ev(g, b[0].c[0], 'this' + key[len(o):], alt, None, depth + 1)
        return None

    def reach(self, f, key, alt, env=None):
        cfg = f.cfg
        seen, work = {cfg.entry}, [cfg.entry]
        while work:
            b = cfg.blocks[work.pop()]
            succs = list(b.succs)
            if b.tk == 'SwitchStmt' and b.cond is not None:
                c = self.ev(f, b.cond, key, alt, env)
                if c is not None:
                    hit = [x for x in succs if x >= 0 and c in self.ch.labels(cfg.blocks[x].lab)]
                    succs = hit or [x for x in succs if x >= 0 and not self.ch.labels(cfg.blocks[x].lab)]
            elif len(succs) == 2 and b.cond is not None:
                c = self.ev(f, branch_cond(b), key, alt, env)
                if c is not None:
                    succs = [succs[0] if c else succs[1]]
            for x in succs:
                if x >= 0 and x not in seen:
                    seen.add(x)
                    work.append(x)
        return seen

    def subjects(self, f):
        out = {}
        for n in all_nodes(f):
            if n.k == 'CallExpr' and n.n in ('get_if', 'holds_alternative'):
                a = self.atom(f, n)
                if a:
                    out[a[0]] = a[1]
            elif n.k == 'CXXMemberCallExpr' and n.n == 'index':
                a = self.index(f, n)
                if a:
                    out[a[0]] = a[1]
        return out


PRIM = {'i': 'unsigned int', 'I': 'int', 's': 'unsigned short', 'S': 'short', 'c': 'unsigned char', 'd': 'double', 'b': 'bool'}


def prim(s, al):
    if '$@N@std@N@__cxx11@S@basic_string' in s[:60] and not s.startswith('$@N@std@S@vector'):
        for a in al:
            if a.startswith('std::basic_string<'):
                return a
    if s.startswith('$@N@std@S@vector'):
        c = [a for a in al if a.startswith('std::vector<')]
        return c[0] if len(c) == 1 else None
    p = PRIM.get(s[0])
    return p if p in al else None


def blocks_of(f):
    """node id -> block"""
    out = {}
    for b in f.cfg.blocks.values():
        for e in b.e:
            if not isinstance(e, tuple):
                out[id(e)] = b.i
    return out


def must_facts(f, target):
    """(condition, truth) on every path to a block"""
    cfg = f.cfg
    out = []
    for b in cfg.blocks.values():
        if len(b.succs) == 2 and b.cond is not None and b.tk != 'SwitchStmt':
            for i in (0, 1):
                if b.succs[i] < 0 or b.succs[0] == b.succs[1]:
                    continue
                # the edge is on every path when the target cannot be reached without it
                seen, work = {cfg.entry}, [cfg.entry]
                while work:
                    x = cfg.blocks[work.pop()]
                    for j, s in enumerate(x.succs):
                        if s >= 0 and s not in seen and not (x.i == b.i and j == i):
                            seen.add(s)
                            work.append(s)
                if target not in seen:
                    out.append((branch_cond(b), i == 0))
    return out


def built(facts):
    """alternatives that are put into variants somewhere: {variant alternatives tuple: set}"""
    out = {}
    for f in repo_fns(facts):
        for n in all_nodes(f):
            if n.k in CTORS:
                a = alts(n.t)
                if a:
                    s = out.setdefault(tuple(a), set())
                    if not n.c or n.c[0] is None:
                        s.add(a[0])
                    else:
                        t = bare(n.c[0].t)
                        if t in a:
                            s.add(t)
                        elif alts(n.c[0].t) is None:
                            s.update(a)
            if n.k == 'CXXOperatorCallExpr' and n.op == '=' and len(n.c) == 2 and n.c[0] is not None:
                a = alts(n.c[0].t)
                if a and n.c[1] is not None:
                    t = bare(n.c[1].t)
                    out.setdefault(tuple(a), set()).update([t] if t in a else [] if alts(n.c[1].t) else a)
            if n.k == 'CXXMemberCallExpr' and n.n in ('emplace', 'emplace_back', 'push_back', 'insert', 'insert_or_assign', 'value_or') and \
                    n.obj is not None:
                for m in re.finditer(r'std::variant<', n.obj.t or ''):
                    rest = (n.obj.t or '')[m.start():]
                    d = 0
                    for i, ch in enumerate(rest):
                        d += (ch == '<') - (ch == '>')
                        if ch == '>' and d == 0:
                            rest = rest[:i + 1]
                            break
                    a = alts(rest)
                    if a:
                        s = out.setdefault(tuple(a), set())
                        if n.n == 'emplace' and alts(n.obj.t):
                            t = bare(n.t)
                            s.update([t] if t in a else a)
                        for c in n.c:
                            if c is not None and bare(c.t) in a:
                                s.add(bare(c.t))
    return out


def callers(facts):
    out = {}
    for f in repo_fns(facts):
        for n in all_nodes(f):
            if (n.k in CALLS or n.k in CTORS) and n.f:
                out.setdefault(n.f, []).append((f, n))
    return out


def block_at(f, n):
    """the block in which an expression is evaluated"""
    bl = getattr(f, '_p27b', None)
    if bl is None:
        bl = f._p27b = blocks_of(f)
    x = n
    while x is not None:
        if id(x) in bl:
            return bl[id(x)]
        x = x.parent
    return None


# Stops that do not tell apart the kinds of a value handed over: reviewed one by one (see DESIGN.md), per file.
REVIEWED = {
    'src/bitfiddling.hpp': 1,              # size of the bytes validated for one value
    'src/cffsubsetter.cpp': 13,            # offsets and sizes of what the CFF writer itself wrote; fdselect after unpack_fdselect's checks
    'src/commandstreamformatter.cpp': 1,   # key is a literal
    'src/document.cpp': 10,                # shading flags checked by the API; outline, structure tree and navigation bookkeeping
    'src/drawcontext.cpp': 1,              # group matrix accepted for groups, patterns and forms only
    'src/ft_subsetter.cpp': 13,            # tags are literals; table counts; FreeType's outline invariant; glyph 0 first
    'src/imagefileops.cpp': 11,            # pixel counts computed from the same sizes; TIFF memory callbacks
    'src/objectformatter.cpp': 6,          # nesting of what the library writes (P06)
    'src/pdfcommon.cpp': 2,                # text was validated as UTF-8
    'src/pdfwriter.cpp': 8,                # object numbering and bookkeeping
    'src/utils.cpp': 5,                    # zlib's and snprintf's contracts, validated UTF-8, the clock
    'src/xmlformatter.cpp': 11,            # nesting of the metadata the library writes
}
# Alternatives that never get to a stop although the function alone cannot show it: (function, alternative) -> why
EXCLUDED = {('generate_cff_font', 'CompositeGlyph'): 'handle_subglyphs returns early for CFF fonts, so that no composite glyph is recorded'}
# Variants whose alternative is fixed by how the library made the value: first two alternatives
INTERNAL = {('SerializedBasicContext', 'SerializedXObject'), ('DummyIndexZero', 'FullPDFObject')}
# Members that are only set together with the enumerator a stop insists on
GUARDS = {('jpg_image', 'decode'): 'the JPEG reader sets a decode array for CMYK files only'}


def run(facts, r):
    r.rule('kinds', 'a stop in a function that tells the kinds of a variant apart is reached by none of the kinds that are ever put into it', 10)
    r.rule('enumerators', 'a stop in a function that tells enumerators apart is reached by none of them', 5)
    r.rule('numbers', 'a number that is no enumerator and is handed to the API gets to no stop', 20)
    r.rule('inventory', 'every other stop guards an invariant of the library itself: there are no more of them than were reviewed', 3)
    K = Kinds(facts)
    B = built(facts)
    C = callers(facts)
    other = {}
    nstops = 0
    decided, lines = {}, set()
    live = reachable_all(facts, api_roots(facts))
    live = {x.key if hasattr(x, 'key') else x for x in live}
    for f in repo_fns(facts):
        if f.cfg is None or f.body is None:
            continue
        if f.key not in live:
            continue
        stops = [n for n in all_nodes(f) if n.k in CALLS and n.n in STOPS and
                 ((n.q or '') in STOPS or (n.q or '').startswith('std::'))]
        if not stops:
            continue
        subj = K.subjects(f)
        enums = {k: e for k, e in K.ch.subjects(f).items() if (e.get('td') or e['q']).split('::')[-1].startswith('CapyPDF_')}
        for s in stops:
            nstops += 1
            b = block_at(f, s)
            if (rel(f.file), s.l, s.n) in lines:
                continue
            if b is None or b not in walk(f):
                # after a switch that covers every enumerator
                for key in enums:
                    if any(x.k == 'SwitchStmt' for x in all_nodes(f)):
                        decided.setdefault(f.key, {}).setdefault(key, []).append((None, s))
                r.ok('enumerators', '%s:%d %s is behind a switch over every enumerator' % (rel(f.file), s.l, short(f.q)), f)
                continue
            judged = False
            for key, al in sorted(subj.items()):
                got = [a for a in al if b in K.reach(f, key, a)]
                if not decides(f, b, lambda c: any(K.ev(f, c, key, a) is not None for a in al)):
                    continue
                judged = True
                left = []
                for a in got:
                    if a == 'std::monostate':
                        r.count('stops on an empty variant')
                        continue
                    if a not in B.get(tuple(al), set(al)):
                        r.count('kinds that are never made')
                        continue
                    if tuple(x.split('::')[-1] for x in al)[:2] in INTERNAL:
                        r.count('kinds of values the library makes for itself')
                        continue
                    if (short(f.q), a.split('::')[-1]) in EXCLUDED:
                        r.count('kinds excluded by review')
                        continue
                    if not through_callers(facts, K, C, f, b, key, a):
                        r.count('kinds that callers keep away')
                        continue
                    left.append(a)
                for a in left:
                    r.bad('kinds', '%s:%d' % (rel(f.file), s.l), f, '%s|%s' % (short(f.q), a.split('::')[-1]),
                          '%s ends the process for a %s' % (short(f.q), a.split('::')[-1]))
                if not left:
                    r.ok('kinds', '%s:%d %s' % (rel(f.file), s.l, short(f.q)), f)
            for key, e in sorted(enums.items()):
                vals = [(x[0], x[1]) for x in e['e']]
                got = [nm for nm, v in vals if b in K.ch.reach(f, key, v)]
                if not decides(f, b, lambda c: any(K.ch.ev(f, c, key, v) is not None for _, v in vals)):
                    continue
                judged = True
                decided.setdefault(f.key, {}).setdefault(key, []).append((b, s))
                if got and guarded(facts, f, b):
                    r.count('enumerators kept away by another member')
                    got = []
                for nm in got:
                    r.bad('enumerators', '%s:%d' % (rel(f.file), s.l), f, '%s|%s' % (short(f.q), nm),
                          '%s ends the process for %s' % (short(f.q), nm))
                if not got:
                    r.ok('enumerators', '%s:%d %s' % (rel(f.file), s.l, short(f.q)), f)
            if not judged:
                lines.add((rel(f.file), s.l, s.n))
                other.setdefault(rel(f.file), []).append((f, s))
    r.count('stops of the process', nstops)
    K.fields = fields_of(facts, K)
    out_of_range(facts, r, K, decided)
    inventory(r, other)


def walk(f):
    cfg = f.cfg
    seen, work = {cfg.entry}, [cfg.entry]
    while work:
        for x in cfg.blocks[work.pop()].succs:
            if x >= 0 and x not in seen:
                seen.add(x)
                work.append(x)
    return seen


def guarded(facts, f, b):
    for c, t in must_facts(f, b):
        for x in c.walk():
            if x.k == 'MemberExpr' and ((x.cls or '').split('::')[-1], x.n) in GUARDS:
                return True
    return False


def decides(f, b, asks):
    """is one of the branches that lead directly to a block decided by the kind of the value?"""
    cfg = f.cfg
    seen, work = set(), [b]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        for p in cfg.blocks[x].preds:
            pb = cfg.blocks[p]
            if len([s for s in pb.succs if s >= 0]) > 1 and pb.cond is not None:
                c = pb.cond if pb.tk == 'SwitchStmt' else branch_cond(pb)
                if asks(c):
                    return True
            else:
                work.append(p)
    return False


def fields_of(facts, K):
    """(class, member) -> functions that read an enumerator kept there"""
    out = {}
    for f in repo_fns(facts):
        if f.cfg is None:
            continue
        for n in all_nodes(f):
            if n.k == 'MemberExpr' and n.n:
                e = K.ch.enum_of(n)
                if e is None or not (e.get('td') or e['q']).split('::')[-1].startswith('CapyPDF_'):
                    continue
                k = K.ch.key(f, n)
                if k:
                    out.setdefault(((n.cls or '').split('::')[-1], n.n), set()).add((f.key, k))
    return out


def stores(facts, K, f, e, key):
    """members that an expression stores the value of a key in"""
    for x in e.walk():
        if x.k in ('BinaryOperator', 'CXXOperatorCallExpr') and x.op == '=' and len(x.c) == 2:
            lhs = strip_casts(x.c[0])
            if lhs is not None and lhs.k == 'MemberExpr' and x.c[1] is not None and K.ch.key(f, x.c[1]) == key:
                yield ((lhs.cls or '').split('::')[-1], lhs.n)
        elif x.k == 'InitListExpr':
            nm = bare(x.t).split('::')[-1]
            rec = next((v for q, v in facts.records.items() if q.split('::')[-1] == nm), None)
            if rec is None:
                continue
            fl = [y['n'] for y in rec['fields']]
            vals = x.c[len(x.c) - len(fl):] if len(x.c) >= len(fl) else x.c
            for n, a in zip(fl, vals):
                if a is not None and K.ch.key(f, a) == key:
                    yield (nm, n)


def out_of_range(facts, r, K, decided):
    """a number that is no enumerator, handed to a function of the API, does not get to a stop either"""
    for f in repo_fns(facts):
        if not (f.q or '').startswith('capy_') or f.cfg is None:
            continue
        for p in f.params:
            e = K.ch.enums.get(bare(p['t']))
            if e is None:
                continue
            vals = [x[1] for x in e['e']]
            bad = None
            for v in (max(vals) + 1, min(vals) - 1):
                bad = bad or follow(facts, K, decided, f, 'v%d' % p['v'], v, set())
            r.count('enumeration parameters of the API')
            if bad:
                g, s = bad
                r.bad('numbers', '%s:%d' % (rel(g.file), s.l), f, '%s|%s' % (short(f.q), p['n']),
                      '%s hands a number for %s that is no enumerator on to %s, which ends the process' % (short(f.q), p['n'], short(g.q)))
            else:
                r.ok('numbers', '%s %s' % (short(f.q), p['n']), f)


def follow(facts, K, decided, f, key, v, seen):
    if (f.key, key) in seen or len(seen) > 400 or f.cfg is None:
        return None
    seen.add((f.key, key))
    re_ = K.ch.reach(f, key, v)
    for b, s in decided.get(f.key, {}).get(key, ()):
        if b is None or b in re_:
            return f, s
    for bi in re_:
        for e in f.cfg.blocks[bi].e:
            if isinstance(e, tuple):
                continue
            for m in stores(facts, K, f, e, key):
                for fk, k in sorted(K.fields.get(m, ())):
                    x = follow(facts, K, decided, facts.fns[fk], k, v, seen)
                    if x:
                        return x
            if e.k not in CALLS:
                continue
            g = callee(facts, e)
            if g is None or g.body is None or g.dep:
                continue
            args = e.c[1:] if e.k == 'CXXOperatorCallExpr' and g.cls else e.c
            for q, a in zip(g.params, args):
                if a is not None and K.ch.key(f, a) == key:
                    x = follow(facts, K, decided, g, 'v%d' % q['v'], v, seen)
                    if x:
                        return x
    return None


def inventory(r, other):
    total = sum(len(v) for v in other.values())
    rev = sum(REVIEWED.values())
    for file, v in sorted(other.items()):
        if len(v) > REVIEWED.get(file, 0) and total > rev:
            f, s = v[0]
            r.bad('inventory', file, f, '%s|%d' % (file, len(v)),
                  '%s has %d stops of the process where %d were reviewed: %s' % (
                      file, len(v), REVIEWED.get(file, 0), ', '.join('%s:%d' % (short(a.q), b.l) for a, b in v)))
        else:
            r.ok('inventory', '%s: %d stops' % (file, len(v)))


def through_callers(facts, K, C, f, b, key, alt):
    """can the stop be reached when the object's variant holds alt, given where the function is called?"""
    if not key.startswith('this.'):
        return True
    sites = C.get(f.key) or []
    if not sites:
        return True
    env = {}
    for c, t in must_facts(f, b):
        for g, leaf, truth, bind in implied(facts, f, c, t):
            k = canon(leaf)
            if g is f and k is not None and k.startswith('this'):
                env[k] = int(truth)
    for g, n in sites:
        if n.obj is not None and strip_casts(n.obj).k != 'CXXThisExpr' or g.cfg is None:
            return True
        cb = block_at(g, n)
        if cb is None or cb in K.reach(g, key, alt, env):
            return True
    return False
