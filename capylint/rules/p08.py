"""P08: the file written is a PDF file whose cross-reference data is right."""
import re
from ..facts import CALLS, CTORS, rel, AnalysisBroken
from ..util import strip_casts, path, pstr, all_nodes, callee, repo_fns, reachable, direct_callees, aliases
from ..flow import Explorer, Client, OK, ANY, is_expected
from ..wsim import Sim, sym, const, lin_add, show, base, texty, buffer_type, INTS, loops_of, norm

META = {
    'title': 'Cross-reference data points at every object',
    'statement': 'Every successful save gives each registered object (number = its position in the document\'s object list) '
                 'exactly one cross-reference entry that points at the byte where "N 0 obj" of that same object starts, or at '
                 'its place in the object stream. The entry formats, counts (/Size, /N, /First, /W), the numbers of the '
                 'catalog, the Info dictionary and the two bookkeeping objects, startxref, and the object framing '
                 '(obj/stream/endstream/endobj) agree with what was written. A short write is reported, not ignored.',
    'over': ['inputs'],
    'qtext': 'all documents, both layouts (PDF < 1.5 and >= 1.5)',
    'why': 'Viewers locate every object through these numbers; an off-by-one in one branch (streams, object streams, large files) '
           'makes a file unreadable while most files still look fine.',
    'files': ['src/pdfwriter.cpp', 'src/pdfwriter.hpp', 'src/document.cpp'],
    'mechanism': [('PdfWriter::write_objects', 'src/pdfwriter.cpp'), ('PdfWriter::write_finished_object', 'src/pdfwriter.cpp'),
                  ('PdfWriter::write_cross_reference_stream', 'src/pdfwriter.cpp'), ('PdfDocument::add_object', 'src/document.cpp')],
    'technique': 'path-sensitive interprocedural dataflow over clang CFGs with an abstract domain of text pieces and linear numbers',
    'level_note': 'decides the structure for all paths; assumes ftell reports the position after all bytes passed to fwrite',
}

OBJS = 'objects'
U32 = 0xffffffff


class Writer(Sim):
    def __init__(self, facts, entry):
        self.entry = entry
        direct = set()
        for f in repo_fns(facts):
            for n in all_nodes(f):
                if n.k in CALLS and n.n in ('fwrite', 'ftell') and rel(f.file).startswith('src/pdfwriter'):
                    direct.add(f.key)
                elif n.k == 'MemberExpr' and n.dk == 'field' and 'ObjectOffset' in (n.t or '') and rel(f.file).startswith('src/pdfwriter'):
                    direct.add(f.key)
        self.cls = entry.cls
        touching = set(direct)
        fns = [f for f in repo_fns(facts) if rel(f.file).startswith('src/pdfwriter') and f.cfg is not None]
        ch = True
        while ch:
            ch = False
            for f in fns:
                if f.key not in touching and any(g.key in touching for g in direct_callees(facts, f)):
                    touching.add(f.key)
                    ch = True
        self.touching = touching

        def pred(fn):
            if fn.key in touching:
                return True
            if fn.cfg is None or not rel(fn.file).startswith('src/pdfwriter'):
                return False
            if any('ObjectOffset' in p['t'] for p in fn.params):
                return True
            for p in fn.params:
                if p['t'].endswith('&') and 'const ' not in p['t'] and (buffer_type(p['t']) or 'back_insert' in p['t']):
                    return True
                if 'back_insert' in p['t']:
                    return True
                if 'ObjectFormatter' in p['t'] and any('ObjectOffset' in (q['t'] or '') or base(q['t']) in INTS for q in fn.params):
                    return True
            rt = base(fn.rt)
            if (rt in INTS or rt == 'std::basic_string<char>') and not loops_of(fn) and not any(
                    'ObjectFormatter' in (m.t or '') for m in all_nodes(fn)) and len(fn.cfg.blocks) < 15:
                return True
            return False
        super().__init__(facts, pred, self.veci)
        self.assigned = set()
        for k in touching:
            f = facts.fns[k]
            if not f.ctor:
                for n in all_nodes(f):
                    if n.k in ('BinaryOperator', 'CompoundAssignOperator') and n.op.endswith('=') and strip_casts(n.c[0]).k == 'MemberExpr':
                        self.assigned.add(strip_casts(n.c[0]).n)
        self.fwrites = {}
        self.iterw = {}
        self.alien = {}

    def veci(self, n):
        if n.t and base(n.t) == 'std::vector<capypdf::internal::ObjectOffset>':
            return OBJS
        if n.k == 'MemberExpr' and n.n == 'document_objects':
            return OBJS
        if n.t and base(n.t).startswith('std::expected<std::vector<capypdf::internal::ObjectOffset>'):
            return OBJS
        return None

    def in_visit(self, ctx):
        return any(f.is_lambda for f in ctx.stack)

    def writer_buffer(self, n):
        x = strip_casts(n)
        return x is not None and x.k == 'MemberExpr' and x.dk == 'field' and buffer_type(x.t) and x.c and \
            strip_casts(x.c[0]) is not None and strip_casts(x.c[0]).k == 'CXXThisExpr'

    def is_event(self, n):
        return n.k == 'CXXMemberCallExpr' and n.obj is not None and self.veci(strip_casts(n.obj)) == OBJS and not n.cst and \
            n.n in ('emplace_back', 'push_back')

    def eval(self, st, n, depth=0):
        m = strip_casts(n)
        if m is not None and m.k == 'CXXMemberCallExpr' and m.n in ('size', 'length') and m.obj is not None and self.writer_buffer(m.obj):
            cnt = sum(1 for e in (self.get(st, '@log') or ()) if e[0] == 'A')
            return ('bufsize', self.key(st, m.obj), cnt)
        if m is not None and m.k == 'CallExpr' and m.n == 'flate_compress' and m.c and self.get(st, '#%d' % m.id) is None:
            return ('txt', (('O', 'deflated', self.text(st, m.c[0], depth + 1)),))
        if m is not None and m.k == 'CXXMemberCallExpr' and m.n == 'steal' and m.obj is not None:
            k = self.key(st, m.obj)
            v = self.get(st, k) if k else None
            if v is not None and v[0] == 'txt':
                return ('txt', v[1])
        return super().eval(st, n, depth)

    def append(self, st, k, pieces):
        if k is not None and k.startswith('this.') and k.count('.') == 1:
            return self.log(st, ('A', k, pieces))
        return super().append(st, k, pieces)

    def on_node(self, st, n, ctx):
        if n.k == 'CXXMemberCallExpr' and n.obj is not None:
            if self.is_event(n):
                args = [x for x in n.c if x is not None]
                if len(args) == 1:
                    a = strip_casts(args[0])
                    while a is not None and a.k in CTORS and len([x for x in a.c if x is not None]) == 1 and 'ObjectOffset' in (a.t or ''):
                        a = strip_casts(a.c[0])
                    if a is not None and (a.k == 'InitListExpr' or a.k in CTORS or a.k == 'CXXParenListInitExpr'):
                        args = [x for x in a.c if x is not None]
                vals = [self.eval(st, x) for x in args]
                if len(vals) == 1:
                    # a local record: its fields
                    k = self.key(st, args[0])
                    vals = [self.get(st, k + '.store_compressed') if k else None, self.get(st, k + '.offset') if k else None]
                while len(vals) < 2:
                    vals.append(None)
                e = [self.get(st, a) for a, v in st if a.startswith('@empty:')]
                return [self.log(st, ('R', vals[0], vals[1], n.id))]
            if 'ObjectFormatter' in (n.obj.t or '') and not self.in_visit(ctx):
                return [self.formatter(st, n)]
        if n.k == 'DeclStmt' and not self.in_visit(ctx):
            r = super().on_node(st, n, ctx)
            s = r[0]
            for d in n.a.get('d', ()):
                if 'ObjectFormatter' in d['t'] and not d.get('ref'):
                    s = self.setv(s, 'v%d' % d['v'], ('txt', ()))
                if d.get('i') is None and 'ObjectOffset' in d['t']:
                    s = self.setv(s, 'v%d' % d['v'] + '.store_compressed', ('bool', False))
            return [s]
        if n.k == 'CallExpr' and n.n == 'fwrite' and len(n.c) == 4:
            data = self.text(st, n.c[0])
            a, b = self.eval(st, n.c[1]), self.eval(st, n.c[2])
            size = b if a == const(1) else a if b == const(1) else None
            self.fwrites.setdefault(n.id, set()).add((size == ('len', data), n))
            st = self.log(st, ('W', data, size == ('len', data)))
            return [self.put(st, '@pending', ('pending', n.id))]
        return super().on_node(st, n, ctx)

    def formatter(self, st, n):
        k = self.key(st, n.obj)
        if k is None:
            return st
        sp = ('L', ' ')

        def val(x):
            v = self.eval(st, x)
            if v is not None and v[0] == 'txt':
                return v[1]
            if v is not None:
                return (('F', '{}', v),)
            return (('O', '?'),)
        if n.n in ('begin_dict', 'begin_array', 'end_dict', 'end_array'):
            return self.fappend(st, k, (('L', {'begin_dict': '<< ', 'begin_array': '[ ', 'end_dict': '>>\n', 'end_array': '] '}[n.n]),))
        if n.n == 'add_token':
            return self.fappend(st, k, val(n.c[0]) + (sp,))
        if n.n == 'add_token_pair':
            return self.fappend(st, k, val(n.c[0]) + (sp,) + val(n.c[1]) + (sp,))
        if n.n == 'add_token_with_slash':
            return self.fappend(st, k, (('L', '/'),) + val(n.c[0]) + (sp,))
        if n.n == 'add_object_ref':
            return self.fappend(st, k, val(n.c[0]) + (('L', ' 0 R '),))
        if n.n in ('depth', 'current_indent', 'steal'):
            return st
        return self.fappend(st, k, (('O', '?' + str(n.n)), sp))

    def fappend(self, st, k, p):
        v = self.get(st, k)
        return self.setv(st, k, ('txt', norm((v[1] if v is not None and v[0] == 'txt' else (('O', '?fmt'),)) + p)))

    def extra_branch(self, st, c, truth, ctx):
        kk = self.key(st, c) if c is not None and c.k == 'MemberExpr' and base(c.t) == 'bool' else None
        if kk and kk.startswith('this.') and c.n not in self.assigned:
            k = '@is:' + kk
            v = self.get(st, k)
            if v is not None:
                return st if v[1] == truth else None
            return self.put(st, k, ('is', truth))
        # the result of fwrite compared with what was asked for
        if c is not None and c.k in ('BinaryOperator',) and c.op in ('==', '!=', '<', '>', '>=', '<='):
            for i in (0, 1):
                x = strip_casts(c.c[i])
                fw = None
                if x is not None and x.k == 'CallExpr' and x.n == 'fwrite':
                    fw = x
                elif x is not None and x.k == 'DeclRefExpr':
                    for m in all_nodes(ctx.fn):
                        if m.k == 'DeclStmt':
                            for d in m.a.get('d', ()):
                                y = strip_casts(d['i']) if d.get('i') is not None else None
                                if d['v'] == x.v and y is not None and y.k == 'CallExpr' and y.n == 'fwrite':
                                    fw = y
                if fw is not None and self.get(st, '@pending') == ('pending', fw.id):
                    other = self.eval(st, c.c[1 - i])
                    one = self.eval(st, fw.c[1]) == const(1)
                    want = self.eval(st, fw.c[2] if True else fw.c[1])
                    same = other == want
                    op = c.op if i == 0 else {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(c.op, c.op)
                    short = None
                    if same and op in ('==', '>='):
                        short = not truth
                    elif same and op in ('!=', '<'):
                        short = truth
                    if short is None:
                        return st
                    return self.put(st, '@short' if short else '@pending', ('short',) if short else None)
        return st

    def interesting(self, v):
        return v is not None and v[0] in ('fld', 'pos')

    def on_branch(self, st, cond, truth, ctx):
        s = super().on_branch(st, cond, truth, ctx)
        if s is None:
            return None
        v = self.eval(st, cond)
        if v is not None and v[0] == 'cmp' and any(x is not None and x[0] == 'pos' for x in v[2:4]):
            g = self.get(s, '@guards') or ()
            if (v, truth) not in g:
                s = self.put(s, '@guards', g + ((v, truth),))
        return s

    def enter_loop(self, st, fn, lid, body):
        st = super().enter_loop(st, fn, lid, body)
        bufs, nums = self.mutated(st, fn, body)
        if not bufs and not self.events_in(fn, body):
            return st
        return self.put(st, '@iter%s%d' % lid, ('first',))

    def back_edge(self, st, fn, lid, body):
        self.iterw.setdefault(lid, set()).add((self.get(st, '@log') or (), frozenset((a, v[1]) for a, v in st if a.startswith('@is:'))))
        k = '@iter%s%d' % lid
        f = self.get(st, k)
        if f is None:
            return super().back_edge(st, fn, lid, body)
        st = self.put(st, '@conds', (self.get(st, '@conds') or ()) + ((('iter',), f == ('first',)),))
        st = super().back_edge(st, fn, lid, body)
        st = frozenset((a, v) for a, v in st if a[0] != '#' and not a.startswith('@empty'))
        return self.put(st, k, ('later',))

    def on_return(self, st, n, ctx):
        if n.c and n.c[0] is not None and Explorer.ret_kind(n.c[0]) == 'err':
            # only that it failed matters
            return frozenset((a, v) for a, v in st if a.startswith('@is:'))
        return super().on_return(st, n, ctx)

    def enter(self, st, call, fn, ctx):
        if call.k == 'CallExpr' and call.n == 'visit':
            what = self.eval(st, call.c[1]) if len(call.c) > 1 else None
            st = super().enter(st, call, fn, ctx)
            return self.log(st, ('V', fn.key, what, call.id))
        return super().enter(st, call, fn, ctx)


def flat(log):
    return [e for e in log]


def value_eq(a, b):
    if a is None or b is None:
        return False
    if a[0] != 'lin':
        a = sym(a)
    if b[0] != 'lin':
        b = sym(b)
    return a == b


def frame(pieces):
    """parse the text of one indirect object -> dict or error string"""
    p = list(pieces)
    # stretch literals into characters for matching
    i = 0
    if not p or p[0][0] not in ('F',):
        return 'does not start with its number'
    if p[0][1] != '{}':
        return 'number is formatted with %s' % p[0][1]
    num = p[0][2]
    if len(p) < 2 or p[1][0] != 'L' or not re.match(r' 0 obj\s', p[1][1]):
        return 'number is not followed by " 0 obj"'
    rest = [('L', re.sub(r'^ 0 obj\s', '', p[1][1], count=1))] + p[2:]
    rest = list(norm(rest))
    if not rest or rest[-1][0] != 'L' or not rest[-1][1].endswith('endobj\n'):
        return 'does not end with endobj and a newline'
    last = rest[-1][1]
    # find the stream keyword
    for i, x in enumerate(rest):
        if x[0] == 'L' and (x[1].endswith('stream\n') or x[1].endswith('stream\r\n')) and not x[1].endswith('endstream\n') and i < len(rest) - 1:
            head = x[1][:x[1].rindex('stream')]
            before = rest[:i] + [('L', head)]
            data = rest[i + 1:-1]
            if not re.match(r'^(\r\n|\n|\r)endstream\s+endobj\n$', last):
                return 'stream data is followed by %r' % last
            ok = head.endswith(('\n', ' ', '>>')) or (head == '' and i > 0 and ends_nl(rest[i - 1]))
            if not ok:
                return 'the stream keyword is not separated from the dictionary'
            return {'num': num, 'dict': norm(before), 'data': norm(data)}
    if 'stream' in last.replace('endobj', ''):
        return 'text %r where endobj is expected' % last
    head = last[:-len('endobj\n')]
    if not (head[-1:] in ('\n', ' ') or (head == '' and len(rest) > 1 and ends_nl(rest[-2]))):
        return 'endobj is not separated from the object'
    return {'num': num, 'dict': norm(rest[:-1] + [('L', head)]), 'data': None}


def ends_nl(p):
    return (p[0] == 'O' and 'NL' in p[2:]) or (p[0] == 'L' and p[1][-1:] in ('\n', ' '))


def tokens(pieces):
    """flatten a formatter text to tokens: strings and ('F',..)/('O',..) pieces"""
    out = []
    for p in pieces:
        if p[0] == 'L':
            out.extend(re.findall(r'<<|>>|\[|\]|/[^\s\[\]<>/()]+|[^\s\[\]<>/]+', p[1]))
        else:
            out.append(p)
    return out


def dict_of(pieces):
    t = tokens(pieces)
    if not t or t[0] != '<<' or t[-1] != '>>':
        return None
    d = {}
    i = 1
    while i < len(t) - 1:
        k = t[i]
        if not (isinstance(k, str) and k.startswith('/')):
            return None
        i += 1
        v = []
        depth = 0
        while i < len(t) - 1:
            x = t[i]
            if depth == 0 and v and isinstance(x, str) and x.startswith('/'):
                break
            if x in ('[', '<<'):
                depth += 1
            elif x in (']', '>>'):
                depth -= 1
            v.append(x)
            i += 1
        if k in d:
            return None
        d[k] = v
    return d


def num_of(tok):
    if isinstance(tok, str) and re.fullmatch(r'-?\d+', tok):
        return const(int(tok))
    if isinstance(tok, tuple) and tok[0] == 'F':
        v = tok[2]
        return v if v is not None and v[0] == 'lin' else sym(v) if v is not None else None
    return None


def ref_of(v):
    if v and len(v) == 3 and v[1:] == ['0', 'R']:
        return num_of(v[0])
    return None


def find_entry(facts):
    c = [f for f in repo_fns(facts) if rel(f.file).startswith('src/pdfwriter') and f.cls and f.cfg is not None and not f.is_lambda]
    # the member function, reached from outside the class, through which everything is written
    fw = {f.key for f in c if any(n.k in CALLS and n.n == 'fwrite' for n in all_nodes(f))}
    r = []
    for f in c:
        if f.ctor or f.dtor:
            continue
        cl = reachable(facts, [f])
        if not (fw & set(cl)):
            continue
        outside = any(f.key == n.f for g in repo_fns(facts) if not rel(g.file).startswith('src/pdfwriter') for n in all_nodes(g) if n.k in CALLS)
        if outside:
            r.append(f)
    if len(r) != 1:
        raise AnalysisBroken('the writer\'s entry point was not identified: %s' % [f.q for f in r])
    return r[0]


def run(facts, r):
    r.rule('write', 'everything written to the output goes through fwrite with the length of the bytes passed, a short write '
           'never leads to success, and nothing else writes to that file', 1)
    r.rule('record', 'handling one object of the document\'s list records exactly one position on every success path: the file '
           'position before its first byte, or its offset in the object stream before it is appended there', 5)
    r.rule('frame', 'what is written for an object is "N 0 obj", the object, for streams "stream" data newline "endstream", and '
           '"endobj", separated by white space', 5)
    r.rule('number', 'the N written for an object is its index in the document\'s object list', 3)
    r.rule('walk', 'the objects are handled in list order, one iteration each, the running number counting from 0 in steps of 1', 1)
    r.rule('layout', 'objects are put into the object stream only when the layout with a cross-reference stream is written', 1)
    r.rule('table', 'the cross-reference table has the right header and 20-byte entries carrying each recorded position', 2)
    r.rule('xstream', 'cross-reference stream entries have the widths of /W and the fields their type requires, in object order', 4)
    r.rule('objstm', 'the object stream\'s header pairs, /N and /First describe exactly the objects stored in it', 3)
    r.rule('trailer', '/Size, /Root, /Info and the numbers of the bookkeeping objects fit the object list', 6)
    r.rule('startxref', 'startxref is the position of the cross-reference section and is followed by %%EOF at the end', 2)
    r.rule('last', 'the catalog is the last object registered before the objects are written, the Info dictionary is object 1', 2)
    r.rule('append', 'the document\'s object list only ever grows at its end', 2)
    r.assume('ftell on the output returns the number of bytes written so far')

    once = set()
    bad0 = r.bad

    def bad1(rule, where, fn, detail, msg, count=True):
        k = (rule, fn.q, detail)
        if k not in once:
            once.add(k)
            bad0(rule, where, fn, detail, msg, count)
    r.bad = bad1
    entry = find_entry(facts)
    w = Writer(facts, entry)
    ex = Explorer(facts, w, cap=20000)
    outs = ex.run(entry, frozenset())
    ends = [s for k, s in outs if k in (OK, ANY)]
    if not ends:
        raise AnalysisBroken('no success path through the writer')
    for k in ex.fns_visited:
        f = facts.fns.get(k)
        if f is not None:
            r.functions.add(f.q)

    # write
    nodes = {}
    for i, ss in w.fwrites.items():
        for okk, n in ss:
            nodes.setdefault(n, []).append(okk)
    for n, oks in nodes.items():
        if all(oks):
            r.ok('write', '%s fwrite of whole buffers' % n.loc, n.fn)
        else:
            r.bad('write', n.loc, n.fn, 'length', 'fwrite is given a length that is not the length of the bytes passed')
    for s in ends:
        if w.get(s, '@short') is not None:
            r.bad('write', entry.loc, entry, 'short write', 'the writer can succeed after a short write')
            break
        if w.get(s, '@pending') is not None:
            r.bad('write', entry.loc, entry, 'unchecked write', 'the result of fwrite is not compared with the requested length before success')
            break
    for f in repo_fns(facts):
        if not rel(f.file).startswith('src/pdfwriter'):
            continue
        for n in all_nodes(f):
            if n.k == 'CallExpr' and n.n in ('fputs', 'fprintf', 'fputc', 'putc', 'vfprintf', 'fseek', 'rewind', 'ftruncate', 'write', 'setvbuf',
                                             'fseeko', 'fsetpos', 'pwrite', 'fputwc'):
                tgt = [a for a in n.c if a is not None and ('_IO_FILE' in (a.t or ''))]
                if tgt and not any('stderr' in str(strip_casts(a).q or strip_casts(a).n) or 'stdout' in str(strip_casts(a).q or strip_casts(a).n) for a in tgt):
                    r.bad('write', n.loc, f, n.n, 'the output file is also changed through %s' % n.n)

    # per object kind
    pre = {}
    loops = set()
    for (kind, lid), logs in w.flog.items():
        loops.add(lid)
    objloop = [lid for lid in loops if any(any(e[0] == 'V' for e in l) for l in w.flog.get(('iter', lid), ()))]
    if len(objloop) != 1:
        raise AnalysisBroken('the loop over the document\'s objects was not identified')
    lid = objloop[0]
    lfn = w.loopfn[lid]
    # the walk
    segs = w.segs.get((lid, None), set())
    ctrs = {k for (l, k) in w.inits if l == lid}
    good = {}
    for k in ctrs:
        init = w.inits[(lid, k)]
        ds = {dict(s[2]).get(k) for s in segs}
        good[k] = init == {const(0)} and ds == {const(1)}
    what = set()
    for l in w.flog.get(('iter', lid), ()):
        for e in l:
            if e[0] == 'V':
                what.add(e[2])
    okwalk = False
    idx = None
    for x in what:
        if x is None or x[0] != 'elem' or x[1] != OBJS:
            okwalk = False
            break
        if x[2] is not None and x[2][0] == 'lin' and len(x[2][1]) == 1 and x[2][2] == 0 and x[2][1][0][1] == 1 and x[2][1][0][0][0] == 'ctr':
            idx = x[2][1][0][0][2]
            okwalk = good.get(idx, False) and full_range(w, lid, idx)
        elif x[2] is not None and x[2][0] == 'it':
            cand = [k for k in ctrs if good[k]]
            idx = cand[0] if len(cand) == 1 else None
            okwalk = idx is not None
    if okwalk and len(what) == 1:
        r.ok('walk', '%s: objects handled in order, number %s' % (w.loopcond[lid].loc, idx), lfn)
    else:
        r.bad('walk', lfn.loc, lfn, 'loop over objects', 'the objects are not handled one after the other under their own index')
    own = sym(('ctr', lid, idx)) if idx else None

    seen = set()
    for l in sorted(w.flog.get(('iter', lid), ()), key=repr):
        vs = [e for e in l if e[0] == 'V']
        alt = facts.fns[vs[0][1]] if vs else lfn
        altname = alt.params[0]['t'].split('::')[-1].replace(' &', '') if alt.params else alt.q
        rec = [e for e in l if e[0] == 'R']
        wr = [e for e in l if e[0] == 'W']
        ap = [e for e in l if e[0] == 'A']
        where = alt.loc
        sig = (altname, tuple(x[0] for x in l))
        if len(vs) != 1:
            r.bad('record', where, lfn, 'visits', 'an iteration handles %d objects' % len(vs))
            continue
        if len(rec) != 1:
            r.bad('record', where, alt, altname + ' records', '%s: %d positions recorded for one object' % (altname, len(rec)))
            continue
        comp, off, nid = rec[0][1:]
        ri = l.index(rec[0])
        if 'DummyIndexZero' in altname:
            if wr or ap or comp != ('bool', False):
                r.bad('record', where, alt, altname, 'the reserved object 0 is written')
            else:
                r.ok('record', '%s: entry 0 reserved' % altname, alt)
            continue
        if comp == ('bool', False):
            ti = [i for i, e in enumerate(l) if e[0] == 'T' and off == ('pos', e[1])]
            if not ti:
                r.bad('record', where, alt, altname + ' position', '%s: the recorded position is not a file position taken for this object' % altname)
                continue
            wi = [i for i, e in enumerate(l) if e[0] == 'W']
            if wi and wi[0] < ti[0]:
                r.bad('record', where, alt, altname + ' late', '%s: the position is taken after bytes of the object were written' % altname)
                continue
            if not wi:
                r.bad('record', where, alt, altname + ' nothing', '%s: a position is recorded but nothing is written' % altname)
                continue
            if ap:
                r.bad('record', where, alt, altname + ' both', '%s: written to the file and to the object stream' % altname)
                continue
            if sig not in seen:
                r.ok('record', '%s: position taken before the first byte' % altname, alt)
            text = norm(tuple(p for e in wr for p in e[1]))
            fr = frame(text)
            if isinstance(fr, str):
                r.bad('frame', where, alt, altname + ' ' + fr, '%s: the object text %s (%s)' % (altname, fr, show(('txt', text))))
                continue
            if (altname, fr['data'] is None) not in seen:
                r.ok('frame', '%s %s' % (altname, 'stream' if fr['data'] is not None else 'plain'), alt)
                seen.add((altname, fr['data'] is None))
            check_number(facts, r, w, alt, altname, fr['num'], own, seen)
        elif comp == ('bool', True):
            if wr:
                r.bad('record', where, alt, altname + ' both', '%s: recorded as part of the object stream but written to the file' % altname)
                continue
            if off is None or off[0] != 'bufsize' or off[2] != 0:
                r.bad('record', where, alt, altname + ' offset', '%s: the recorded offset is not the size of the object stream before the object is appended' % altname)
                continue
            if len(ap) < 1 or any(a[1] != off[1] for a in ap):
                r.bad('record', where, alt, altname + ' not appended', '%s: the object is not appended to the buffer whose size was recorded' % altname)
                continue
            if sig not in seen:
                r.ok('record', '%s: offset in the object stream' % altname, alt)
        else:
            r.bad('record', where, alt, altname + ' kind', '%s: cannot tell whether the position is in the file or in the object stream' % altname)
        seen.add(sig)

    # around
    for l in w.flog.get(('pre', lid), ()):
        rec = [e for e in l if e[0] in ('R', 'A')]
        if rec:
            r.bad('walk', lfn.loc, lfn, 'before', 'positions are recorded before the loop over the objects')
    worlds = {}
    for s in ends:
        x = [v for k, v in s if k == '@is:use_xref']
        worlds.setdefault(tuple(sorted((k, v[1]) for k, v in s if k.startswith('@is:'))), []).append(s)
    nold = nnew = 0
    oldworlds = []
    done = set()
    for wk, ss in sorted(worlds.items()):
        for s in ss:
            log = w.get(s, '@log') or ()
            key = (log, w.get(s, '@guards'))
            if key in done:
                continue
            done.add(key)
            if any(e[0] == 'W' and any(p[0] == 'L' and re.search(r'(^|\n)xref\n', p[1]) for p in e[1]) for e in log):
                nold += 1
                oldworlds.append(dict(wk))
                old_tail(facts, r, w, entry, log, s)
            else:
                nnew += 1
                new_tail(facts, r, w, entry, log, s)
    if not nold or not nnew:
        raise AnalysisBroken('only one of the two file layouts was recognised')
    # compressed records only where the cross-reference stream is used
    if not any(e[0] == 'R' and e[1] == ('bool', True) and any(all(dict(wd).get(a, v) == v for a, v in ow.items()) for ow in oldworlds)
               for l, wd in w.iterw.get(lid, ()) for e in l):
        r.ok('layout', 'objects go to the object stream only in the layout that has one', entry)
    else:
        r.bad('layout', lfn.loc, lfn, 'object stream', 'an object can be put into the object stream although the file is written with the old '
              'cross-reference table, which cannot refer to it')
    header(facts, r, w, entry, lid)
    append_only(facts, r)
    catalog_last(facts, r)
    r.count('paths_to_success', len(ends))
    r.count('object_iterations', len(w.flog.get(('iter', lid), ())))


def full_range(w, lid, idx):
    c = strip_casts(w.loopcond[lid])
    fn = w.loopfn[lid]
    if c.k != 'BinaryOperator' or c.op not in ('<', '!=', '>'):
        return False
    a, b = (c.c[0], c.c[1]) if c.op != '>' else (c.c[1], c.c[0])
    k = pstr(path(a)) if path(a) else None
    y = strip_casts(b)
    if k != idx:
        return False
    if y.k == 'CXXMemberCallExpr' and y.n == 'size' and w.veci(strip_casts(y.obj)) == OBJS:
        return True
    if y.k == 'DeclRefExpr':
        for m in all_nodes(fn):
            if m.k == 'DeclStmt':
                for d in m.a.get('d', ()):
                    z = strip_casts(d['i']) if d.get('i') is not None else None
                    if d['v'] == y.v and z is not None and z.k == 'CXXMemberCallExpr' and z.n == 'size' and w.veci(strip_casts(z.obj)) == OBJS:
                        return True
    return False


def check_number(facts, r, w, alt, altname, num, own, seen):
    if own is not None and value_eq(num, own):
        if ('num', altname) not in seen:
            r.ok('number', '%s: running index' % altname, alt)
            seen.add(('num', altname))
        return
    if num is not None and num[0] == 'lin' and len(num[1]) == 1 and num[2] == 0 and isinstance(num[1][0][0], str):
        name = num[1][0][0]
        fld = name.split(' in ')[0].split('.')[-1]
        n = w.nodes.get(name)
        ok, why = stored_number(facts, fld, altname, n)
        if ('num', altname) in seen:
            return
        seen.add(('num', altname))
        if ok:
            r.ok('number', '%s: %s (%s)' % (altname, fld, why), alt)
        else:
            r.bad('number', alt.loc, alt, altname + ' ' + fld, '%s is written under the number %s, %s' % (altname, fld, why))
        return
    r.bad('number', alt.loc, alt, altname, '%s is written under the number %s, not its own index' % (altname, show(num)))


def adds(facts):
    """the functions that append one object and return its number"""
    c = getattr(facts, '_adders', None)
    if c is not None:
        return c
    res = {}
    for f in repo_fns(facts):
        if f.cls and f.cls.endswith('PdfDocument') and base(f.rt) == 'int' and f.cfg is not None and len(f.params) == 1 and 'variant<' in f.params[0]['t']:
            pb = [n for n in all_nodes(f) if n.k == 'CXXMemberCallExpr' and n.n in ('push_back', 'emplace_back') and
                  strip_casts(n.obj).n == 'document_objects']
            if pb or any(n.k == 'CXXMemberCallExpr' and n.n in ('insert', 'emplace') and strip_casts(n.obj).n == 'document_objects' for n in all_nodes(f)):
                res[f.key] = f
    facts._adders = res
    return res


def added_type(n):
    """type of the object handed to an adder / push_back"""
    t = None
    for x in n.walk() if n is not None else ():
        m = re.search(r'capypdf::internal::((Delayed|Full|Deflate|Dummy)\w+)', x.t or '')
        if m and 'variant' not in (x.t or ''):
            return m.group(1)
    return t


def stored_number(facts, fld, altname, n):
    """every value stored in the field is the number of the object of that kind"""
    ad = adds(facts)
    stores = []
    for f in repo_fns(facts):
        for m in all_nodes(f):
            if m.k == 'BinaryOperator' and m.op == '=' and strip_casts(m.c[0]).k == 'MemberExpr' and strip_casts(m.c[0]).n == fld:
                stores.append((f, m, m.c[1]))
            elif m.k in ('InitListExpr', 'CXXParenListInitExpr') or m.k in CTORS:
                rec = facts.records.get(base(m.t))
                if rec and m.k == 'InitListExpr':
                    for i, fl in enumerate(rec['fields']):
                        if fl['n'] == fld and i < len(m.c) and m.c[i] is not None:
                            stores.append((f, m, m.c[i]))
    if not stores:
        return False, 'a field that is never set'
    for f, m, v in stores:
        x = strip_casts(v)
        if x.k == 'DeclRefExpr' and x.v is not None:
            for d0 in all_nodes(f):
                if d0.k == 'DeclStmt':
                    for d in d0.a.get('d', ()):
                        if d['v'] == x.v and d.get('i') is not None:
                            x = strip_casts(d['i'])
        if x.k in CALLS and x.f in ad:
            t = added_type(x.c[0])
            if t != altname:
                return False, 'which is the number of a %s' % t
            continue
        # size() - 1 directly after the push
        if x.k == 'BinaryOperator' and x.op == '-' and strip_casts(x.c[1]).cvi() == 1 and strip_casts(x.c[0]).n == 'size' and \
                strip_casts(strip_casts(x.c[0]).obj).n == 'document_objects':
            sib = [y for y in (m.parent.c if m.parent is not None else ()) if y is not None]
            if m in sib:
                i = sib.index(m)
                prev = strip_casts(sib[i - 1]) if i else None
                if prev is not None and prev.k == 'CXXMemberCallExpr' and prev.n in ('push_back', 'emplace_back') and \
                        strip_casts(prev.obj).n == 'document_objects' and added_type(prev.c[0]) == altname:
                    continue
            return False, 'whose value is not the index of the object just appended'
        if x.k == 'BinaryOperator' or True:
            # size() before the push
            if x.k == 'CXXMemberCallExpr' and x.n == 'size' and strip_casts(x.obj).n == 'document_objects':
                sib = [y for y in (m.parent.c if m.parent is not None else ()) if y is not None]
                if m in sib and sib.index(m) + 1 < len(sib):
                    nx = strip_casts(sib[sib.index(m) + 1])
                    if nx.k == 'CXXMemberCallExpr' and nx.n in ('push_back', 'emplace_back') and strip_casts(nx.obj).n == 'document_objects' and \
                            added_type(nx.c[0]) == altname:
                        continue
            return False, 'which is set from something other than the result of registering the object'
    # the element it is read from must be the one that belongs to the object
    if n is not None:
        al = aliases(n.fn)
        walk = list(n.walk())
        for y in walk:
            if y.k == 'DeclRefExpr' and y.v in al and len(walk) < 200:
                walk.extend(al[y.v].walk())
        for y in walk:
            if (y.k == 'CXXMemberCallExpr' and y.n == 'at' and y.c):
                ie = strip_casts(y.c[0])
                if ie.k == 'MemberExpr' and ie.dk == 'field' and altname in (strip_casts(ie.c[0]).t or ''):
                    fn2 = ie.n
                    bad = []
                    cont = strip_casts(y.obj).n
                    for f in repo_fns(facts):
                        for m in all_nodes(f):
                            if m.k == 'BinaryOperator' and m.op == '=' and strip_casts(m.c[0]).k == 'MemberExpr' and strip_casts(m.c[0]).n == fn2 and \
                                    altname in (strip_casts(strip_casts(m.c[0]).c[0]).t or ''):
                                z = strip_casts(m.c[1])
                                if not (z.k == 'CXXMemberCallExpr' and z.n == 'size' and strip_casts(z.obj).n == cont):
                                    bad.append(m)
                    if bad:
                        return False, 'looked up under an index that is not the position it was stored at'
                else:
                    al = aliases(y.fn).get(ie.v) if ie.k == 'DeclRefExpr' else None
                    return False, 'looked up under an index that does not come from the object'
    return True, 'set from the registration of that object'


def guarded(conds, v):
    for c, truth in conds:
        if c[0] != 'cmp':
            continue
        op, a, b = c[1], c[2], c[3]
        if b == v:
            a, b = b, a
            op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
        if a != v or b is None or b[0] != 'lin' or b[1]:
            continue
        k = b[2] & 0xffffffffffffffff
        if (op == '>' and not truth and k <= U32) or (op == '>=' and not truth and k <= U32 + 1) or \
                (op == '<=' and truth and k <= U32) or (op == '<' and truth and k <= U32 + 1):
            return True
    return False


def split_objects(log):
    """tail log -> list of ('obj', index of first W, frame) / ('text', i, pieces)"""
    out = []
    i = 0
    cur = None
    for j, e in enumerate(log):
        if e[0] != 'W':
            continue
        p = e[1]
        if cur is None:
            if len(p) >= 2 and p[0][0] == 'F' and p[1][0] == 'L' and p[1][1].startswith(' 0 obj'):
                cur = [j, list(p)]
            else:
                out.append(('text', j, p))
                continue
        else:
            cur[1].extend(p)
        t = norm(cur[1])
        if t[-1][0] == 'L' and t[-1][1].endswith('endobj\n'):
            out.append(('obj', cur[0], frame(t)))
            cur = None
    if cur is not None:
        out.append(('obj', cur[0], 'is not finished'))
    return out


def last_pos_before(log, j):
    for i in range(j - 1, -1, -1):
        if log[i][0] == 'W':
            return None
        if log[i][0] == 'T':
            yield_ = log[i][1]
            return yield_
    return None


def positions_at(log, j):
    """ftell calls whose value is the position of write j"""
    out = set()
    for i in range(j - 1, -1, -1):
        if log[i][0] == 'W':
            break
        if log[i][0] == 'T':
            out.add(('pos', log[i][1]))
    return out


def check_start(r, w, entry, log, where_pos, fn):
    ws = [e for e in log if e[0] == 'W']
    # the last literal text
    txt = norm(tuple(p for e in ws for p in e[1]))
    ok = len(txt) >= 3 and txt[-1][0] == 'L' and re.fullmatch(r'\n%%EOF\n?', txt[-1][1]) and txt[-2][0] == 'F' and txt[-2][1] == '{}' and \
        txt[-3][0] == 'L' and re.search(r'(^|\n)startxref\n$', txt[-3][1])
    if not ok:
        r.bad('startxref', entry.loc, entry, 'end of file', 'the file does not end with startxref, a number and %%EOF')
        return
    v = txt[-2][2]
    if v not in where_pos:
        r.bad('startxref', entry.loc, entry, 'value', 'startxref is not the position of the cross-reference section (%s)' % show(v))
    else:
        r.ok('startxref', 'position of the cross-reference section', entry)


def check_trailer_dict(r, w, entry, d, size, root, where):
    ok = True
    if num_of((d.get('/Size') or [None])[0]) != size or len(d.get('/Size', [])) != 1:
        r.bad('trailer', entry.loc, entry, where + ' /Size', '%s: /Size is %s, not %s' % (where, show_toks(d.get('/Size')), show(size)))
        ok = False
    else:
        r.ok('trailer', '%s /Size = %s' % (where, show(size)), entry)
    if ref_of(d.get('/Root')) != root:
        r.bad('trailer', entry.loc, entry, where + ' /Root', '%s: /Root is %s, not the last registered object' % (where, show_toks(d.get('/Root'))))
    else:
        r.ok('trailer', '%s /Root = %s' % (where, show(root)), entry)
    if '/Info' in d:
        if ref_of(d['/Info']) != const(1):
            r.bad('trailer', entry.loc, entry, where + ' /Info', '%s: /Info is %s, not object 1' % (where, show_toks(d['/Info'])))
        else:
            r.ok('trailer', '%s /Info = 1' % where, entry)
    idv = d.get('/ID')
    if not idv or idv[0] != '[' or idv[-1] != ']' or len(idv) != 4:
        r.bad('trailer', entry.loc, entry, where + ' /ID', '%s: /ID is not an array of two strings' % where)
    else:
        r.ok('trailer', '%s /ID' % where, entry)


def show_toks(v):
    return ' '.join(x if isinstance(x, str) else show(x) for x in v) if v else 'missing'


def loop_iterations(w, pieces, r, rule, entry, what):
    ls = [p[1] for p in pieces if p[0] == 'LOOP']
    return ls


def visits_all(w, lid, r, rule, entry, what):
    """the loop runs over every recorded object, in order"""
    fn = w.loopfn[lid]
    c = strip_casts(w.loopcond[lid])
    for e in all_nodes(fn):
        pass
    hb = fn.cfg.blocks[lid[1]]
    if hb.tk == 'CXXForRangeStmt':
        # the range
        cont = None
        for m in all_nodes(fn):
            if m.k == 'DeclStmt':
                for d in m.a.get('d', ()):
                    if d['n'].startswith('__range') and d.get('i') is not None and w.veci(strip_casts(d['i'])) == OBJS:
                        return True
        return False
    for (l, k) in w.inits:
        if l == lid and w.inits[(l, k)] == {const(0)} and full_range(w, lid, k):
            ds = {dict(s[2]).get(k) for s in w.segs.get((lid, None), ())}
            return ds == {const(1)}
    return False


def old_tail(facts, r, w, entry, log, st):
    size = sym(('size', OBJS))
    parts = split_objects(log)
    xi = None
    for kind, j, t in parts:
        if kind == 'obj':
            r.bad('table', entry.loc, entry, 'extra object', 'an object is written after the object list without an entry')
            return
    # the section start
    xt = None
    for kind, j, t in parts:
        if t and t[0][0] == 'L' and t[0][1].startswith('xref\n'):
            xt = j
    if xt is None:
        r.bad('table', entry.loc, entry, 'xref keyword', 'no cross-reference section is written')
        return
    pos = positions_at(log, xt)
    check_start(r, w, entry, log, pos, entry)
    text = norm(tuple(p for e in log[xt:] if e[0] == 'W' for p in e[1]))
    # header
    if not (text[0] == ('L', 'xref\n0 ') and text[1][0] == 'F' and text[1][1] == '{}' and value_eq(text[1][2], size) and
            text[2][0] in 'L' and text[2][1] == '\n' and text[3][0] == 'LOOP'):
        # allow an entry 0 outside the loop
        r.bad('table', entry.loc, entry, 'header', 'the section does not start with "xref", "0 <number of objects>" and its entries: %s' %
              show(('txt', text[:4])))
        return
    r.ok('table', 'header "xref 0 %s"' % show(size), entry)
    lid = text[3][1]
    lfn = w.loopfn[lid]
    if not visits_all(w, lid, r, 'table', entry, 'table'):
        r.bad('table', lfn.loc, lfn, 'range', 'the entries are not produced for every recorded object in order')
    rest = text[4:]
    key = [k for (l, k) in w.segs if l == lid and k]
    for k in key:
        for pieces, conds, deltas in w.segs[(lid, k)]:
            first = dict(((c[0] if c[0] == 'iter' else None), t) for c, t in conds).get('iter')
            if first:
                if pieces != (('L', '0000000000 65535 f \n'),):
                    r.bad('table', lfn.loc, lfn, 'entry 0', 'the first entry is %r' % show(('txt', pieces)))
                else:
                    r.ok('table', 'entry 0 is free', lfn)
                continue
            ok = len(pieces) == 2 and pieces[0][0] == 'F' and pieces[0][1] in ('{:010}', '{:010d}', '{:0>10}') and pieces[0][2] is not None and \
                pieces[0][2][0] == 'fld' and pieces[0][2][2] == 'offset' and pieces[1] == ('L', ' 00000 n \n')
            if not ok:
                r.bad('table', lfn.loc, lfn, 'entry', 'an entry is %s, not a 10-digit position, generation and "n"' % show(('txt', pieces)))
            else:
                r.ok('table', 'entry %s' % show(('txt', pieces)), lfn)
    # trailer
    if not rest or rest[0][0] != 'L' or not rest[0][1].startswith('trailer\n'):
        r.bad('trailer', entry.loc, entry, 'trailer keyword', 'the table is not followed by the trailer')
        return
    body = norm((('L', rest[0][1][len('trailer\n'):]),) + tuple(rest[1:]))
    # cut at startxref
    b2 = []
    for p in body:
        if p[0] == 'L' and 'startxref' in p[1]:
            b2.append(('L', p[1][:p[1].index('startxref')]))
            break
        b2.append(p)
    d = dict_of(norm(b2))
    if d is None:
        r.bad('trailer', entry.loc, entry, 'trailer', 'the trailer dictionary could not be read: %s' % show(('txt', norm(b2))))
        return
    check_trailer_dict(r, w, entry, d, size, lin_add(size, const(-1)), 'trailer')


def new_tail(facts, r, w, entry, log, st):
    size = sym(('size', OBJS))
    parts = split_objects(log)
    objs = [p for p in parts if p[0] == 'obj']
    for p in objs:
        if isinstance(p[2], str):
            r.bad('frame', entry.loc, entry, 'bookkeeping ' + p[2], 'a bookkeeping object %s' % p[2])
            return
    if len(objs) != 2:
        r.bad('trailer', entry.loc, entry, 'bookkeeping objects', '%d bookkeeping objects are written, not the object stream and the cross-reference stream' % len(objs))
        return
    o, x = objs
    for p in objs:
        r.ok('frame', 'bookkeeping object', entry)
    od, xd = dict_of(o[2]['dict']), dict_of(x[2]['dict'])
    if od is None or xd is None or od.get('/Type') != ['/ObjStm'] or xd.get('/Type') != ['/XRef']:
        r.bad('trailer', entry.loc, entry, 'bookkeeping dictionaries', 'the bookkeeping dictionaries are not those of an object stream and a cross-reference stream')
        return
    on, xn = o[2]['num'], x[2]['num']
    if not value_eq(on, size):
        r.bad('trailer', entry.loc, entry, 'objstm number', 'the object stream is written as object %s, not %s' % (show(on), show(size)))
    else:
        r.ok('trailer', 'object stream number %s' % show(size), entry)
    if not value_eq(xn, lin_add(size, const(1))):
        r.bad('trailer', entry.loc, entry, 'xref number', 'the cross-reference stream is written as object %s, not %s + 1' % (show(xn), show(size)))
    else:
        r.ok('trailer', 'cross-reference stream number %s + 1' % show(size), entry)
    check_trailer_dict(r, w, entry, xd, lin_add(size, const(2)), lin_add(size, const(-1)), 'xref stream')
    opos, xpos = positions_at(log, o[1]), positions_at(log, x[1])
    check_start(r, w, entry, log, xpos, entry)
    for d, data, nm in ((od, o[2]['data'], 'object stream'), (xd, x[2]['data'], 'cross-reference stream')):
        ln = (d.get('/Length') or [None])[0]
        v = ln[2] if isinstance(ln, tuple) and ln[0] == 'F' else None
        if v != ('len', data):
            r.bad('trailer', entry.loc, entry, nm + ' /Length', 'the %s has /Length %s but is followed by %s' % (nm, show_toks(d.get('/Length')), show(('txt', data or ()))))
        else:
            r.ok('trailer', '%s /Length' % nm, entry)
        deflated = len(data) == 1 and data[0][0] == 'O' and data[0][1] == 'deflated'
        if deflated != (d.get('/Filter') == ['/FlateDecode']):
            r.bad('trailer', entry.loc, entry, nm + ' /Filter', 'the %s is %s but its /Filter is %s' % (nm, 'deflated' if deflated else 'not deflated', show_toks(d.get('/Filter'))))
    raw = o[2]['data']
    if len(raw) == 1 and raw[0][0] == 'O' and raw[0][1] == 'deflated':
        raw = raw[0][2]
    objstm(facts, r, w, entry, od, raw)
    raw = x[2]['data']
    if len(raw) == 1 and raw[0][0] == 'O' and raw[0][1] == 'deflated':
        raw = raw[0][2]
    wv = xd.get('/W') or []
    widths = [num_of(t) for t in wv[1:-1]] if wv and wv[0] == '[' and wv[-1] == ']' else None
    widths = [t[2] for t in widths] if widths and all(t is not None and not t[1] for t in widths) else None
    if widths is None or len(widths) != 3:
        r.bad('xstream', entry.loc, entry, '/W', '/W is not an array of three widths')
        return
    ix = xd.get('/Index')
    if ix is not None and not (len(ix) == 4 and num_of(ix[1]) == const(0) and num_of(ix[2]) == lin_add(size, const(2))):
        r.bad('xstream', entry.loc, entry, '/Index', '/Index does not cover all objects')
    xstream(facts, r, w, entry, raw, widths, on, opos, xpos, w.get(st, '@guards') or ())


def first_of(conds):
    for c, t in conds:
        if c[0] == 'iter':
            return t
    return None


def compressed_of(conds):
    v = {t for c, t in conds if c[0] == 'fld' and c[2] == 'store_compressed'}
    return v.pop() if len(v) == 1 else None


def objstm(facts, r, w, entry, od, raw):
    ls = [p for p in raw if p[0] == 'LOOP']
    if len(ls) != 1 or raw[0][0] != 'LOOP':
        r.bad('objstm', entry.loc, entry, 'layout', 'the object stream does not start with its list of offsets: %s' % show(('txt', raw)))
        return
    lid = ls[0][1]
    lfn = w.loopfn[lid]
    head = []
    i = 0
    while i < len(raw) and raw[i][0] in ('LOOP', 'L'):
        head.append(raw[i])
        i += 1
    body = raw[i:]
    if len(body) != 1 or body[0][0] != 'O' or not body[0][1].startswith('this.'):
        r.bad('objstm', lfn.loc, lfn, 'body', 'the offsets are not followed by the collected objects: %s' % show(('txt', body)))
        return
    fv = (od.get('/First') or [None])[0]
    v = fv[2] if isinstance(fv, tuple) and fv[0] == 'F' else None
    if v != ('len', norm(head)):
        r.bad('objstm', lfn.loc, lfn, '/First', '/First is %s, not the length of the list of offsets' % show_toks(od.get('/First')))
    else:
        r.ok('objstm', '/First = length of the list', lfn)
    if not visits_all(w, lid, r, 'objstm', entry, 'objstm'):
        r.bad('objstm', lfn.loc, lfn, 'range', 'the list of offsets is not produced from every recorded object in order')
    nv = num_of((od.get('/N') or [None])[0])
    cnt = None
    if nv is not None and len(nv[1]) == 1 and nv[2] == 0 and nv[1][0][1] == 1 and nv[1][0][0][0] == 'ctr' and nv[1][0][0][1] == lid:
        cnt = nv[1][0][0][2]
    if cnt is None or w.inits.get((lid, cnt)) != {const(0)}:
        r.bad('objstm', lfn.loc, lfn, '/N', '/N is %s, not the number of objects in the stream' % show_toks(od.get('/N')))
        return
    for (l, k), segs in w.segs.items():
        if l != lid or k is None:
            continue
        for pieces, conds, deltas in segs:
            comp = compressed_of(conds)
            delta = dict(deltas).get(cnt)
            if comp is True:
                num, off = entry_pair(pieces)
                ok = num is not None and off is not None and off[0] == 'fld' and off[2] == 'offset' and \
                    (off[1][2] == num or (off[1][2] and off[1][2][0] == 'it' and num and counts(w, lid, num)))
                if not ok:
                    r.bad('objstm', lfn.loc, lfn, 'pair', 'the list entry is %s, not the number and offset of the same object' % show(('txt', pieces)))
                else:
                    r.ok('objstm', 'pair %s' % show(('txt', pieces)), lfn)
                if delta != const(1):
                    r.bad('objstm', lfn.loc, lfn, 'count', 'an object in the stream is not counted in /N')
                else:
                    r.ok('objstm', '/N counts it', lfn)
            else:
                if pieces or delta not in (const(0), None) or comp is None:
                    r.bad('objstm', lfn.loc, lfn, 'other objects', 'an object that is not in the stream is listed or counted')
                else:
                    r.ok('objstm', 'others skipped', lfn)


def counts(w, lid, num):
    if num[0] != 'lin' or len(num[1]) != 1 or num[2] or num[1][0][0][0] != 'ctr':
        return False
    k = num[1][0][0][2]
    return w.inits.get((lid, k)) == {const(0)} and {dict(s[2]).get(k) for s in w.segs.get((lid, None), ())} == {const(1)}


def entry_pair(pieces):
    f = [p for p in pieces if p[0] == 'F']
    t = ''.join(p[1] if p[0] == 'L' else '#' if p[0] == 'F' and p[1] == '{}' else '?' for p in pieces)
    if len(f) == 2 and re.fullmatch(r'#\s+#\s+', t):
        n = f[0][2]
        return n, f[1][2]
    return None, None


def xstream(facts, r, w, entry, raw, widths, on, opos, xpos, guards):
    ls = [p for p in raw if p[0] == 'LOOP']
    if len(ls) != 1 or raw[0][0] != 'LOOP':
        r.bad('xstream', entry.loc, entry, 'layout', 'the cross-reference stream does not start with the entries of the object list: %s' % show(('txt', raw)))
        return
    lid = ls[0][1]
    lfn = w.loopfn[lid]
    if not visits_all(w, lid, r, 'xstream', entry, 'xstream'):
        r.bad('xstream', lfn.loc, lfn, 'range', 'the entries are not produced for every recorded object in order')

    def widths_ok(ps, nm):
        if [p[1] for p in ps if p[0] == 'B'] != widths or any(p[0] != 'B' for p in ps):
            r.bad('xstream', lfn.loc, lfn, nm + ' widths', '%s has fields of %s bytes but /W says %s' % (nm, [p[1] if p[0] == 'B' else '?' for p in ps], widths))
            return False
        return True
    idxk = None
    firsts = later = 0
    for (l, k), segs in sorted(w.segs.items(), key=repr):
        if l != lid or k is None:
            continue
        for pieces, conds, deltas in sorted(segs, key=repr):
            if first_of(conds):
                firsts += 1
                if widths_ok(pieces, 'entry 0') and (pieces[0][2] != const(0)):
                    r.bad('xstream', lfn.loc, lfn, 'entry 0', 'entry 0 is not of type 0')
                elif [p[1] for p in pieces] == widths:
                    r.ok('xstream', 'entry 0 is free', lfn)
                for kk, d in deltas:
                    if ('idx', kk) and d not in (const(0),) and kk in used_index(w, lid):
                        r.bad('xstream', lfn.loc, lfn, 'index start', 'the index in the object stream does not start at 0')
                continue
            later += 1
            comp = compressed_of(conds)
            nm = 'entry of an object in the object stream' if comp else 'entry of an object in the file'
            if not widths_ok(pieces, nm):
                continue
            a, b, c = (p[2] for p in pieces)
            if comp is True:
                ok = a == const(2) and value_eq(b, on)
                kk = None
                if c is not None and c[0] == 'lin' and len(c[1]) == 1 and c[2] == 0 and c[1][0][0][0] == 'ctr':
                    kk = c[1][0][0][2]
                if not ok:
                    r.bad('xstream', lfn.loc, lfn, 'compressed entry', 'the entry is (%s, %s, ..), not (2, number of the object stream, ..)' % (show(a), show(b)))
                elif kk is None or w.inits.get((lid, kk)) != {const(0)} or dict(deltas).get(kk) != const(1):
                    r.bad('xstream', lfn.loc, lfn, 'compressed index', 'the index in the object stream is %s, which does not count the objects in it' % show(c))
                else:
                    r.ok('xstream', 'type 2 entry', lfn)
            elif comp is False:
                ok = a == const(1) and b is not None and b[0] == 'fld' and b[2] == 'offset' and c == const(0)
                if not ok:
                    r.bad('xstream', lfn.loc, lfn, 'plain entry', 'the entry is (%s, %s, %s), not (1, position, 0)' % (show(a), show(b), show(c)))
                elif widths[1] < 8 and not guarded(conds, b):
                    r.bad('xstream', lfn.loc, lfn, 'range', 'a position that does not fit the field is not rejected')
                else:
                    r.ok('xstream', 'type 1 entry', lfn)
                for kk in used_index(w, lid):
                    if dict(deltas).get(kk) not in (const(0), None):
                        r.bad('xstream', lfn.loc, lfn, 'index step', 'the index in the object stream also advances for objects that are not in it')
            else:
                r.bad('xstream', lfn.loc, lfn, 'kind', 'an entry is written without looking at where the object is')
    if not firsts or not later:
        r.bad('xstream', lfn.loc, lfn, 'entries', 'no entries are written')
    rest = raw[1:]
    if len(rest) != 6 or any(p[0] != 'B' for p in rest):
        r.bad('xstream', entry.loc, entry, 'bookkeeping', 'the entries of the object stream and the cross-reference stream are missing')
        return
    for ps, pos, nm in ((rest[:3], opos, 'object stream'), (rest[3:], xpos, 'cross-reference stream')):
        if not widths_ok(ps, nm + ' entry'):
            continue
        a, b, c = (p[2] for p in ps)
        if a != const(1) or b not in pos or c != const(0):
            r.bad('xstream', entry.loc, entry, nm, 'the entry of the %s is (%s, %s, %s), not (1, its position, 0)' % (nm, show(a), show(b), show(c)))
        elif widths[1] < 8 and not guarded(guards, b):
            r.bad('xstream', entry.loc, entry, nm + ' range', 'the position of the %s is not checked to fit its field' % nm)
        else:
            r.ok('xstream', '%s entry' % nm, entry)
    # the appended integers are big-endian
    keys = {p[3] for p in list(rest) + [p for (l, k), ss in w.segs.items() if l == lid for s in ss for p in s[0] if p[0] == 'B']}
    for kx in keys:
        f = facts.fns.get(kx)
        if f is None:
            continue
        if swaps(facts, f):
            r.ok('xstream', '%s appends most significant byte first' % f.q.split('::')[-1], f)
        else:
            r.bad('xstream', f.loc, f, 'byte order', 'the fields are not appended most significant byte first')


def swaps(facts, f, depth=0):
    one = any(base(p['t']) in ('unsigned char', 'char', 'signed char') for p in f.params)
    for n in all_nodes(f):
        if n.k == 'CallExpr' and n.n in ('byteswap', 'htonl', 'htons', '__builtin_bswap32', '__builtin_bswap16', '__builtin_bswap64'):
            return True
    return one


def used_index(w, lid):
    out = set()
    for (l, k), segs in w.segs.items():
        if l == lid and k:
            for pieces, conds, deltas in segs:
                if compressed_of(conds) is True and len(pieces) == 3 and pieces[2][0] == 'B':
                    c = pieces[2][2]
                    if c is not None and c[0] == 'lin' and len(c[1]) == 1 and c[1][0][0][0] == 'ctr':
                        out.add(c[1][0][0][2])
    return out


def header(facts, r, w, entry, lid):
    for l in w.flog.get(('pre', lid), ()):
        ws = [e for e in l if e[0] == 'W']
        if not ws:
            r.bad('frame', entry.loc, entry, 'header', 'nothing is written before the objects')
        else:
            r.ok('frame', 'header before the objects', entry)


# -- the catalog and Info ----------------------------------------------------

class LastAdd(Client):
    def __init__(self, facts, ad, reach, first=False):
        self.facts, self.ad, self.reach, self.first = facts, ad, reach, first

    def inline(self, st, call, fn, ctx):
        return fn.cfg is not None and fn.key in self.reach and fn.key not in self.ad and ctx.depth < 25

    def on_node(self, st, n, ctx):
        hit = None
        if n.k in CALLS and n.f in self.ad:
            hit = n
        elif n.k == 'CXXMemberCallExpr' and n.obj is not None and strip_casts(n.obj).n == 'document_objects' and \
                n.n in ('push_back', 'emplace_back') and ctx.fn.key not in self.ad:
            hit = n
        if hit is not None:
            self.nodes[hit.id] = hit
            s = (st + ((hit.fn.key, hit.id),))
            return [s[:3] if self.first else s[-1:]]
        return None
    nodes = {}


def reach_adders(facts, ad):
    rv = {}
    for f in repo_fns(facts):
        for g in direct_callees(facts, f):
            rv.setdefault(g.key, set()).add(f.key)
    seen = set(ad)
    for f in repo_fns(facts):
        if any(n.k == 'CXXMemberCallExpr' and n.obj is not None and strip_casts(n.obj).n == 'document_objects' and
               n.n in ('push_back', 'emplace_back') for n in all_nodes(f)):
            seen.add(f.key)
    st = list(seen)
    while st:
        for k in rv.get(st.pop(), ()):
            if k not in seen:
                seen.add(k)
                st.append(k)
    return seen


def dict_type(facts, node):
    """literal /Type value of the dictionary handed to an adder call, and the function that built it"""
    from .. import fmtmodel
    m = fmtmodel.build(facts)
    var = None
    for x in node.walk():
        if x.k == 'CXXMemberCallExpr' and x.n == 'steal' and x.obj is not None:
            p = path(x.obj)
            var = pstr(p) if p else None
    keys = {}
    for e in m.evs:
        if e.fn is node.fn and e.kind == 'value' and e.stack and len(e.stack) == 1 and e.key == var:
            pass
    return var


def has_key(facts, node, key, value=None):
    """does the dictionary passed by this call contain key (at its top level), with that literal value?"""
    var = None
    for x in node.walk():
        if x.k == 'CXXMemberCallExpr' and x.n == 'steal' and x.obj is not None and path(x.obj):
            var = path(x.obj)
    if var is None:
        return False
    from ..util import lit_str
    for n in all_nodes(node.fn):
        if n.k == 'CXXMemberCallExpr' and n.obj is not None and path(n.obj) == var and n.c:
            if n.n in ('add_token_pair', 'add_token') and lit_str(n.c[0]) == key:
                if value is None or (n.n == 'add_token_pair' and lit_str(n.c[1]) == value):
                    return True
    return False


def catalog_last(facts, r):
    ad = adds(facts)
    if not ad:
        raise AnalysisBroken('the function registering objects was not found')
    reach = reach_adders(facts, ad)
    entry = find_entry(facts)
    cl = LastAdd(facts, ad, reach)
    ex = Explorer(facts, cl)
    res = ex.run(entry, ())
    lasts = {s for k, s in res if k in (OK, ANY)}
    bad = False
    # (fn, id) -> node
    for s in lasts:
        if not s:
            r.bad('last', entry.loc, entry, 'no catalog', 'a save can succeed without registering the catalog')
            continue
        f = facts.fns[s[0][0]]
        n = [x for x in all_nodes(f) if x.id == s[0][1]][0]
        if has_key(facts, n, '/Type', '/Catalog'):
            r.ok('last', '%s: the catalog is registered last' % n.loc, f)
        else:
            r.bad('last', n.loc, f, 'not last', 'an object is registered after the catalog, which the trailer takes to be the last object')
    # nothing is registered once the objects are being written: the last registration precedes the walk
    ini = [f for f in repo_fns(facts) if f.cls and f.cls.endswith('PdfDocument') and any(
        n.k in CTORS and 'DummyIndexZero' in (n.t or '') or n.k == 'InitListExpr' and 'DummyIndexZero' in (n.t or '') for n in all_nodes(f)) and
        any(n.k == 'CXXMemberCallExpr' and n.n in ('push_back', 'emplace_back') and strip_casts(n.obj).n == 'document_objects' for n in all_nodes(f))]
    if len(ini) != 1:
        r.bad('last', entry.loc, entry, 'index 0', 'the reserved object 0 is created in %d places' % len(ini))
        return
    cl = LastAdd(facts, ad, reach, first=True)
    ex = Explorer(facts, cl)
    res = ex.run(ini[0], ())
    for s in {s[:2] for k, s in res if k in (OK, ANY)}:
        nodes = []
        for fk, i in s:
            nodes.append([x for x in all_nodes(facts.fns[fk]) if x.id == i][0])
        if not nodes or added_type(nodes[0].c[0] if nodes[0].c else None) != 'DummyIndexZero':
            r.bad('last', ini[0].loc, ini[0], 'first', 'the first object registered is not the reserved object 0')
        elif len(nodes) < 2 or not has_key(facts, nodes[1], '/Producer') or has_key(facts, nodes[1], '/Type'):
            n = nodes[1] if len(nodes) > 1 else nodes[0]
            r.bad('last', n.loc, n.fn, 'info', 'object 1 is not the Info dictionary')
        else:
            r.ok('last', '%s: object 1 is the Info dictionary' % nodes[1].loc, nodes[1].fn)
    ctor = [f for f in repo_fns(facts) if any(n.k in CALLS and n.f == ini[0].key for n in all_nodes(f))]
    for f in ctor:
        early = [n for n in all_nodes(f) if n.k in CALLS and n.f != ini[0].key and facts.fns.get(n.f) is not None and facts.fns[n.f].key in reach]
        if early:
            r.bad('last', early[0].loc, f, 'before init', 'objects may be registered before the reserved object 0')


def append_only(facts, r):
    for f in repo_fns(facts):
        for n in all_nodes(f):
            if n.k == 'MemberExpr' and n.n == 'document_objects' and n.dk == 'field':
                p = n.parent
                while p is not None and p.k in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr', 'CXXStaticCastExpr'):
                    p = p.parent
                if p is None:
                    continue
                if p.k == 'CXXMemberCallExpr' and p.obj is not None and strip_casts(p.obj) is n:
                    if p.n in ('push_back', 'emplace_back'):
                        r.ok('append', '%s %s' % (p.loc, p.n), f)
                    elif p.n in ('insert', 'emplace', 'erase', 'pop_back', 'clear', 'resize', 'swap', 'assign', 'operator='):
                        r.bad('append', p.loc, f, p.n, 'the object list is changed by %s: numbers handed out before no longer fit' % p.n)
                elif p.k == 'CXXOperatorCallExpr' and p.op == '=' and strip_casts(p.c[0]) is n:
                    r.bad('append', p.loc, f, 'assignment', 'the object list is replaced')
                elif p.k in CALLS and p.k != 'CXXOperatorCallExpr' and n in [strip_casts(a) for a in p.c if a is not None]:
                    g = callee(facts, p)
                    i = [strip_casts(a) if a is not None else None for a in p.c].index(n)
                    if g is not None and i < len(g.params) and g.params[i]['t'].endswith('&') and 'const ' not in g.params[i]['t']:
                        r.bad('append', p.loc, f, 'passed', 'the object list is passed on for modification')
                    elif (p.q or '').startswith('std::') and p.n in ('swap', 'erase', 'erase_if', 'sort', 'reverse', 'rotate', 'remove'):
                        r.bad('append', p.loc, f, p.n, 'the object list is changed by std::%s' % p.n)
