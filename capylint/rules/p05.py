"""P05: text from the caller is quoted before it becomes PDF syntax."""
from ..facts import CALLS, CTORS, rel
from ..util import all_nodes, callee, api_roots, strip_casts
from ..taint import Taint
from .. import charflow

META = {
    'title': 'Caller text cannot break out of the PDF token it is written into',
    'statement': 'Every text a caller supplies (names, titles, tags, keys, values, language codes, file names and types, font '
                 'names read from font files) is fully quoted for its context (literal string, name, hex string or XML content) '
                 'before it becomes part of an object dictionary, a content stream or the metadata XML, and unquoting '
                 'gives back the very same text. Every one of the 256 byte values is covered, so no text can end '
                 'its token early, change the object it is in or be read back as something else.',
    'over': ['inputs'],
    'qtext': 'every text parameter of the C API and every byte value in it, over every path to a writer call',
    'why': 'Tests use a few texts; only full coverage of byte values and of the paths from entry points to writers shows '
           'that none is pasted unquoted.',
    'files': ['src/utils.cpp', 'src/objectformatter.cpp', 'src/commandstreamformatter.cpp', 'src/xmlformatter.cpp',
              'src/document.cpp', 'src/drawcontext.cpp', 'src/pdfwriter.cpp'],
    'mechanism': [('pdfstring_quote, bytes2pdfstringliteral, u8str2u8textstring, u8str2filespec, quote_xml_*', 'src/utils.cpp'),
                  ('add_token(PdfName), add_pdfstring, add_bytestring', 'src/objectformatter.cpp'),
                  ('append_dict_entry_string', 'src/commandstreamformatter.cpp')],
    'technique': 'interprocedural taint from API text parameters to raw formatter inputs, with quoting functions recognised by '
                 'a per-byte value-set dataflow over all 256 values',
    'level_note': 'Field-based flow-insensitive taint over all resolved calls; quoters are recognised by what they emit for each '
                  'byte, not by name. UTF-16BE hex strings are emitted from integers and so cannot carry text; whether the '
                  'UTF-16 code units are the right ones is not decided here. Calculator function code and whole-file contents '
                  'are raw by contract.',
}

FMT = {'capypdf::internal::ObjectFormatter', 'capypdf::internal::CommandStreamFormatter', 'capypdf::internal::XMLFormatter'}
XML = 'capypdf::internal::XMLFormatter'
PATHS = ('filename', 'fname', 'path', 'profile_path')
DICTFIELDS = {('capypdf::internal::FullPDFObject', 'dictionary')}


def seeds(facts):
    out = []
    for fn in api_roots(facts):
        for i, p in enumerate(fn.params):
            if p['t'] not in ('const char *',):
                continue
            nx = fn.params[i + 1] if i + 1 < len(fn.params) else None
            if p['n'] in PATHS or nx is not None and 'long' in nx['t']:
                continue
            if fn.n in ('capy_embedded_file_set_contents',):
                continue
            out.append(('v', fn.tu, p['v']))
    return out


def formatter_raw_params(facts, quoters):
    """formatter-method parameters whose text reaches the output buffer unquoted"""
    t = Taint(facts, quoters)
    bufs = set()
    for c in FMT:
        for f in facts.records.get(c, {}).get('fields', ()):
            if f['t'] == 'std::basic_string<char>' and f['n'] not in ('lead', 'indent'):
                bufs.add(('f', c, f['n']))
    raw = set()
    n = 0
    for f in t.fns:
        if f.cls in FMT and not f.ctor:
            if f.key in quoters:
                continue
            for i, p in enumerate(f.params):
                if not t.carries(p['t']):
                    continue
                n += 1
                seen = t.spread([('v', f.tu, p['v'])])
                if any(k in bufs for k in seen):
                    raw.add((f.key, i))
    return raw, n


def run(facts, r):
    r.rule('quoter', 'a function that copies text byte by byte and is used to make tokens emits well-formed, decodable output for '
           'all 256 byte values', 0)
    r.rule('sink', 'no caller text reaches a raw formatter input without passing a quoting function of the right kind', 150)
    r.rule('dict', 'no caller text reaches an object dictionary except through a formatter', 1)
    q = {'lit': set(), 'name': set(), 'xml': set()}
    why = {}
    cand = [f for f in facts.fns.values() if rel(f.file).startswith('src/') and charflow.candidate(f)]
    for f in sorted(cand, key=lambda f: (f.file, f.l)):
        res = charflow.analyse(facts, f)
        good = [k for i in res for k in res[i] if res[i][k] is None]
        for k in good:
            q[k].add(f.key)
        if good:
            r.ok('quoter', '%s %s is a %s quoter for all 256 byte values' % (f.loc, f.n, '/'.join(sorted(set(good)))), f)
        elif res:
            w = next(iter(res.values()))
            why[f.key] = '%s %s' % (f.n, '; '.join('as %s: %s' % kv for kv in sorted(w.items())))
    pdfq = q['lit'] | q['name']
    check(facts, r, pdfq, FMT - {XML}, why, 'PDF syntax')
    r.rule('slash', 'a quoted name is written with exactly one leading slash', 0)
    slashes(facts, r, q['name'])
    check(facts, r, q['xml'], {XML}, why, 'XML')
    if not q['lit'] or not q['name'] or not q['xml']:
        r.count('kinds of quoter missing', 1)


def check(facts, r, quoters, classes, why, what):
    raw, n = formatter_raw_params(facts, quoters)
    t = Taint(facts, quoters, FMT)
    seen = t.spread(seeds(facts) + [('ext', 'FT_Get_Postscript_Name')])
    r.count('formatter text parameters (%s)' % what, n)
    r.count('tainted locations (%s)' % what, len(seen))
    for f in t.fns:
        if f.cls in FMT:
            continue
        for x in all_nodes(f):
            if x.k not in CALLS and x.k not in CTORS:
                continue
            g = callee(facts, x)
            if g is None or g.cls not in classes:
                continue
            args = x.c
            for i, a in enumerate(args):
                if a is None or i >= len(g.params) or not t.carries(g.params[i]['t']):
                    continue
                if (g.key, i) not in raw:
                    r.ok('sink', '%s %s(%s): quoted inside' % (x.loc, g.n, g.params[i]['n']), f)
                    continue
                hit = sorted((d for d in t.deps(f, a) if d in seen), key=str)
                if hit:
                    chain = t.why(seen, hit[0])
                    extra = [w for k, w in why.items() if any(k == y[1] for y in path_keys(t, seen, hit[0]))]
                    r.bad('sink', x.loc, f, '%s(%s)' % (g.n, g.params[i]['n']),
                          'caller text becomes %s without quoting: %s%s' % (what, chain,
                                                                             ' [' + '; '.join(extra) + ']' if extra else ''))
                else:
                    r.ok('sink', '%s %s(%s): no caller text' % (x.loc, g.n, g.params[i]['n']), f)
    if 'XML' == what:
        return
    for k in DICTFIELDS:
        key = ('f',) + k
        rec = facts.records.get(k[0])
        if rec is None or not any(fl['n'] == k[1] for fl in rec['fields']):
            continue
        if key in seen:
            r.bad('dict', k[0], k[0], k[1], 'caller text is pasted into an object dictionary: ' + t.why(seen, key))
        else:
            r.ok('dict', '%s.%s receives formatter output only' % k)


def path_keys(t, seen, key):
    out = []
    n = 0
    while key is not None and n < 200:
        if key[0] == 'r':
            out.append(key)
        key = seen.get(key)
        n += 1
    return out


def leading(facts, g, env):
    """does this name quoter start its result with a slash? (None: unknown)"""
    p = next(p for p in g.params if charflow.text_type(p['t']))
    env = dict(env)
    env[p['v']] = ('I',)
    try:
        res = charflow.Interp(facts).run(g, env, None)
    except charflow.TooHard:
        return None
    pres = {x for x in res['pre']}
    if not res['pre']:
        return False
    if all(x and x[0] == ord('/') for x in pres):
        return True
    return None


def adds_slash(facts, g, i):
    """formatter methods that write a slash in front of this parameter"""
    for n in all_nodes(g):
        if n.k == 'CallExpr' and n.n == 'format_to' and len(n.c) >= 3:
            from ..util import lit_str
            f = lit_str(n.c[1])
            x = strip_casts(n.c[2])
            if f is not None and f.startswith('/{}') and x is not None and x.k == 'DeclRefExpr' and x.v == g.params[i]['v']:
                return True
    return False


def slashes(facts, r, namers):
    """name-quoter calls handed (directly or through one local) to a formatter"""
    thin = {}
    for f in facts.fns.values():
        if not rel(f.file).startswith('src/') or f.dep:
            continue
        # functions that only return a quoter's result
        if f.body is not None and len([x for x in f.body.c if x is not None]) == 1 and f.body.c[0].k == 'ReturnStmt' and f.body.c[0].c:
            c = strip_casts(f.body.c[0].c[0])
            while c is not None and c.k in CTORS and len(c.c) == 1:
                c = strip_casts(c.c[0])
            if c is not None and c.k in CALLS and c.f in namers:
                thin[f.key] = c

    def slash_of(call):
        if call.f in thin:
            return slash_of(thin[call.f])
        g = facts.fns[call.f]
        env = {}
        for p, a in zip(g.params, call.c):
            x = a
            if x is not None and x.k == 'CXXDefaultArgExpr' and x.c:
                x = x.c[0]
            v = charflow.Interp(facts).num(x, {}, None) if x is not None else None
            if v is not None:
                env[p['v']] = ('N', v)
        return leading(facts, g, env)
    allq = namers | set(thin)
    for f in facts.fns.values():
        if not rel(f.file).startswith('src/') or f.dep or f.cls == XML:
            continue
        local = {}
        for n in all_nodes(f):
            if n.k == 'DeclStmt':
                for d in n.a.get('d', ()):
                    c = core(d.get('i'))
                    if c is not None and c.k in CALLS and c.f in allq:
                        local[d['v']] = c
        for n in all_nodes(f):
            g = callee(facts, n) if n.k in CALLS else None
            if g is None or g.cls not in FMT:
                continue
            for i, a in enumerate(n.c):
                c = core(a)
                if c is not None and c.k == 'DeclRefExpr' and c.v in local:
                    c = local[c.v]
                if c is None or c.k not in CALLS or c.f not in allq or i >= len(g.params):
                    continue
                has = slash_of(c)
                if has is None:
                    continue
                pre = adds_slash(facts, g, i)
                if has and pre:
                    r.bad('slash', n.loc, f, '%s(%s)' % (g.n, g.params[i]['n']), 'the name gets two leading slashes')
                elif not has and not pre and not appended(f, n, g):
                    r.bad('slash', n.loc, f, '%s(%s)' % (g.n, g.params[i]['n']), 'the name is written without its leading slash')
                else:
                    r.ok('slash', '%s %s' % (n.loc, g.n), f)


def appended(f, n, g):
    """raw appends may follow a slash written by the statement before"""
    return g.n == 'append_raw'


def core(n):
    n = strip_casts(n)
    while n is not None and (n.k in CTORS and len(n.c) == 1 or n.k == 'CXXMemberCallExpr' and n.n and
                             (n.n.startswith('operator ') or n.n in ('c_str', 'sv', 'data')) and n.obj is not None):
        n = strip_casts(n.c[0] if n.k in CTORS else n.obj)
    return n
