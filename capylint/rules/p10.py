"""P10: every indirect reference names the object it is meant for."""
from ..facts import CALLS, CTORS, rel
from ..util import strip_casts, all_nodes, callee, repo_fns
from .. import fmtmodel, origins, objkinds
from ..origins import DOC, OBJS, clean

META = {
    'title': 'Every indirect reference in the file points at the object it is meant for',
    'statement': 'Whenever the library writes an indirect reference, the number is that of an object of the kind the key calls for '
                 '(a /Parent a parent, /Function a function, a font resource a font, /Annots annotations, and so on), taken from the '
                 'handle the caller put into the matching attribute, and object numbers are always written as references, never as '
                 'bare numbers. Numbers that are predicted before the object exists (outline items, sub-page navigation nodes, the CID '
                 'dictionary of a subset font) are those the objects then get: sibling, first/last and parent links go to the right '
                 'neighbour for every number of items.',
    'over': ['inputs', 'histories'],
    'qtext': 'every document, any number and order of objects',
    'why': 'A wrong number still yields a file that parses: the viewer silently shows the wrong or no font, form, page or outline '
           'entry. Tests compare one or two renderings, with few objects whose numbers tend to coincide.',
    'files': ['src/document.cpp', 'src/pdfwriter.cpp', 'src/drawcontext.cpp', 'src/objectformatter.cpp', 'src/document.hpp'],
    'mechanism': [('PdfDocument::add_object and the handle tables', 'src/document.cpp'), ('ObjectFormatter::add_object_ref callers', 'src/pdfwriter.cpp'),
                  ('create_outlines / create_subnavigation number prediction', 'src/document.cpp'),
                  ('build_resource_dict', 'src/drawcontext.cpp')],
    'technique': 'interprocedural origin (provenance) analysis of every object number written, against the kind of object appended at its '
                 'origin; symbolic counting of appended objects for predicted numbers',
    'level_note': 'Flow-insensitive, field-based origins: it decides which table and which handle attribute a number comes from, not '
                  'which element of the table among several. A number whose origin is not understood is counted, not judged.',
}

IN = 'capypdf::internal::'


def T(*keys):
    """a dictionary having the given /Key or /Key=/Value entries"""
    want = [k.split('=') for k in keys]
    return lambda k: all(k.has(w[0], *w[1].split('|')) if len(w) > 1 else k.has(w[0]) for w in want)


def R(*recs):
    return lambda k: k.rec in recs


def AR(*names):
    return lambda k: any(n in k.items for n in names)


def ANY(*ps):
    return lambda k: any(p(k) for p in ps)


def STREAM(k):
    return k.stream


FORM = T('/Subtype=/Form')
IMAGE = T('/Subtype=/Image')
FONT = ANY(R('DelayedSubsetFont'), T('/Type=/Font'))
OCG = T('/Type=/OCG')
FUNC = T('/FunctionType')

# (key path, owner predicate or None, what it must be, predicate, required source attribute)
SINKS = [
    (['/Pages'], None, 'the page tree root', R('DelayedPages'), None),
    (['/Outlines'], None, 'the outline root', T('/Type=/Outlines'), None),
    (['/Names'], None, 'the name dictionary', T('/EmbeddedFiles'), None),
    (['/AF'], None, 'the array of associated files', lambda k: k.array, None),
    (['A'], lambda k: '/Separation' in k.items, 'a function', FUNC, None),
    (['/StructTreeRoot'], None, 'the structure tree root', T('/Type=/StructTreeRoot'), None),
    (['/ParentTree'], None, 'the parent number tree', T('/Nums'), None),
    (['/OutputIntents', 'A'], None, 'an output intent', T('/Type=/OutputIntent'), None),
    (['/AcroForm', '/Fields', 'A'], None, 'a form field', R('DelayedFormField'), None),
    (['/OCProperties', '/OCGs', 'A'], None, 'an optional content group', OCG, None),
    (['/Metadata'], None, 'the metadata stream', T('/Type=/Metadata'), None),
    (['/DestOutputProfile'], None, 'the ICC profile stream', lambda k: k.stream and k.has('/N'), (DOC, 'output_profile')),
    (['/Dest', 'A'], None, 'a page', R('DelayedPage'), (IN + 'Destination', 'page')),
    (['/EmbeddedFiles', '/Names', 'A'], None, 'a file specification', T('/Type=/Filespec'), None),
    (['A', '/EF', '/F'], None, 'an embedded file stream', T('/Type=/EmbeddedFile'), None),
    (['A', '/EF', '/UF'], None, 'an embedded file stream', T('/Type=/EmbeddedFile'), None),
    (['/EF', '/F'], None, 'an embedded file stream', T('/Type=/EmbeddedFile'), None),
    (['/EF', '/UF'], None, 'an embedded file stream', T('/Type=/EmbeddedFile'), None),
    (['/Nums', 'A', 'A'], None, 'a structure element', R('DelayedStructItem'), (DOC, 'structure_parent_tree_items')),
    (['/Nums', 'A'], None, 'a structure element', R('DelayedStructItem'), (DOC, 'structure_parent_tree_items')),
    (['/K', 'A'], None, 'a structure element', R('DelayedStructItem'), None),
    (['/ColorSpace'], T('/Subtype=/Image'), 'an ICC colour space', AR('/ICCBased'), None),
    (['/ColorSpace'], T('/ShadingType'), 'a colour space', AR('/ICCBased', '/Separation', '/Lab'), None),
    (['/SMask'], T('/Subtype=/Image'), 'an image', IMAGE, None),
    (['/SMask'], T('/Type=/ExtGState'), 'a soft mask', T('/Type=/Mask'), (IN + 'GraphicsState', 'SMask')),
    (['/G'], T('/Type=/Mask'), 'a transparency group', FORM, (IN + 'SoftMask', 'G')),
    (['/Functions', 'A'], None, 'a function', FUNC, (IN + 'FunctionType3', 'functions')),
    (['/Function'], T('/ShadingType=2'), 'a function', FUNC, (IN + 'ShadingType2', 'function')),
    (['/Function'], T('/ShadingType=3'), 'a function', FUNC, (IN + 'ShadingType3', 'function')),
    (['/Function'], None, 'a function', FUNC, None),
    (['/Shading'], T('/PatternType'), 'a shading', T('/ShadingType'), (IN + 'ShadingPattern', 'sid')),
    (['/State', 'A'], None, 'an optional content group', OCG, (IN + 'SubPageNavigation', 'id')),
    (['/XObject', '/Image*'], None, 'an image', IMAGE, (IN + 'PdfDrawContext', 'used_images')),
    (['/XObject', '/FXO*'], None, 'a form XObject', FORM, (IN + 'PdfDrawContext', 'used_form_xobjects')),
    (['/XObject', '/TG*'], None, 'a transparency group', FORM, (IN + 'PdfDrawContext', 'used_trgroups')),
    (['/Font', '/Font*'], None, 'a font', FONT, (IN + 'PdfDrawContext', 'used_builtin_fonts')),
    (['/Font', '/SFont*'], None, 'a font', FONT, (IN + 'PdfDrawContext', 'used_external_fonts')),
    (['/ColorSpace', '/All'], None, 'a separation', AR('/Separation'), None),
    (['/ColorSpace', '/CSpace*'], None, 'a colour space', AR('/ICCBased', '/Separation', '/Lab'), (IN + 'PdfDrawContext', 'used_colorspaces')),
    (['/ExtGState', '/GS*'], None, 'a graphics state', T('/Type=/ExtGState'), (IN + 'PdfDrawContext', 'used_gstates')),
    (['/Shading', '/SH*'], None, 'a shading', T('/ShadingType'), (IN + 'PdfDrawContext', 'used_shadings')),
    (['/Pattern', '/Pattern-*'], None, 'a pattern', ANY(T('/PatternType'), lambda k: k.stream), (IN + 'PdfDrawContext', 'used_patterns')),
    (['/Properties', '/oc*'], None, 'an optional content group', OCG, (IN + 'PdfDrawContext', 'used_ocgs')),
    (['/DescendantFonts', 'A'], None, 'the CID font dictionary', R('DelayedCIDDictionary'), None),
    (['/ToUnicode'], None, 'the ToUnicode CMap', R('DelayedSubsetCMap'), None),
    (['/FontDescriptor'], None, 'the font descriptor', R('DelayedSubsetFontDescriptor'), None),
    (['/FontFile3'], None, 'the font program', R('DelayedSubsetFontData'), None),
    (['/FontFile2'], None, 'the font program', R('DelayedSubsetFontData'), None),
    (['/FontFile'], None, 'the font program', R('DelayedSubsetFontData'), None),
    (['/Kids', 'A'], T('/Type=/Pages'), 'a page', R('DelayedPage'), None),
    (['/Kids', 'A'], None, 'a form field or widget', R('DelayedFormField', 'DelayedAnnotation'), None),
    (['/Parent'], T('/Type=/Page'), 'the page tree root', R('DelayedPages'), None),
    (['/Parent'], T('/Subtype'), 'a form field', R('DelayedFormField'), (IN + 'WidgetAnnotation', 'parent')),
    (['/Parent'], T('/FT'), 'a form field', R('DelayedFormField'), (IN + 'FormField', 'parent')),
    (['/Contents'], T('/Type=/Page'), 'the page content stream', lambda k: k.stream and not k.keys, (IN + 'PageOffsets', 'commands_obj_num')),
    (['/Resources'], T('/Type=/Page'), 'the page resources', lambda k: not k.stream and not k.rec and '/Type' not in k.keys,
     (IN + 'PageOffsets', 'resource_obj_num')),
    (['/Annots', 'A'], None, 'an annotation', R('DelayedAnnotation'), (IN + 'DelayedPage', 'used_annotations')),
    (['/PresSteps'], None, 'a navigation node', T('/Type=/NavNode'), None),
    (['/P'], T('/Type=/Annot'), 'a page', R('DelayedPage'), None),
    (['/P'], T('/Type=/StructElem'), 'the parent structure element', ANY(R('DelayedStructItem'), T('/Type=/StructTreeRoot')), (IN + 'StructItem', 'parent')),
    (['/Pg'], None, 'a page', R('DelayedPage'), None),
    (['/FS'], None, 'a file specification', T('/Type=/Filespec'), (IN + 'FileAttachmentAnnotation', 'fileid')),
    (['/A', '/AN'], None, 'the annotation', R('DelayedAnnotation'), None),
    (['/A', '/R', '/C', '/D'], None, 'a file specification', T('/Type=/Filespec'), (IN + 'ScreenAnnotation', 'mediafile')),
    (['/A', '/R', '/C', '/D', '/D'], None, 'a file specification', T('/Type=/Filespec'), (IN + 'ScreenAnnotation', 'mediafile')),
    (['/3DD'], None, 'a 3D stream', T('/Type=/3D'), (IN + 'ThreeDAnnotation', 'stream')),
    (['/AP', '/N'], None, 'a form XObject', FORM, (IN + 'PrintersMarkAnnotation', 'appearance')),
    (['/AP', '/N', '/Off'], None, 'a form XObject', FORM, (IN + 'ButtonStateInfo', 'off_state')),
    (['/AP', '/N', '/*'], None, 'a form XObject', FORM, (IN + 'ButtonStateInfo', 'on_state')),
]
OUTLINE = {'/Next', '/Prev', '/First', '/Last', '/Parent'}


def star(s):
    s = s.replace('\0', '*')
    return s


def match(chain, spec):
    if len(chain) < len(spec):
        return False
    if len(chain) > len(spec) and spec[0] == 'A':
        return False
    for a, b in zip(chain[len(chain) - len(spec):], spec):
        if b.endswith('*'):
            if b == '/*':
                if a != '/*':
                    return False
            elif a != b:
                return False
        elif a != b:
            return False
    return True


class Sink:
    def __init__(self, e, chain, owner, site):
        self.e, self.fn, self.node, self.arg = e, e.fn, e.node, e.arg
        self.chain, self.owner, self.site = chain, owner, site


def sinks(facts, K):
    """(resolved, unresolved) add_object_ref calls with the key path they are written at"""
    m = K.m
    out, odd = {}, {}
    for e in m.evs:
        if e.kind != 'value' or e.node.n != 'add_object_ref':
            continue
        chain = []
        for fr in e.stack:
            if fr[0] == 'A':
                chain.append('A')
            elif fr[2] is not None:
                ks = {star(x) for x in K.keytext(fr[2])}
                chain.append(ks.pop() if len(ks) == 1 else None)
        site = e.stack[0][1] if e.stack else None
        id = (e.fn.key, e.node.id, tuple(chain), site)
        if None in chain or not chain:
            odd[id] = e
        else:
            own = objkinds.Kind()
            if site in m.sites:
                own.keys = K.top.get(site, {})
                own.items = K.items.get(site, set())
            out.setdefault(id, Sink(e, tuple(chain), own, site))
    return list(out.values()), list(odd.values())


def run(facts, r):
    r.rule('target', 'the object number written under a key comes from the place where an object of the kind the key calls for was added', 40)
    r.rule('source', 'the number is looked up through the attribute the caller set for that entry', 30)
    r.rule('predicted', 'a number computed before its object exists is the number the object then gets, and links the right neighbour', 5)
    r.rule('bare', 'an object number is written only through add_object_ref', 34)
    r.rule('index', 'an entry of a document table is selected by the handle or loop index itself, without arithmetic', 30)
    r.rule('structparents', '/StructParents is the position of the entry in the parent tree', 1)
    K = objkinds.build(facts)
    o = K.o
    ss, odd = sinks(facts, K)
    r.count('references written', len(ss))
    r.count('references whose key is not fixed text (not judged)', len(odd))
    cnt = Counter(facts, K)
    handle_fields = {(q, f['n']) for q, rec in facts.records.items() for f in rec['fields'] if 'CapyPDF_' in f['t'] and 'Id' in f['t']}
    fields = {(q, f['n']) for q, rec in facts.records.items() for f in rec['fields']}
    done = set()
    for s in sorted(ss, key=lambda s: (s.fn.file, s.node.l, s.chain)):
        name = ' '.join(s.chain)
        if s.owner.has('/Size') or s.owner.has('/ID'):
            continue            # file trailer: P08
        vals = o.values(s.fn, s.arg)
        if s.owner.has('/Type', '/NavNode') and s.chain in (('/Next',), ('/Prev',)):
            navnode(r, K, cnt, s, name)
            continue
        if s.chain[0] in OUTLINE and len(s.chain) == 1 and (s.owner.has('/Title') or s.owner.has('/Type', '/Outlines')):
            outline(r, K, cnt, s, name)
            continue
        specs = [x for x in SINKS if match(s.chain, x[0])]
        n = max((len(x[0]) for x in specs), default=0)
        specs = [x for x in specs if len(x[0]) == n]
        spec = next((x for x in specs if x[1] is not None and x[1](s.owner)), None) or next((x for x in specs if x[1] is None), None)
        if spec is None:
            r.count('references at keys without a rule (not judged)')
            continue
        _, _, what, pred, attr = spec
        good, bad, unknown = [], [], 0
        for v in vals:
            if v[0] == 'obj':
                ks = K.kind(v[1])
                (good if any(k.known and pred(k) for k in ks) else bad if any(k.known for k in ks) else good).append(v)
            elif v[0] == 'next':
                a = after(o, v[1])
                if a is None:
                    unknown += 1
                else:
                    ks = K.kind(a)
                    (good if any(k.known and pred(k) for k in ks) else bad).append(('obj', a))
            elif v[0] == 'self':
                k = objkinds.Kind()
                k.rec = v[1].rsplit('::', 1)[-1]
                (good if pred(k) else bad).append(v)
            elif v[0] == 'arith':
                a = offset(o, s, v, K, facts)
                if a is None:
                    unknown += 1
                elif a is False:
                    bad.append(v)
                else:
                    ks = K.kind(a)
                    (good if any(pred(k) for k in ks) else bad).append(('obj', a))
            elif v[0] == 'idx':
                bad.append(v)
            elif v[0] == 'c':
                if v[1] is not None and v[1] >= 0:
                    bad.append(v)
            else:
                unknown += 1
        helper = depends_on_shared_param(o, s)
        if bad and helper and good:
            bad = []
        if bad:
            r.bad('target', s.node.loc, s.fn, name, '%s must be %s; here it is %s' % (
                name, what, ' or '.join(sorted({show(facts, K, v) for v in bad}))))
        elif good:
            if (s.fn.key, s.node.id, name) not in done:
                done.add((s.fn.key, s.node.id, name))
                r.ok('target', '%s %s is %s (%d origins)' % (s.node.loc, name, what, len(good)), s.fn)
        else:
            r.count('references of unresolved origin (not judged)')
        if attr is not None and attr in fields:
            sl = o.slice(s.fn, s.arg)
            if attr in sl:
                r.ok('source', '%s %s through %s.%s' % (s.node.loc, name, attr[0].split('::')[-1], attr[1]), s.fn)
            else:
                alt = sorted('%s.%s' % (a.split('::')[-1], b) for a, b in sl & (handle_fields | {x for x in fields if x[0] == attr[0]}))
                if alt:
                    r.bad('source', s.node.loc, s.fn, name, '%s is looked up through %s, not through %s.%s' % (
                        name, ', '.join(alt), attr[0].split('::')[-1], attr[1]))
                else:
                    r.count('references of unknown source attribute (not judged)')
    bare(facts, r, K)
    index(facts, r, K)
    structparents(facts, r, K)


def show(facts, K, v):
    if v[0] == 'obj':
        f, c, p = K.o.addsites[v[1]]
        return 'the object added at %s (%s)' % (c.loc, ' | '.join(sorted({k.describe()[:70] for k in K.kind(v[1])})))
    if v[0] == 'arith':
        return 'a computed number (%s)' % facts.fns[v[1][0]].nodes[v[1][1]].loc
    if v[0] == 'self':
        return 'the number of the %s itself' % v[1].rsplit('::', 1)[-1]
    if v[0] == 'idx':
        return 'a position in %s' % (v[1][-1],)
    if v[0] == 'c':
        return 'the constant %s' % v[1]
    return str(v[0])


def depends_on_shared_param(o, s):
    """the number is handed to a helper that several callers use: origins of different callers cannot be told apart"""
    for n in s.arg.walk():
        if n.k == 'DeclRefExpr' and n.v is not None and ('v', s.fn.tu, n.v) in o.params:
            g, i = o.params[('v', s.fn.tu, n.v)]
            if len(o.sites.get(g.key, ())) > 1:
                return True
    return False


def after(o, key):
    """the object appended next after document_objects.size() is read, in the same function"""
    fn = o.facts.fns.get(key[0])
    n = fn.nodes.get(key[1]) if fn is not None else None
    x = n
    while x is not None and x.parent is not None:
        p = x.parent
        if p.k == 'CompoundStmt':
            i = next((j for j, c in enumerate(p.c) if c is x), None)
            for s in p.c[i + 1:] if i is not None else []:
                if s is None:
                    continue
                hit = [y for y in s.walk() if (fn.key, y.id) in o.addsites]
                if hit:
                    plain = s.k in ('CompoundStmt', 'DeclStmt', 'ReturnStmt') or s.k in CALLS or s.k in CTORS or s.k == 'BinaryOperator' or s.k == 'ExprWithCleanups'
                    return (fn.key, hit[0].id) if plain else None
                if any(y.k in CALLS and callee(o.facts, y) is not None and o.adds(callee(o.facts, y)) for y in s.walk()):
                    return None
        elif p.k in ('ForStmt', 'WhileStmt', 'CXXForRangeStmt', 'DoStmt', 'LambdaExpr'):
            return None
        x = p
    return None


def offset(o, s, v, K, facts):
    """own number + 1 inside the writer of a delayed record: the object appended right after that record.
    returns an add site, None when not understood, False when it is certainly not an object of that batch"""
    f = facts.fns[v[1][0]]
    n = f.nodes[v[1][1]]
    if n.k != 'BinaryOperator' or n.op not in ('+', '-'):
        return None
    a, b = strip_casts(n.c[0]), strip_casts(n.c[1])
    if a is not None and a.cvi() is not None and n.op == '+':
        a, b = b, a
    if a is None or b is None or b.cvi() is None:
        return None
    base = o.values(f, a)
    recs = {x[1] for x in base if x[0] == 'self'}
    if len(recs) != 1 or len(base) != 1:
        return None
    k = b.cvi() if n.op == '+' else -b.cvi()
    rec = recs.pop().rsplit('::', 1)[-1]
    cand = set()
    for key in o.addsites:
        if any(x.rec == rec for x in K.kind(key)):
            seq = order(o, key)
            i = seq.index(key) if key in seq else None
            if i is None or not 0 <= i + k < len(seq):
                return False
            cand.add(seq[i + k])
    return cand.pop() if len(cand) == 1 else None


def order(o, key):
    """the straight-line sequence of object appends around an add site (same block)"""
    fn = o.facts.fns[key[0]]
    n = fn.nodes[key[1]]
    x = n
    while x.parent is not None and x.parent.k != 'CompoundStmt':
        x = x.parent
    out = []
    for s in x.parent.c if x.parent is not None else ():
        if s is None:
            continue
        hit = [y for y in s.walk() if (fn.key, y.id) in o.addsites]
        simple = s.k not in ('IfStmt', 'ForStmt', 'WhileStmt', 'CXXForRangeStmt', 'SwitchStmt', 'DoStmt')
        for y in hit:
            out.append((fn.key, y.id) if simple else None)
        if not hit and any(y.k in CALLS and callee(o.facts, y) is not None and o.adds(callee(o.facts, y)) for y in s.walk()):
            out.append(None)
    # only the run without unknown steps around the site
    i = out.index(key) if key in out else None
    if i is None:
        return []
    a = b = i
    while a > 0 and out[a - 1] is not None:
        a -= 1
    while b + 1 < len(out) and out[b + 1] is not None:
        b += 1
    return out[a:b + 1]


# ---- predicted numbers ------------------------------------------------------
def ladd(a, b, k=1):
    if a is None or b is None:
        return None
    d = dict(a)
    for s, c in b.items():
        d[s] = d.get(s, 0) + k * c
        if d[s] == 0:
            del d[s]
    return d


class Counter:
    """numbers of the objects a function appends, as linear forms over its entry count, loop indices and container sizes"""

    def __init__(self, facts, K):
        self.facts, self.K, self.o = facts, K, K.o
        self.memo = {}

    def of(self, f):
        if f.key not in self.memo:
            c = self.memo[f.key] = Frame(self, f)
            c.run()
        return self.memo[f.key]


class Frame:
    def __init__(self, C, f):
        self.C, self.f, self.o = C, f, C.o
        self.env = {}
        self.num = {}      # add site -> (number at that point)
        self.ref = {}      # add_object_ref node id -> linear form
        self.loops = {}    # loop symbol -> slot of the container iterated
        self.mut = set()
        for n in all_nodes(f):
            if n.k in ('BinaryOperator', 'CompoundAssignOperator') and n.op.endswith('=') and n.op not in ('==', '!=', '<=', '>='):
                x = strip_casts(n.c[0])
                if x is not None and x.k == 'DeclRefExpr':
                    self.mut.add(x.v)
            elif n.k == 'UnaryOperator' and n.op in ('++', '--'):
                x = strip_casts(n.c[0])
                if x is not None and x.k == 'DeclRefExpr':
                    self.mut.add(x.v)

    def run(self):
        if self.f.body is not None:
            self.stmt(self.f.body, {('N',): 1})

    def stmt(self, s, cur):
        if s is None:
            return cur
        k = s.k
        if k == 'CompoundStmt':
            for x in s.c:
                cur = self.stmt(x, cur)
            return cur
        if k == 'DeclStmt':
            for d in s.a.get('d', ()):
                i = d.get('i')
                if i is None:
                    continue
                before = cur
                cur = self.expr(i, cur)
                if d['v'] not in self.mut:
                    v = self.lin(i, before)
                    if v is not None and not any(isinstance(x, tuple) and x[0] in ('e', '?:') for x in v):
                        self.env[d['v']] = v
            return cur
        if k == 'ForStmt':
            init, cond, inc, body = (s.c + [None] * 4)[:4]
            parts = [x for x in s.c if x is not None]
            body = parts[-1] if parts else None
            var = None
            size = None
            for x in parts[:-1]:
                if x.k == 'DeclStmt' and x.a.get('d'):
                    d = x.a['d'][0]
                    i = strip_casts(d['i']) if d.get('i') is not None else None
                    if i is not None and i.cvi() == 0:
                        var = d['v']
                if x.k == 'BinaryOperator' and x.op in ('<', '!='):
                    size = self.lin(x.c[1], cur)
            return self.loop(s, body, cur, var, size)
        if k == 'CXXForRangeStmt':
            rng = None
            for x in s.c:
                if x is not None and x.k == 'DeclStmt':
                    for d in x.a.get('d', ()):
                        if d['n'].startswith('__range') and d.get('i') is not None:
                            rng = self.o.slot(self.f, d['i'])
            return self.loop(s, s.c[-1], cur, None, {('n', rng): 1} if rng is not None else None)
        if k in ('WhileStmt', 'DoStmt'):
            return self.loop(s, s.c[-1], cur, None, None)
        if k == 'IfStmt':
            kids = [x for x in s.c if x is not None]
            st = [x for x in kids if x.k in ('CompoundStmt', 'ReturnStmt', 'IfStmt', 'ForStmt', 'CXXForRangeStmt', 'WhileStmt') or x.a.get('stmt')]
            cur = self.expr(kids[0], cur) if kids else cur
            outs = []
            for x in kids[1:]:
                e = self.stmt(x, cur)
                if not leaves(x):
                    outs.append(e)
            if len(kids) < 3:
                outs.append(cur)
            if all(x == outs[0] for x in outs) and outs:
                return outs[0]
            return outs[0] if len(outs) == 1 else {('K', s.id): 1} if outs else cur
        if k in ('SwitchStmt', 'CXXTryStmt', 'LambdaExpr'):
            before = cur
            for x in s.kids():
                cur = self.stmt(x, cur)
            return before if cur == before else {('K', s.id): 1}
        return self.expr(s, cur)

    def loop(self, s, body, cur, var, size):
        it = ('it', s.id)
        if var is not None and var in self.mut:
            self.env[var] = {it: 1}
        env = dict(self.env)
        probe = {('P', s.id): 1}
        end = self.stmt(body, probe)
        d = ladd(end, probe, -1)
        per = d.get(1, 0) if d is not None and set(d) <= {1} else None
        self.env = env
        if per is None:
            self.stmt(body, {('K', s.id): 1})
            return {('K2', s.id): 1}
        start = ladd(cur, {it: per}) if per else cur
        self.loops[it] = size
        self.stmt(body, start)
        self.env = {k: v for k, v in env.items() if k != var}
        if not per:
            return cur
        if size is None:
            return {('K2', s.id): 1}
        return ladd(cur, {k: v * per for k, v in size.items()})

    def expr(self, n, cur):
        """record the references and appends in an expression, in source order"""
        for x in post(n):
            if x.k == 'CXXMemberCallExpr' and x.n == 'add_object_ref' and x.c:
                self.ref[x.id] = self.lin(x.c[0], cur)
            elif (self.f.key, x.id) in self.o.addsites:
                self.num[(self.f.key, x.id)] = cur
                cur = ladd(cur, {1: 1})
            elif x.k in CALLS:
                g = callee(self.C.facts, x)
                if g is not None and self.o.adds(g):
                    cur = {('K', x.id): 1}
        return cur

    def lin(self, n, cur):
        n = strip_casts(n)
        if n is None:
            return None
        if n.cvi() is not None:
            return {1: n.cvi()} if n.cvi() else {}
        if n.k == 'DeclRefExpr' and n.v is not None:
            if n.v in self.env:
                return self.env[n.v]
            return {('v', n.v): 1}
        if n.k in CTORS or n.k == 'InitListExpr':
            a = [x for x in n.c if x is not None]
            if len(a) == 1:
                return self.lin(a[0], cur)
        if n.k == 'BinaryOperator' and n.op in ('+', '-'):
            return ladd(self.lin(n.c[0], cur), self.lin(n.c[1], cur), 1 if n.op == '+' else -1)
        t = self.o.sized(self.f, n)
        if t is not None:
            return cur if t == ('f',) + OBJS else {('n', t): 1}
        if n.k == 'CXXMemberCallExpr' and (self.f.key, n.id) in self.o.addsites:
            return cur
        if n.k == 'CXXMemberCallExpr' and n.n in ('front', 'back') and n.obj is not None:
            return {(n.n, objtext(n.obj)): 1}
        if n.k in ('CXXOperatorCallExpr', 'UnaryOperator') and n.op == '*' and len(n.c) == 1:
            x = strip_casts(n.c[0])
            if x is not None and x.k == 'DeclRefExpr' and x.v is not None:
                return {('deref', x.v): 1}
            if x is not None and x.k == 'CallExpr' and x.q in ('std::prev', 'std::next'):
                return {(x.q, x.id): 1}
        if n.k == 'ConditionalOperator':
            return {('?:', n.id): 1}
        return {('e', n.id): 1}


def objtext(n):
    from ..util import path
    p = path(n)
    return p if p is not None else ('n', n.id)


def post(n):
    for x in n.kids():
        yield from post(x)
    yield n


def leaves(s):
    if s is None:
        return False
    if s.k in ('ReturnStmt', 'BreakStmt', 'ContinueStmt', 'CXXThrowExpr', 'GotoStmt'):
        return True
    if s.k == 'CompoundStmt':
        return any(leaves(x) for x in s.c if x is not None)
    if s.k == 'IfStmt':
        k = [x for x in s.c if x is not None]
        return len(k) == 3 and leaves(k[1]) and leaves(k[2])
    return False


def own_number(K, fr, s):
    """(add site, its number) of the object whose dictionary contains the reference"""
    hits = []
    for key in fr.num:
        f, call, payload = K.o.addsites[key]
        t = payload_sites(K, f, payload)
        if s.site in t:
            hits.append(key)
    if len(hits) == 1:
        return hits[0], fr.num[hits[0]]
    return None, None


def payload_sites(K, f, payload):
    for x in payload.walk():
        t = clean(x.t).rsplit('::', 1)[-1]
        if t in ('FullPDFObject', 'DeflatePDFObject') and x.k in ('InitListExpr', 'CXXParenListInitExpr') and x.c:
            return K.dicts(f, x.c[0], set())
    return set()


def navnode(r, K, cnt, s, name):
    fr = cnt.of(s.fn)
    L = fr.ref.get(s.node.id)
    key, own = own_number(K, fr, s)
    if L is None or own is None:
        r.count('predicted numbers not understood (not judged)')
        return
    d = ladd(L, own, -1)
    nodes = [k for k in fr.num if any(x.has('/Type', '/NavNode') for x in K.kind(k))]
    last = max(nodes, key=lambda k: K.o.addsites[k][1].id) if nodes else None
    first = min(nodes, key=lambda k: K.o.addsites[k][1].id) if nodes else None
    want = 1 if s.chain == ('/Next',) else -1
    if d == {1: want} and not (want == 1 and key == last) and not (want == -1 and key == first):
        r.ok('predicted', '%s NavNode %s is the %s node' % (s.node.loc, name, 'following' if want == 1 else 'preceding'), s.fn)
    elif want == -1 and key == first and L == fr.num.get(last):
        r.ok('predicted', '%s NavNode %s of the first node is the last node' % (s.node.loc, name), s.fn)
    elif any(x[0] in ('e', 'v', 'deref', 'K', 'K2', '?:') for x in (d or {}) if isinstance(x, tuple)):
        r.count('predicted numbers not understood (not judged)')
    else:
        r.bad('predicted', s.node.loc, s.fn, 'NavNode ' + name, 'the navigation node links %s to object own%s instead of the %s node' % (
            name, lshow(d), 'next' if want == 1 else 'previous'))


def lshow(d):
    return ''.join('%+d%s' % (c, '' if s == 1 else '*' + str(s[0])) for s, c in sorted((d or {}).items(), key=str)) or '+0'


def outline(r, K, cnt, s, name):
    fr = cnt.of(s.fn)
    o = K.o
    L = fr.ref.get(s.node.id)
    items = [k for k in fr.num if any(x.has('/Title') for x in K.kind(k))]
    root = [k for k in fr.num if any(x.has('/Type', '/Outlines') for x in K.kind(k))]
    if L is None or len(items) != 1 or len(root) != 1:
        r.count('predicted numbers not understood (not judged)')
        return
    base = fr.num[items[0]]
    its = [x for x in base if isinstance(x, tuple) and x[0] == 'it']
    if len(its) != 1 or base[its[0]] != 1:
        r.count('predicted numbers not understood (not judged)')
        return
    F = {k: v for k, v in base.items() if k != its[0]}
    alts = [L]
    only = list(L)
    if len(only) == 1 and isinstance(only[0], tuple) and only[0][0] == '?:' and L[only[0]] == 1:
        n = s.fn.nodes[only[0][1]]
        alts = [fr.lin(n.c[1], None), fr.lin(n.c[2], None)]
        if alts[0] is not None and alts[1] is not None and fr.num[root[0]] in alts:
            side = rootside(n.c[0])
            if side is not None and (side < 0 or fr.num[root[0]] != alts[side]):
                r.bad('predicted', s.node.loc, s.fn, 'outline ' + name + ' condition',
                      'outline entry /Parent: an item has the outline root as parent for other parent indices than -1')
                return
    key = s.chain[0]
    ok = True
    why = ''
    unknown = False
    for a in alts:
        e = ladd(a, F, -1)
        if e is None:
            unknown = True
            continue
        if key == '/Parent' and a == fr.num[root[0]]:
            continue
        tup = [x for x in e if isinstance(x, tuple)]
        if set(e) == {its[0]} and e[its[0]] == 1 or e == {1: e.get(1)} or e == {}:
            ok, why = False, 'links to the item itself or a fixed item'
            continue
        if len(tup) == 1 and e[tup[0]] == 1 and set(e) == {tup[0]}:
            t = tup[0]
            if t[0] in ('K', 'K2', '?:', 'e'):
                unknown = True
            elif key in ('/First', '/Last'):
                if t[0] in ('front', 'back') and t[0] != {'/First': 'front', '/Last': 'back'}[key]:
                    ok, why = False, '%s is the %s child' % (key, {'front': 'first', 'back': 'last'}[t[0]])
                elif t[0] not in ('front', 'back'):
                    unknown = True
            elif key in ('/Prev', '/Next'):
                w = {'/Prev': '--', '/Next': '++'}[key]
                if t[0] == 'deref':
                    st = steps(s.fn, t[1])
                    if st is None:
                        unknown = True
                    elif st != {w}:
                        ok, why = False, '%s is the sibling reached by %s' % (key, ' '.join(sorted(st)) or 'standing still')
                elif t[0] in ('std::prev', 'std::next'):
                    if t[0] != {'/Prev': 'std::prev', '/Next': 'std::next'}[key]:
                        ok, why = False, '%s uses %s' % (key, t[0])
                else:
                    unknown = True
            elif key == '/Parent':
                if t[0] == 'v':
                    src = o.defs.get(('v', s.fn.tu, t[1]), ())
                    flds = set()
                    for g, x in src:
                        flds |= o.slice(g, x)
                    if ('capypdf::internal::OutlineData', 'parent') not in flds:
                        ok, why = False, '/Parent is not looked up in the parent table'
                else:
                    unknown = True
            continue
        if any(t[0] in ('e', 'v', 'K', 'K2', '?:', 'deref') for t in tup) and 1 not in e and len(tup) > 1:
            unknown = True
            continue
        ok, why = False, 'the number is first item%s' % lshow(e)
    if not ok:
        r.bad('predicted', s.node.loc, s.fn, 'outline ' + name, 'outline entry %s: %s' % (name, why))
    elif unknown:
        r.count('predicted numbers not understood (not judged)')
    else:
        r.ok('predicted', '%s outline %s' % (s.node.loc, name), s.fn)


def rootside(c):
    """which arm (0/1) of `c ? a : b` is taken exactly for the index -1 among {-1, 0, 1, ..}; -1 when neither, None when not a comparison"""
    c = strip_casts(c)
    if c is None or c.k != 'BinaryOperator' or c.op not in ('<', '<=', '>', '>=', '==', '!='):
        return None
    a, b = strip_casts(c.c[0]), strip_casts(c.c[1])
    op = c.op
    if a is not None and a.cvi() is not None:
        a, b = b, a
        op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
    if b is None or b.cvi() is None:
        return None
    k = b.cvi()
    ev = {'<': lambda x: x < k, '<=': lambda x: x <= k, '>': lambda x: x > k, '>=': lambda x: x >= k, '==': lambda x: x == k,
          '!=': lambda x: x != k}[op]
    t = [ev(x) for x in (-1, 0, 1, 2)]
    if t == [True, False, False, False]:
        return 0
    if t == [False, True, True, True]:
        return 1
    return -1


def steps(fn, v):
    """increments/decrements applied to an iterator variable, its copies' source excluded"""
    out = set()
    for n in all_nodes(fn):
        if n.k in ('UnaryOperator', 'CXXOperatorCallExpr') and n.op in ('++', '--') and n.c:
            x = strip_casts(n.c[0])
            if x is not None and x.k == 'DeclRefExpr' and x.v == v:
                out.add(n.op)
        if n.k == 'DeclStmt':
            for d in n.a.get('d', ()):
                if d['v'] == v and d.get('i') is not None:
                    i = strip_casts(d['i'])
                    if i is not None and i.k == 'CallExpr' and i.q in ('std::prev', 'std::next'):
                        out.add({'std::prev': '--', 'std::next': '++'}[i.q])
                    elif i is not None and i.k not in ('DeclRefExpr',) and not (i.k in CTORS) and not (i.k == 'CallExpr' and i.n == 'find'):
                        return None
    return out


# ---- numbers in the wrong clothes -------------------------------------------
def bare(facts, r, K):
    seen = set()
    for e in K.m.evs:
        if e.kind not in ('value', 'key') or e.node.n not in ('add_token', 'add_token_pair', 'add_token_with_slash') or e.arg is None:
            continue
        id = (e.fn.key, e.node.id, e.arg.id)
        if id in seen:
            continue
        seen.add(id)
        t = clean(e.arg.t)
        if not any(t.startswith(x) for x in ('int', 'unsigned', 'long', 'short', 'size_t', 'std::int', 'uint', 'signed')):
            continue
        vs = K.o.values(e.fn, e.arg)
        if any(v[0] in ('obj', 'self') for v in vs):
            if all(v[0] in ('obj', 'self', 'c') for v in vs):
                ks = {x for fr in e.stack[-1:] if fr[0] == 'D' and fr[2] is not None for x in K.keytext(fr[2])}
                r.bad('bare', e.node.loc, e.fn, ' '.join(sorted(ks)) or 'array item',
                      'the object number is written as a plain number (%s), not as a reference' % (' '.join(sorted(ks)) or 'array item'))
                continue
        r.ok('bare', '%s not an object number' % e.node.loc, e.fn)


def index(facts, r, K):
    o = K.o
    tables = {f['n'] for f in facts.records.get(DOC, {'fields': []})['fields'] if f['t'].startswith('std::vector<')}
    for f in repo_fns(facts):
        if not rel(f.file).startswith('src/'):
            continue
        for n in all_nodes(f):
            if n.k == 'CXXMemberCallExpr' and n.n == 'at' and n.obj is not None and n.c:
                obj, ix = n.obj, n.c[0]
            elif n.k == 'CXXOperatorCallExpr' and n.op == '[]' and len(n.c) == 2:
                obj, ix = n.c
            else:
                continue
            x = strip_casts(obj)
            if x is None or x.k != 'MemberExpr' or x.cls != DOC or x.n not in tables:
                continue
            y = strip_casts(ix)
            while y is not None and y.k == 'DeclRefExpr' and y.v is not None:
                ds = o.defs.get(('v', f.tu, y.v), ())
                if len(ds) != 1 or ('v', f.tu, y.v) in o.params or ('v', f.tu, y.v) in o.incs:
                    break
                y = strip_casts(ds[0][1])
            if y is not None and y.k == 'BinaryOperator' and y.op in ('+', '-', '*', '/', '%') and y.cvi() is None:
                t = o.sized(f, y.c[0])
                if t is not None and y.op == '-' and strip_casts(y.c[1]).cvi() == 1:
                    r.ok('index', '%s last entry of %s' % (n.loc, x.n), f)
                    continue
                r.bad('index', n.loc, f, x.n, 'entry of %s selected by a computed position' % x.n)
            else:
                r.ok('index', '%s %s' % (n.loc, x.n), f)


def structparents(facts, r, K):
    for e in K.m.evs:
        if e.kind != 'value' or not e.stack or e.stack[-1][0] != 'D' or e.stack[-1][2] is None or e.arg is None:
            continue
        if K.keytext(e.stack[-1][2]) != {'/StructParents'} and K.keytext(e.stack[-1][2]) != {'/StructParent'}:
            continue
        vs = K.o.values(e.fn, e.arg)
        t = ('f', DOC, 'structure_parent_tree_items')
        bad = [v for v in vs if v[0] in ('obj', 'next', 'self', 'arith') or v[0] == 'idx' and v[1] != t]
        if bad:
            r.bad('structparents', e.node.loc, e.fn, 'StructParents', 'the key into the parent tree is not the position of the entry')
        elif ('idx', t) in vs:
            r.ok('structparents', '%s position in structure_parent_tree_items' % e.node.loc, e.fn)
