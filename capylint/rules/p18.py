"""P18: what the library acquires is released once, and used only in between."""
from ..facts import CALLS, CTORS, AnalysisBroken, rel
from ..util import (all_nodes, callee, strip_casts, path, pstr, branch_cond, split_not, repo_fns, src_fns,
                    ancestors, lambda_fns)

META = {
    'title': 'Files, fonts, profiles and buffers are released exactly once',
    'statement': 'Every file, mapping, FreeType or LittleCMS object, TIFF/PNG/JPEG reader, compressor and heap object '
                 'the library acquires is released exactly once, by the function made for its kind, on every path '
                 'including all error returns, or handed to an owner that does so. It is not used before its '
                 'acquisition is known to have succeeded, nor after its release; font faces are closed before the '
                 'FreeType library they belong to. Every destroy function of the C API deletes its object as the type '
                 'it was created with.',
    'over': ['inputs', 'fault_sequences', 'programs'],
    'qtext': 'for every path of every function, whichever library calls fail',
    'why': 'Leaks and double releases happen on error paths that need a failing C library call or a malformed file; '
           'the tests take the successful path, where everything is released.',
    'files': ['src/imagefileops.cpp', 'src/document.cpp', 'src/colorconverter.cpp', 'src/mmapper.cpp',
              'src/utils.cpp', 'src/pdfwriter.cpp', 'src/generator.cpp', 'src/capi.cpp'],
    'mechanism': [('image readers', 'src/imagefileops.cpp load_png_file, load_tif_file, load_jpg_metadata'),
                  ('font loading', 'src/document.cpp PdfDocument::load_font, initialize_multimaster'),
                  ('colour profiles', 'src/colorconverter.cpp LcmsHolder, PdfColorConverter::convert_image_to'),
                  ('mapped files', 'src/mmapper.cpp mmap_file, MMapperPrivate'),
                  ('destroy functions', 'src/capi.cpp capy_*_destroy')],
    'technique': 'typestate and ownership dataflow over clang CFGs for every acquisition site (failure-linked error '
                 'variables, null tests, transfers to owners), plus type matching of deleters and C handles',
    'level_note': 'All acquisition sites of the listed C functions and of new/delete, all CFG paths. Objects that are '
                  'stored in containers or captured by closures leave the analysis; longjmp edges and exceptions are '
                  'not modelled.',
}

# kind -> how the value says "failed"; None: void / cannot fail; oom: null only when memory runs out
RET = {
    'fopen': 'file', 'fopen64': 'file', 'tmpfile': 'file', 'tmpfile64': 'file', 'fdopen': 'file', 'popen': 'file',
    'mmap': 'mapping', 'mmap64': 'mapping',
    'malloc': 'memory', 'calloc': 'memory', 'strdup': 'memory', 'strndup': 'memory',
    'cmsOpenProfileFromMem': 'profile', 'cmsOpenProfileFromFile': 'profile', 'cmsOpenProfileFromStream': 'profile',
    'cmsCreate_sRGBProfile': 'profile', 'cmsCreateGrayProfile': 'profile', 'cmsCreateRGBProfile': 'profile',
    'cmsCreateLab4Profile': 'profile', 'cmsCreateLab2Profile': 'profile', 'cmsCreateXYZProfile': 'profile',
    'cmsCreateTransform': 'transform', 'cmsCreateProofingTransform': 'transform', 'cmsCreateExtendedTransform': 'transform',
    'cmsBuildGamma': 'curve', 'cmsBuildParametricToneCurve': 'curve', 'cmsDupToneCurve': 'curve',
    'TIFFOpen': 'tiff', 'TIFFClientOpen': 'tiff', 'TIFFFdOpen': 'tiff',
    'png_create_read_struct': 'png reader', 'png_create_info_struct': 'png info',
    'png_create_write_struct': 'png writer', 'opendir': 'directory',
}
OOM = {'cmsBuildGamma', 'cmsBuildParametricToneCurve', 'cmsDupToneCurve', 'cmsCreate_sRGBProfile',
       'cmsCreateGrayProfile', 'cmsCreateRGBProfile', 'cmsCreateLab4Profile', 'cmsCreateLab2Profile',
       'cmsCreateXYZProfile'}
RET['cmsCreateContext'] = 'colour context'
RET.update({k + 'THR': v for k, v in list(RET.items()) if k.startswith('cms') and v in ('profile', 'transform')})
OOM |= {'cmsCreateContext'} | {k + 'THR' for k in OOM if 'Profile' in k}
# function -> (argument, kind, result that means failure: 'nz', 'z', None = cannot fail)
OUT = {
    'FT_Init_FreeType': (0, 'font library', 'nz'),
    'FT_New_Face': (3, 'font face', 'nz'), 'FT_New_Memory_Face': (4, 'font face', 'nz'), 'FT_Open_Face': (3, 'font face', 'nz'),
    'FT_Get_MM_Var': (1, 'font variations', 'nz'),
    'FT_OpenType_Validate': (2, 'font table', 'nz'),
    'jpeg_CreateDecompress': (0, 'jpeg reader', None), 'jpeg_CreateCompress': (0, 'jpeg writer', None),
    'jpeg_read_icc_profile': (1, 'memory', 'z'),
    'deflateInit_': (0, 'compressor', 'nz'), 'deflateInit2_': (0, 'compressor', 'nz'),
    'inflateInit_': (0, 'decompressor', 'nz'), 'inflateInit2_': (0, 'decompressor', 'nz'),
}
BYVALUE = {'jpeg reader', 'jpeg writer', 'compressor', 'decompressor'}
REL = {
    'fclose': ((0, 'file'),), 'pclose': ((0, 'file'),), 'munmap': ((0, 'mapping'),), 'free': ((0, 'memory'),),
    'cmsCloseProfile': ((0, 'profile'),), 'cmsDeleteTransform': ((0, 'transform'),), 'cmsFreeToneCurve': ((0, 'curve'),),
    'TIFFClose': ((0, 'tiff'),), 'png_destroy_read_struct': ((0, 'png reader'), (1, 'png info')),
    'png_destroy_info_struct': ((1, 'png info'),), 'png_destroy_write_struct': ((0, 'png writer'), (1, 'png info')),
    'closedir': ((0, 'directory'),), 'cmsDeleteContext': ((0, 'colour context'),),
    'FT_Done_FreeType': ((0, 'font library'),), 'FT_Done_Face': ((0, 'font face'),), 'FT_Done_MM_Var': ((1, 'font variations'),),
    'FT_OpenType_Free': ((1, 'font table'),),
    'jpeg_destroy_decompress': ((0, 'jpeg reader'),), 'jpeg_destroy_compress': ((0, 'jpeg writer'),),
    'jpeg_destroy': ((0, 'jpeg reader'), (0, 'jpeg writer')),
    'deflateEnd': ((0, 'compressor'),), 'inflateEnd': ((0, 'decompressor'),),
}
NULL_OK = {'free', 'png_destroy_read_struct', 'png_destroy_info_struct', 'png_destroy_write_struct'}
# element type of an owning pointer -> kind
ELEM = {'_IO_FILE': 'file', 'FILE': 'file', 'tiff': 'tiff', 'TIFF': 'tiff', 'FT_FaceRec_': 'font face',
        'FT_LibraryRec_': 'font library', 'jpeg_decompress_struct': 'jpeg reader', 'jpeg_compress_struct': 'jpeg writer',
        'z_stream_s': 'compressor', 'png_struct_def': 'png reader', 'png_info_def': 'png info',
        'FT_MM_Var_': 'font variations', '_cms_curve_struct': 'curve', '_cmsContext_struct': 'colour context', '__dirstream': 'directory'}
KINDS_OF_ELEM = {'z_stream_s': {'compressor', 'decompressor'}}


def bare(t):
    return (t or '').replace('const ', '').replace('struct ', '').strip()


def uptr_elem(t):
    t = bare(t)
    for h in ('std::unique_ptr<', 'std::shared_ptr<'):
        if t.startswith(h):
            inner = t[len(h):]
            d = 0
            for i, ch in enumerate(inner):
                if ch == '<' or ch == '(':
                    d += 1
                elif ch == ')' or (ch == '>' and d > 0):
                    d -= 1
                elif d == 0 and ch in ',>':
                    return inner[:i].strip(), inner[i:].lstrip(', ').strip()
    return None, None


def const_int(n):
    """integer value of an expression through pointer casts"""
    n0 = n
    while n is not None:
        c = n.cvi() if n.cv is not None else None
        if c is not None:
            return c
        if n.k in ('CStyleCastExpr', 'CXXReinterpretCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr') and n.c:
            n = n.c[0]
            continue
        if n.k == 'UnaryOperator' and n.op == '-' and n.c:
            v = const_int(n.c[0])
            return None if v is None else -v
        if n.k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr'):
            return 0
        return None
    return None


def fn_ref(n):
    """the function an expression names"""
    n = strip_casts(n)
    while n is not None and n.k == 'UnaryOperator' and n.op in ('&', '*'):
        n = strip_casts(n.c[0])
    if n is not None and n.k == 'DeclRefExpr' and n.dk == 'fn':
        return n
    return None


def arg_path(n):
    return path(n) if n is not None else None


def deref_lhs(n):
    n = strip_casts(n)
    return n is not None and n.k == 'UnaryOperator' and n.op == '*'


class Model:
    def __init__(self, facts):
        self.facts = facts
        self.fns = [f for f in repo_fns(facts) if rel(f.file).startswith('src/')]
        self.by_cls = {}
        for f in self.fns:
            if f.cls:
                self.by_cls.setdefault(f.cls, []).append(f)
        self.rel_params = {}     # fn key -> set of (param index, kind)
        self.acq_ret = {}        # fn key -> kind
        self.releasing = {}      # class -> {field: kind}
        self.takes = {}          # ctor key -> set of param index whose object the class then owns
        self._releasers()
        self._releasing_classes()
        self._takers()
        self._acquirers()

    def rel_of(self, n):
        """(function name, [(argument node, kind)]) when a call releases something"""
        if n.k not in CALLS:
            return None
        if n.q in REL:
            return [(n.c[i], k) for (i, k) in REL[n.q] if i < len(n.c)]
        if n.f in self.rel_params and n.k == 'CallExpr':
            return [(n.c[i], k) for (i, k) in self.rel_params[n.f] if i < len(n.c)]
        return None

    def _releasers(self):
        changed = True
        while changed:
            changed = False
            for f in self.fns:
                if f.ctor or f.dtor:
                    continue
                ps = {p['v']: i for i, p in enumerate(f.params)}
                for n in all_nodes(f):
                    r = self.rel_of(n)
                    for (a, k) in r or ():
                        x = strip_casts(a)
                        while x is not None and x.k == 'UnaryOperator' and x.op == '&':
                            x = strip_casts(x.c[0])
                        if x is not None and x.k == 'DeclRefExpr' and x.v in ps and not f.cls:
                            s = self.rel_params.setdefault(f.key, set())
                            if (ps[x.v], k) not in s:
                                s.add((ps[x.v], k))
                                changed = True

    def _fields_released(self, f, seen):
        out = {}
        if f.key in seen:
            return out
        seen.add(f.key)
        for n in all_nodes(f):
            for (a, k) in self.rel_of(n) or ():
                p = path(a)
                if p is not None and len(p) >= 2 and p[0] == ('this',) and p[1] != '*':
                    out.setdefault(p[1], k)
            if n.k == 'CXXDeleteExpr' and n.c:
                p = path(n.c[0])
                if p is not None and len(p) == 2 and p[0] == ('this',):
                    out.setdefault(p[1], 'new')
            if n.k == 'CXXMemberCallExpr' and n.obj is not None:
                o = strip_casts(n.obj)
                g = callee(self.facts, n)
                if o is not None and o.k == 'CXXThisExpr' and g is not None:
                    out.update(self._fields_released(g, seen))
        return out

    def _releasing_classes(self):
        for f in self.fns:
            if f.dtor and f.cls:
                d = self._fields_released(f, set())
                if d:
                    self.releasing[f.cls] = d

    def _takers(self):
        """constructors (and methods) whose parameter ends up in an owner"""
        for f in self.fns:
            ps = {p['v']: i for i, p in enumerate(f.params) if (p['t'] or '').rstrip().endswith('*')}
            if not ps or not f.cls:
                continue
            rel_fields = self.releasing.get(f.cls, {})
            rec = self.facts.records.get(f.cls)
            ftype = {x['n']: x['t'] for x in rec['fields']} if rec else {}
            for i in f.inits:
                if i.get('i') is None:
                    continue
                for x in i['i'].walk():
                    if x.k == 'DeclRefExpr' and x.v in ps:
                        nm = i.get('n') or i.get('m') or i.get('fld')
                        t = ftype.get(nm, i['i'].t)
                        if nm in rel_fields or 'unique_ptr<' in (t or '') or 'shared_ptr<' in (t or '') \
                                or any(c in (t or '') for c in self.releasing):
                            self.takes.setdefault(f.key, set()).add(ps[x.v])
            for n in all_nodes(f):
                if n.k == 'BinaryOperator' and n.op == '=':
                    lp = path(n.c[0])
                    r = strip_casts(n.c[1])
                    if lp is not None and lp[0] == ('this',) and len(lp) == 2 and r is not None \
                            and r.k == 'DeclRefExpr' and r.v in ps and lp[1] in rel_fields:
                        self.takes.setdefault(f.key, set()).add(ps[r.v])

    def _acquirers(self):
        changed = True
        while changed:
            changed = False
            for f in self.fns:
                if f.key in self.acq_ret or not (f.rt or '').rstrip().endswith('*') or f.body is None:
                    continue
                src = {}
                for n in f.body.walk():
                    if n.k == 'DeclStmt':
                        for d in n.a.get('d', ()):
                            k = self.acq_kind(strip_casts(d.get('i'))) if d.get('i') is not None else None
                            if k:
                                src[d['v']] = k
                for n in f.body.walk():
                    if n.k == 'ReturnStmt' and n.c and n.c[0] is not None:
                        x = strip_casts(n.c[0])
                        k = self.acq_kind(x)
                        if k is None and x is not None and x.k == 'DeclRefExpr' and x.v in src:
                            k = src[x.v]
                        if k is not None and k[0] != 'new':
                            self.acq_ret[f.key] = k
                            changed = True
                            break

    def acq_kind(self, n):
        """(kind, source name, can be null) of a value that acquires"""
        if n is None:
            return None
        if n.k == 'CXXNewExpr':
            return ('new', 'new', False)
        if n.k in CALLS:
            if n.q in RET:
                return (RET[n.q], n.q, n.q not in OOM)
            if n.k == 'CallExpr' and n.f in self.acq_ret:
                k = self.acq_ret[n.f]
                return (k[0], n.q, k[2])
        return None

    def is_holder(self, t):
        """a class type that releases what is put into it"""
        t = bare(t)
        return t in self.releasing or t.startswith(('std::unique_ptr<', 'std::shared_ptr<'))


# ---------------------------------------------------------------- typestate

MINE, OWNED, GONE, ESC = 'mine', 'owned', 'released', 'esc'


class State:
    """tok: site -> (kind, nullness, own); bind: path -> site; err: path -> (site, failing result); own: path -> site;
    pre: paths with an owner that was made before the object"""
    __slots__ = ('tok', 'bind', 'err', 'own', 'pre')

    def __init__(self, s=None):
        self.tok = dict(s.tok) if s else {}
        self.bind = dict(s.bind) if s else {}
        self.err = dict(s.err) if s else {}
        self.own = dict(s.own) if s else {}
        self.pre = dict(s.pre) if s else {}

    def key(self):
        f = lambda d: tuple(sorted(d.items()))
        return (f(self.tok), f(self.bind), f(self.err), f(self.own), f(self.pre))

    def drop(self, site):
        self.tok.pop(site, None)
        for d in (self.bind, self.own):
            for k in [k for k, v in d.items() if v == site]:
                del d[k]
        for k in [k for k, v in self.err.items() if v[0] == site]:
            del self.err[k]


class Walker:
    def __init__(self, m, fn, out):
        self.m = m
        self.fn = fn
        self.out = out          # (rule, node, key) -> (kind, msg)
        self.sites = {}         # site -> (kind, name, node)
        self.uses = set()
        self.rels = set()
        self.locals = {}
        for p in fn.params:
            self.locals[p['v']] = p['t']
        for n in all_nodes(fn):
            if n.k == 'DeclStmt':
                for d in n.a.get('d', ()):
                    if d.get('v') is not None and not d.get('static'):
                        self.locals[d['v']] = d['t']
        self.temps = {}

    def report(self, rule, n, what, msg):
        self.out.setdefault((rule, n.id if n is not None else 0, what), (n, msg))

    # -- running
    def run(self, init=None, at_exit=None):
        fn = self.fn
        cfg = fn.cfg
        s0 = init or State()
        seen = {b: set() for b in cfg.blocks}
        work = [(cfg.entry, s0)]
        total = 0
        while work:
            bi, st = work.pop()
            k = st.key()
            if k in seen[bi]:
                continue
            seen[bi].add(k)
            total += 1
            if total > 60000:
                raise AnalysisBroken('too many states in ' + fn.q)
            b = cfg.blocks[bi]
            s = State(st)
            last = None
            for e in b.e:
                if isinstance(e, tuple):
                    if e[0] == 'dtor':
                        self.dtor(s, e[1])
                    continue
                self.node(s, e)
                last = e
            if bi == cfg.exit:
                self.exit(s, at_exit)
                continue
            if b.nr:
                continue
            for idx, su in enumerate(b.succs):
                if su < 0:
                    continue
                s2 = s
                if len(b.succs) == 2 and b.cond is not None and b.tk != 'SwitchStmt':
                    c, pol = split_not(branch_cond(b))
                    s2 = self.branch(State(s), c, (idx == 0) == pol)
                    if s2 is None:
                        continue
                work.append((su, s2))

    def site_of(self, s, n):
        """the tracked object an expression denotes"""
        x = strip_casts(n)
        while x is not None and x.k == 'BinaryOperator' and x.op == '=':
            x = strip_casts(x.c[0])
        if x is None:
            return None
        p = path(x)
        if p is None:
            return None
        return s.bind.get(self.ps(p))

    @staticmethod
    def ps(p):
        return pstr(p)

    def branch(self, s, c, truth):
        c = strip_casts(c)
        if c is None:
            return s
        x, fail = c, None
        cmp = None
        if c.k in ('BinaryOperator', 'CXXOperatorCallExpr', 'CXXRewrittenBinaryOperator') and c.op in ('==', '!=') and len(c.c) == 2:
            a, b = c.c[0], c.c[1]
            va, vb = const_int(a), const_int(b)
            if va is not None and vb is None:
                a, b, va, vb = b, a, vb, va
            if vb is not None:
                x = strip_casts(a)
                cmp = vb
                if c.op == '!=':
                    truth = not truth
        if c.k == 'BinaryOperator' and c.op in ('<', '<=', '>', '>='):
            return s
        while x is not None and x.k == 'BinaryOperator' and x.op == '=':
            x = strip_casts(x.c[0])
        if x is None:
            return s
        # truth: "x is true" (cmp None) or "x equals cmp"
        p = path(x)
        key = self.ps(p) if p is not None else None
        if x.k in CALLS and x.k != 'CXXOperatorCallExpr' and ('#%d' % x.id) in s.err:
            key = '#%d' % x.id
        if key is not None and key in s.err:
            site, how = s.err[key]
            if site in s.tok:
                nz = truth if cmp is None else ((not truth) if cmp == 0 else None)
                if cmp is not None and cmp != 0 and truth:
                    nz = True
                if nz is not None:
                    failed = nz if how == 'nz' else not nz
                    if failed:
                        s.drop(site)
                    else:
                        k, nu, own = s.tok[site]
                        s.tok[site] = (k, 'ok', own)
            return s
        if x.k == 'CXXMemberCallExpr' and x.n in ('get', 'operator bool') and x.obj is not None:
            q = path(x.obj)
            key = self.ps(q) if q is not None else None
            site = s.own.get(key) if key is not None else None
        else:
            site = s.bind.get(key) if key is not None else None
            if site is None and key is not None:
                site = s.own.get(key)
        if site is not None and site in s.tok:
            k, nu, own = s.tok[site]
            if k in BYVALUE:
                return s
            if cmp is None:
                good = truth
            elif k == 'mapping':
                if cmp != -1:
                    return s
                good = not truth
            elif cmp == 0:
                good = not truth
            else:
                return s
            if cmp is None and k == 'mapping':
                return s
            if good:
                s.tok[site] = (k, 'ok', own)
            elif nu == 'ok' and own != GONE:
                return None
            else:
                s.drop(site)
        return s

    # -- events
    def new_site(self, s, n, kind, name, maybe, pathkey, off=0):
        site = n.id + off
        self.sites[site] = (kind, name, n)
        if site in s.tok and s.tok[site][2] == MINE:
            self.report('released', self.sites[site][2], 'again',
                        'the %s from %s is acquired again before the previous one was released' % (kind, name))
        s.drop(site)
        s.tok[site] = (kind, 'maybe' if maybe else 'ok', MINE)
        if pathkey is not None:
            self.rebind(s, pathkey, site)
        return site

    def rebind(self, s, key, site, node=None):
        old = s.bind.get(key)
        if old is not None and old != site and old in s.tok and s.tok[old][2] == MINE and s.tok[old][1] == 'ok' \
                and not any(v == old for k, v in s.bind.items() if k != key):
            k, name, n = self.sites[old]
            self.report('released', n, 'overwritten', 'the %s from %s is overwritten before it was released' % (k, name))
            s.drop(old)
        for k in [k for k in s.bind if k.startswith(key + '.')]:
            del s.bind[k]
        s.bind[key] = site

    def transfer(self, s, site, to=OWNED):
        if site in s.tok:
            k, nu, own = s.tok[site]
            if own == GONE:
                return
            s.tok[site] = (k, nu, to)

    def use(self, s, site, n, what):
        if site not in s.tok:
            return
        k, nu, own = s.tok[site]
        self.uses.add((site, n.id))
        kind, name, acq = self.sites.get(site, (k, '?', n))
        if own == GONE:
            self.report('use', n, 'after|%s' % name, 'the %s from %s is used (%s) after it was released' % (kind, name, what))
        elif nu == 'maybe' and k != 'memory?':
            self.report('use', n, 'unchecked|%s' % name,
                        'the %s from %s is used (%s) before it is known that %s succeeded' % (kind, name, what, name))

    def release(self, s, site, n, kind, fname):
        if site not in s.tok:
            return
        k, nu, own = s.tok[site]
        skind, name, acq = self.sites.get(site, (k, '?', n))
        self.rels.add((site, n.id))
        if kind != k:
            self.report('matching', n, '%s|%s' % (fname, name),
                        '%s is no function that releases the %s from %s' % (fname, skind, name))
        if own in (OWNED, GONE):
            self.report('released', n, 'twice|%s' % name,
                        'the %s from %s is released by %s although it %s' % (
                            skind, name, fname, 'has been released before' if own == GONE
                            else 'belongs to an owner that releases it, too'))
        elif nu == 'maybe' and fname not in NULL_OK and fname != 'delete' and own != 'param':
            self.report('use', n, 'unchecked|%s' % name,
                        'the %s from %s is released before it is known that %s succeeded' % (skind, name, name))
        s.tok[site] = (k, nu, GONE)

    def lhs_root_local(self, p):
        return p is not None and p[0][0] == 'v' and p[0][1] in self.locals

    def holder_path(self, n):
        """does storing into this lvalue put the object under an owner's care?"""
        x = strip_casts(n)
        if x is None or x.k != 'MemberExpr' or not x.c:
            return False
        base = x.c[0]
        t = bare(base.t).rstrip('*& ').strip()
        return t in self.m.releasing and x.n in self.m.releasing[t]

    def store(self, s, lhs, site, n):
        p = path(lhs)
        if self.holder_path(lhs):
            if p is not None and site in s.tok:
                # readable through the member and through the variable it came from
                s.bind[self.ps(p)] = site
            self.transfer(s, site, OWNED)
            return
        l = strip_casts(lhs)
        if p is None or deref_lhs(lhs) or not self.lhs_root_local(p) or any(x == '[]' for x in p):
            self.transfer(s, site, ESC)
            return
        rt = self.locals.get(p[0][1]) or ''
        if len(p) > 1 and rt.rstrip().endswith(('&', '*')):
            self.transfer(s, site, ESC)
            return
        self.rebind(s, self.ps(p), site)

    def node(self, s, n):
        m = self.m
        k = n.k
        if k in CALLS and k not in CTORS:
            self.call(s, n)
            return
        if k in CTORS:
            self.construct(s, n)
            return
        if k == 'CXXNewExpr':
            par = n.parent
            return
        if k == 'CXXDeleteExpr' and n.c:
            p = path(n.c[0])
            site = s.bind.get(self.ps(p)) if p is not None else None
            if site is not None:
                self.release(s, site, n, 'new', 'delete')
            return
        if k == 'DeclStmt':
            for d in n.a.get('d', ()):
                if d.get('ref') or d.get('v') is None:
                    continue
                key = 'v%d' % d['v']
                for kk in [x for x in s.bind if x == key or x.startswith(key + '.')]:
                    del s.bind[kk]
                s.err.pop(key, None)
                s.own.pop(key, None)
                s.pre.pop(key, None)
                i = d.get('i')
                if i is None:
                    continue
                self.bind_value(s, key, d['t'], i, n)
            return
        if k == 'BinaryOperator' and n.op == '=':
            r = n.c[1]
            x = strip_casts(r)
            while x is not None and x.k == 'BinaryOperator' and x.op == '=':
                x = strip_casts(x.c[1])
            p = path(n.c[0])
            key = self.ps(p) if p is not None else None
            site = self.value_site(s, x)
            if site is not None:
                self.store(s, n.c[0], site, n)
                return
            if x is not None and x.k in CALLS and ('#%d' % x.id) in s.err and key is not None:
                s.err[key] = s.err[('#%d' % x.id)]
                return
            if key is not None:
                s.err.pop(key, None)
                old = s.bind.get(key)
                if old is not None:
                    if old in s.tok and s.tok[old][2] == MINE and s.tok[old][1] == 'ok' \
                            and not any(v == old for kk, v in s.bind.items() if kk != key) \
                            and s.tok[old][0] not in BYVALUE:
                        kind, name, acq = self.sites[old]
                        self.report('released', acq, 'overwritten',
                                    'the %s from %s is overwritten before it was released' % (kind, name))
                    del s.bind[key]
            return
        if k == 'MemberExpr' and n.dk == 'field' and n.c and (n.c[0].t or '').rstrip().endswith('*'):
            site = self.site_of(s, n.c[0])
            if site is not None and s.tok.get(site, ('',))[0] not in BYVALUE:
                self.use(s, site, n, '.' + str(n.n))
            return
        if k == 'ReturnStmt' and n.c and n.c[0] is not None:
            for x in n.c[0].walk():
                if x.k in ('DeclRefExpr', 'MemberExpr'):
                    p = path(x)
                    site = s.bind.get(self.ps(p)) if p is not None else None
                    if site is not None and self.returned(x, n):
                        self.transfer(s, site, ESC)
                site = self.temps_site(s, x)
                if site is not None and self.returned(x, n):
                    self.transfer(s, site, ESC)
            return
        if k == 'LambdaExpr':
            for cp in n.a.get('cap', ()):
                v = cp.get('v')
                site = s.bind.get('v%d' % v) if v is not None else None
                if site is not None:
                    self.transfer(s, site, ESC)
            return
        if k == 'InitListExpr':
            for c in n.c:
                site = self.site_of(s, c) if c is not None else None
                if site is not None and (c.t or '').rstrip().endswith('*'):
                    self.into(s, site, n, n.t)

    def returned(self, x, ret):
        """is x (part of) the value a return statement hands on, not just an operand of a call?"""
        p = x.parent
        while p is not None and p is not ret:
            if p.k in CALLS and p.q not in ('std::move', 'std::forward'):
                return False
            if p.k == 'MemberExpr' or p.k == 'BinaryOperator' or (p.k == 'UnaryOperator' and p.op in ('!', '*')):
                return False
            if p.k in CTORS and not p.cm:
                t = bare(p.t)
                if not (t.startswith('std::expected<') or t.startswith('std::optional<')):
                    return False
            p = p.parent
        return p is ret

    def temps_site(self, s, x):
        if x is None or x.k not in CALLS and x.k != 'CXXNewExpr':
            return None
        return x.id if x.id in s.tok else None

    def value_site(self, s, x):
        """the object a value denotes: freshly acquired, or through a variable"""
        if x is None:
            return None
        t = self.temps_site(s, x)
        if t is not None:
            return t
        if x.k == 'CXXNewExpr':
            return self.new_site(s, x, 'new', 'new', False, None)
        if x.k == 'CXXMemberCallExpr' and x.n == 'release' and x.obj is not None and uptr_elem(x.obj.t)[0] is not None:
            return s.own.get('#rel%d' % x.id)
        if x.k == 'CXXMemberCallExpr' and x.n == 'get' and x.obj is not None and uptr_elem(x.obj.t)[0] is not None:
            p = path(x.obj)
            return s.own.get(self.ps(p)) if p is not None else None
        if x.k == 'ConditionalOperator':
            for c in x.c[1:]:
                t = self.value_site(s, strip_casts(c)) if c is not None else None
                if t is not None:
                    return t
            return None
        if x.k in ('DeclRefExpr', 'MemberExpr', 'UnaryOperator'):
            p = path(x)
            return s.bind.get(self.ps(p)) if p is not None else None
        return None

    def bind_value(self, s, key, t, i, n):
        x = strip_casts(i)
        if x is None:
            return
        if x.k in CTORS and (uptr_elem(x.t)[0] is not None or bare(x.t) in self.m.releasing):
            # the owner is this variable
            a = s.own.pop('#%d' % x.id, None)
            if a is not None:
                s.own[key] = a
            pr = s.pre.pop('#%d' % x.id, None)
            if pr is not None:
                s.pre[key] = pr
            return
        if x.k in CALLS and ('#%d' % x.id) in s.err:
            s.err[key] = s.err['#%d' % x.id]
            return
        site = self.value_site(s, x)
        if site is not None:
            if (t or '').rstrip().endswith('*') or x.id == site:
                self.rebind(s, key, site)
            elif self.m.is_holder(t):
                self.transfer(s, site, OWNED)
                s.own[key] = site

    def into(self, s, site, n, t, takes=True):
        """an object is put into a value of type t"""
        t = bare(t)
        if self.m.is_holder(t) or any(c in t for c in self.m.releasing):
            self.transfer(s, site, OWNED)
        # other values just refer to it

    def construct(self, s, n):
        m = self.m
        t = bare(n.t)
        el, de = uptr_elem(t)
        args = [c for c in n.c if c is not None]
        if el is not None and args and not n.cm:
            site = self.value_site(s, strip_casts(args[0]))
            if site is None and strip_casts(args[0]).k == 'UnaryOperator':
                site = self.site_of(s, args[0])
            if site is not None:
                k, nu, own = s.tok.get(site, (None, None, None))
                if own == OWNED:
                    kind, name, acq = self.sites[site]
                    self.report('released', n, 'owners|%s' % name, 'the %s from %s gets a second owner' % (kind, name))
                self.check_deleter(n, el, de, args, k, site)
                if nu == 'maybe' and k not in (None, 'new') and k not in BYVALUE:
                    # an owner of nothing is fine for unique_ptr: the deleter is not called for null
                    if k == 'mapping':
                        self.use(s, site, n, 'owner')
                self.transfer(s, site, OWNED)
                s.own['#%d' % n.id] = site
                self.attach(s, n, site)
            else:
                p = path(args[0])
                if p is not None and self.lhs_root_local(p) and strip_casts(args[0]).k == 'UnaryOperator':
                    s.pre[self.ps(p)] = 'o'
            return
        if n.cm:
            return
        takes = m.takes.get(n.f, ())
        for i, a in enumerate(args):
            site = self.value_site(s, strip_casts(a)) if strip_casts(a) is not None and strip_casts(a).k != 'CXXNewExpr' else None
            if site is None:
                continue
            if i in takes:
                self.transfer(s, site, OWNED)
                s.own['#%d' % n.id] = site
                self.attach(s, n, site)
            else:
                self.use_arg(s, site, a, n)

    def attach(self, s, n, site):
        """the variable or member an owning temporary initialises"""
        p = n.parent
        x = n
        while p is not None and (p.k in CTORS and p.cm or p.k in ('CXXFunctionalCastExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr',
                                                                  'MaterializeTemporaryExpr')):
            x, p = p, p.parent

    def check_deleter(self, n, el, de, args, kind, site):
        m = self.m
        want = kind
        if want is None:
            return
        name = self.sites[site][1] if site in self.sites else '?'
        if len(args) >= 2:
            r = fn_ref(args[1])
            if r is None:
                return
            kinds = {k for (_, k) in REL.get(r.q, ())} | {k for (_, k) in m.rel_params.get(r.f, ())}
            if want not in kinds:
                self.report('matching', n, 'deleter|%s|%s' % (r.n, name),
                            '%s is no function that releases the %s from %s' % (r.n, want, name))
        elif de.startswith('std::default_delete') or de in ('>', ''):
            if want != 'new':
                self.report('matching', n, 'default|%s' % name, 'the %s from %s would be released with delete' % (want, name))
        else:
            dt = bare(de.rstrip('>').strip())
            for f in m.by_cls.get(dt, ()):
                if f.n == 'operator()':
                    ks = set()
                    for x in all_nodes(f):
                        for (a, k) in m.rel_of(x) or ():
                            ks.add(k)
                    if ks and want not in ks:
                        self.report('matching', n, 'functor|%s' % name, '%s does not release the %s from %s' % (dt, want, name))
                    elif not ks:
                        self.report('matching', n, 'functor|%s' % name, '%s does not release anything' % dt)

    def use_arg(self, s, site, a, n):
        if site not in s.tok:
            return
        k = s.tok[site][0]
        if k in BYVALUE:
            if s.tok[site][2] == GONE:
                self.use(s, site, n, n.n or 'call')
            elif s.tok[site][1] == 'maybe':
                self.use(s, site, n, n.n or 'call')
            return
        g = callee(self.m.facts, n)
        if g is not None and s.tok[site][1] == 'maybe' and s.tok[site][2] != GONE:
            # the callee may look itself
            i = [j for j, c in enumerate(n.c) if c is a]
            if not i or i[0] >= len(g.params) or looks_at(g, g.params[i[0]]['v']):
                return
        self.use(s, site, n, n.n or 'call')

    def call(self, s, n):
        m = self.m
        q = n.q
        args = n.c
        if n.n == 'setjmp' or q in ('_setjmp', '__sigsetjmp'):
            return
        # ownership operations of smart pointers
        if n.k == 'CXXMemberCallExpr' and n.obj is not None and uptr_elem(n.obj.t)[0] is not None:
            p = path(n.obj)
            key = self.ps(p) if p is not None else None
            if n.n == 'release':
                site = s.own.pop(key, None) if key is not None else None
                if site is not None and site in s.tok and s.tok[site][2] == OWNED:
                    kk, nu, own = s.tok[site]
                    s.tok[site] = (kk, nu, MINE)
                    s.own['#rel%d' % n.id] = site
                return
            if n.n == 'reset':
                old = s.own.pop(key, None) if key is not None else None
                if old is not None and old in s.tok and s.tok[old][2] == OWNED:
                    kk, nu, own = s.tok[old]
                    s.tok[old] = (kk, nu, GONE)
                if args and args[0] is not None:
                    site = self.value_site(s, strip_casts(args[0]))
                    if site is not None:
                        if s.tok.get(site, (0, 0, 0))[2] == OWNED:
                            kind, name, acq = self.sites[site]
                            self.report('released', n, 'owners|%s' % name, 'the %s from %s gets a second owner' % (kind, name))
                        self.transfer(s, site, OWNED)
                        if key is not None:
                            s.own[key] = site
                return
        if n.k == 'CXXMemberCallExpr' and n.obj is not None:
            o = strip_casts(n.obj)
            g = callee(m.facts, n)
            if o is not None and o.k == 'CXXThisExpr' and g is not None and g.cls in m.releasing:
                for fld in m._fields_released(g, set()):
                    site = s.bind.get('this.' + fld)
                    if site is not None:
                        self.release(s, site, n, s.tok[site][0] if site in s.tok else None, g.n)
                return
        # releases
        r = m.rel_of(n)
        if r is not None:
            done = False
            groups = {}
            for (a, kind) in r:
                p = path(a)
                site = s.bind.get(self.ps(p)) if p is not None else None
                if site is None:
                    site = self.value_site(s, strip_casts(a))
                if site is not None:
                    groups.setdefault(site, set()).add(kind)
            for site, kinds in groups.items():
                own = s.tok.get(site, (None,))[0]
                self.release(s, site, n, own if own in kinds else sorted(kinds)[0], n.n)
            return
        # acquisition through the result
        ak = m.acq_kind(n)
        for a in args:
            if a is None:
                continue
            site = self.value_site(s, strip_casts(a)) if strip_casts(a) is not None and strip_casts(a).k not in CALLS and strip_casts(a).k != 'CXXNewExpr' else None
            if site is None:
                continue
            if q in OUT and args.index(a) == OUT[q][0]:
                continue
            if n.n in ('push_back', 'emplace_back', 'insert', 'emplace', 'try_emplace', 'insert_or_assign', 'push'):
                self.transfer(s, site, ESC)
                continue
            if n.f in m.takes and args.index(a) in m.takes[n.f]:
                self.transfer(s, site, OWNED)
                continue
            if q in ('std::make_unique', 'std::make_shared'):
                el, _ = uptr_elem(n.t)
                if el in m.releasing or any(el and c in el for c in m.releasing):
                    self.transfer(s, site, OWNED)
                    continue
            x = strip_casts(a)
            if x.k == 'UnaryOperator' and x.op == '&' and s.tok.get(site, ('',))[0] not in BYVALUE:
                self.transfer(s, site, ESC)
                continue
            self.use_arg(s, site, a, n)
        if ak is not None:
            self.new_site(s, n, ak[0], ak[1], ak[2], None)
            if n.q in RET or n.f in m.acq_ret:
                if self.unused(n):
                    self.report('released', n, 'dropped', 'the %s from %s is dropped' % (ak[0], ak[1]))
                    s.drop(n.id)
                elif self.into_call(n):
                    s.drop(n.id)
            return
        if q in OUT:
            i, kind, how = OUT[q]
            if i < len(args):
                p = path(args[i])
                key = self.ps(p) if p is not None else None
                if key is None:
                    return
                local = self.lhs_root_local(p) and not (len(p) > 1 and (self.locals[p[0][1]] or '').rstrip().endswith(('*', '&')))
                x = strip_casts(args[i])
                if not local or not (x.k == 'UnaryOperator' and x.op == '&'):
                    # through a pointer or reference: someone else's object
                    return
                had = key in s.pre
                site = self.new_site(s, n, kind, q, how is not None, None, 1 << 30)
                s.bind[key] = site
                if had:
                    self.transfer(s, site, OWNED)
                elif len(p) > 1 and self.holder_path(x.c[0]):
                    self.transfer(s, site, OWNED)
                if how is not None:
                    s.err['#%d' % n.id] = (site, how)

    @staticmethod
    def unused(n):
        p = n.parent
        while p is not None and p.k in ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr', 'ImplicitCastExpr',
                                        'CStyleCastExpr', 'CXXStaticCastExpr'):
            if p.t == 'void':
                return True
            p = p.parent
        return p is None or p.k in ('CompoundStmt', 'IfStmt', 'WhileStmt', 'ForStmt', 'CaseStmt', 'DefaultStmt')

    def into_call(self, n):
        """handed on, unnamed, to something whose effect on it is not followed"""
        p = n.parent
        x = n
        while p is not None and p.k in ('CStyleCastExpr', 'CXXStaticCastExpr', 'CXXReinterpretCastExpr', 'CXXFunctionalCastExpr'):
            x, p = p, p.parent
        if p is None:
            return False
        if p.k in CALLS and p.k != 'CXXOperatorCallExpr':
            return not self.m.rel_of(p)
        return p.k == 'InitListExpr'

    def dtor(self, s, v):
        key = 'v%d' % v
        site = s.own.pop(key, None)
        if site is not None and site in s.tok and s.tok[site][2] == OWNED:
            k, nu, own = s.tok[site]
            s.tok[site] = (k, nu, GONE)

    def exit(self, s, at_exit):
        if at_exit is not None:
            at_exit(s)
        for site, (k, nu, own) in s.tok.items():
            if own == MINE:
                kind, name, n = self.sites[site]
                self.report('released', n, 'leak',
                            'there is a path on which the %s from %s is neither released nor handed to an owner' % (kind, name))


def looks_at(g, v):
    """does the function test this parameter for null?"""
    if g.cfg is None:
        return True
    key = 'v%d' % v
    for b in g.cfg.blocks.values():
        c = branch_cond(b) if b.cond is not None else None
        if c is None:
            continue
        c, pol = split_not(c)
        for x in [c] + list(c.c or ()):
            if x is not None:
                p = path(x)
                if p is not None and pstr(p) == key:
                    return True
    return False


def interesting(m, f):
    if f.cfg is None or f.body is None:
        return False
    for n in all_nodes(f):
        if n.k in ('CXXNewExpr', 'CXXDeleteExpr'):
            return True
        if n.k in CALLS and (n.q in RET or n.q in OUT or n.f in m.acq_ret or m.rel_of(n) is not None):
            return True
    return False


def run(facts, r):
    r.rule('released', 'on every path an acquired object is released exactly once or handed to one owner', 20)
    r.rule('use', 'an acquired object is used only after its acquisition is known to have succeeded and before its release', 12)
    r.rule('matching', 'an object is released by a function made for its kind', 15)
    r.rule('owners', 'a class that releases what it holds does so on every path, once, and is not copied', 2)
    r.rule('handles', 'a C handle is deleted, on every path of its destroy function, as the type it was created with', 30)
    r.rule('order', 'members that hold font faces are destroyed before the FreeType library', 1)
    m = Model(facts)
    for f in m.fns:
        if not interesting(m, f):
            continue
        out = {}
        w = Walker(m, f, out)
        init = None
        if f.dtor or (f.cls in m.releasing and not f.ctor):
            init = State()
            for fld, kind in m.releasing.get(f.cls, {}).items():
                site = -1 - sorted(m.releasing[f.cls]).index(fld)
                init.tok[site] = (kind, 'maybe', 'param')
                init.bind['this.' + fld] = site
                w.sites[site] = (kind, 'member ' + fld, f.body)
        w.run(init)
        emit(r, m, f, w, out)
    owners(facts, m, r)
    handles(facts, m, r)
    order(facts, m, r)


def emit(r, m, f, w, out):
    badsites = {}
    for (rule, nid, what), (n, msg) in out.items():
        badsites.setdefault(rule, []).append((n, what, msg))
    for rule in ('released', 'use', 'matching'):
        for (n, what, msg) in sorted(badsites.get(rule, ()), key=lambda x: (x[0].l or 0, x[1])):
            r.bad(rule, n.loc, f, what, msg)
    bad_r = {nid for (rule, nid, what) in out if rule == 'released'}
    for site, (kind, name, n) in w.sites.items():
        if site < 0:
            continue
        if n.id not in bad_r:
            r.ok('released', '%s %s: %s' % (n.loc, name, kind), f)
    bad_u = {nid for (rule, nid, what) in out if rule == 'use'}
    for (site, nid) in w.uses:
        if nid not in bad_u:
            r.ok('use', '%s %s of the %s' % (f.loc, f.n, w.sites[site][0] if site in w.sites else '?'), f)
    for (site, nid) in w.rels:
        r.ok('matching', '%s %s releases the %s' % (f.loc, f.n, w.sites[site][0] if site in w.sites else '?'), f)


def owners(facts, m, r):
    """classes with a releasing destructor"""
    for cls, fields in sorted(m.releasing.items()):
        if not any(rel(f.file).startswith('src/') for f in m.by_cls.get(cls, ())):
            continue
        d = [f for f in m.by_cls[cls] if f.dtor]
        # 1. destructor: on every path each field is released or null
        for f in d:
            missing = {}
            if f.cfg is None:
                continue
            if not direct(m, f, fields):
                r.count('destructors that are not followed')
                continue
            miss = dtor_paths(m, f, fields)
            if miss:
                for fld in sorted(miss):
                    r.bad('owners', f.loc, f, 'dtor|' + fld, 'there is a path of the destructor on which %s is not released' % fld)
            else:
                r.ok('owners', '%s %s releases %s' % (f.loc, cls.split('::')[-1], ', '.join(sorted(fields))), f)
        # 2. copies
        for f in m.fns:
            for n in all_nodes(f):
                if n.k in CTORS and n.cm == 'copy' and bare(n.t) == cls:
                    r.bad('owners', n.loc, f, 'copy|' + cls.split('::')[-1],
                          'a %s is copied: both copies would release the same object' % cls.split('::')[-1])
                if n.k in CTORS and n.cm == 'move' and bare(n.t) == cls and n.dft and raw_fields(facts, cls, fields):
                    r.bad('owners', n.loc, f, 'move|' + cls.split('::')[-1],
                          'a %s is moved by a defaulted constructor, which leaves the object in the source, too' % cls.split('::')[-1])
        # 3. moves clear their source
        for f in m.by_cls[cls]:
            mv = [p for p in f.params if (p['t'] or '').replace('const ', '').strip() == cls + ' &&']
            if not mv or not (f.ctor or f.n == 'operator=') or f.body is None:
                continue
            pv = mv[0]['v']
            for fld in sorted(fields):
                if not raw_fields(facts, cls, {fld}):
                    continue
                if takes_field(f, pv, fld) and not clears_field(f, pv, fld):
                    r.bad('owners', f.loc, f, 'movesrc|' + fld, 'the object is taken out of %s of the source, which keeps it, too' % fld)
                else:
                    r.ok('owners', '%s move of %s' % (f.loc, fld), f)
    # copyable owners that are held by value
    for cls in sorted(m.releasing):
        rec = facts.records.get(cls)
        if rec is None or not rec.get('copyable'):
            continue
        for q, rc in facts.records.items():
            for x in rc['fields']:
                if bare(x['t']) == cls and rc.get('copyable'):
                    for f in m.fns:
                        for n in all_nodes(f):
                            if n.k in CTORS and n.cm in ('copy', 'move') and bare(n.t) == q:
                                r.bad('owners', n.loc, f, 'copy|' + q.split('::')[-1],
                                      'a %s is copied with the %s in it: both would release the same object' % (
                                          q.split('::')[-1], cls.split('::')[-1]))


def raw_fields(facts, cls, fields):
    rec = facts.records.get(cls)
    if rec is None:
        return False
    return any(x['n'] in fields and x['tk'] == 'pointer' for x in rec['fields'])


def takes_field(f, pv, fld):
    for n in all_nodes(f):
        if n.k == 'MemberExpr' and n.n == fld:
            p = path(n)
            if p == (('v', pv), fld):
                return True
    return False


def clears_field(f, pv, fld):
    for n in all_nodes(f):
        if n.k == 'BinaryOperator' and n.op == '=' and path(n.c[0]) == (('v', pv), fld):
            return True
        if n.k in CALLS and n.q in ('std::exchange', 'std::swap') and any(path(c) == (('v', pv), fld) for c in n.c if c is not None):
            return True
    return False


def direct(m, f, fields):
    return True


def dtor_paths(m, f, fields, depth=0):
    """fields that some path of this function neither releases nor finds empty"""
    out = {}
    w = Walker(m, f, out)
    init = State()
    names = sorted(fields)
    for i, fld in enumerate(names):
        init.tok[-1 - i] = (fields[fld], 'maybe', 'param')
        init.bind['this.' + fld] = -1 - i
        w.sites[-1 - i] = (fields[fld], 'member ' + fld, f.body)
    miss = set()

    def at_exit(s):
        for i, fld in enumerate(names):
            t = s.tok.get(-1 - i)
            if t is not None and t[2] == 'param':
                miss.add(fld)
    # calls of own methods release only when all their paths do
    if depth < 4:
        orig = w.call

        def call(s, n):
            if n.k == 'CXXMemberCallExpr' and n.obj is not None:
                o = strip_casts(n.obj)
                g = callee(m.facts, n)
                if o is not None and o.k == 'CXXThisExpr' and g is not None and g.cfg is not None:
                    sub = m._fields_released(g, set())
                    if sub:
                        mi = dtor_paths(m, g, {k: v for k, v in fields.items() if k in sub}, depth + 1)
                        for i, fld in enumerate(names):
                            if fld in sub and fld not in mi and (-1 - i) in s.tok:
                                k, nu, own = s.tok[-1 - i]
                                s.tok[-1 - i] = (k, nu, GONE)
                        return
            orig(s, n)
        w.call = call
    w.run(init, at_exit)
    return miss


def handles(facts, m, r):
    """creation type and deletion type of every opaque C type"""
    made = {}
    dele = {}
    for f in m.fns:
        if not f.externc:
            continue
        for p in f.params:
            t = (p['t'] or '').strip()
            if t.endswith('**'):
                h = t[:-2].replace('const', '').strip()
                for n in all_nodes(f):
                    if n.k == 'BinaryOperator' and n.op == '=' and deref_lhs(n.c[0]) and path(n.c[0]) == (('v', p['v']),):
                        ty = created(m, f, n.c[1])
                        if ty:
                            made.setdefault(h, {}).setdefault(ty, []).append((f, n))
            elif t.endswith('*') and f.body is not None:
                h = t[:-1].replace('const', '').strip()
                ds = [n for n in all_nodes(f) if n.k == 'CXXDeleteExpr' and n.c and deleted_param(f, n) == p['v']]
                for n in ds:
                    dele.setdefault(h, []).append((f, n, p))
    for h, l in sorted(dele.items()):
        for (f, n, p) in l:
            dt = bare(n.c[0].t).rstrip('* ').strip() if not n.at else bare(n.at).rstrip('* ').strip()
            ts = made.get(h, {})
            wrong = sorted(t for t in ts if t != dt)
            if wrong:
                r.bad('handles', n.loc, f, 'type|' + h, 'a %s made as %s is deleted as %s' % (h, wrong[0].split('::')[-1], dt.split('::')[-1]))
            else:
                r.ok('handles', '%s %s deletes %s' % (n.loc, f.n, dt.split('::')[-1]), f)
            paths(m, f, p, n, r)
    for h in sorted(made):
        if h not in dele:
            for ty, l in made[h].items():
                f, n = l[0]
                r.bad('handles', n.loc, f, 'never|' + h, 'no C function deletes a %s' % h)


def deleted_param(f, n):
    x = n.c[0]
    p = path(x)
    if p is not None and len(p) == 1 and p[0][0] == 'v':
        v = p[0][1]
        # through a local copy
        for d in all_nodes(f):
            if d.k == 'DeclStmt':
                for q in d.a.get('d', ()):
                    if q['v'] == v and q.get('i') is not None:
                        pp = path(q['i'])
                        if pp is not None and len(pp) == 1 and pp[0][0] == 'v':
                            return pp[0][1]
        return v
    return None


def paths(m, f, p, dn, r):
    """the destroy function deletes its argument on every path that reports success"""
    out = {}
    w = Walker(m, f, out)
    init = State()
    init.tok[-1] = ('new', 'maybe', 'param')
    init.bind['v%d' % p['v']] = -1
    w.sites[-1] = ('new', 'parameter ' + p['n'], dn)
    miss = []

    def at_exit(s):
        t = s.tok.get(-1)
        if t is not None and t[2] == 'param':
            miss.append(1)
    w.run(init, at_exit)
    twice = [k for k in out if k[0] == 'released' and k[2].startswith('twice')]
    if twice:
        r.bad('handles', dn.loc, f, 'twice', 'the object can be deleted twice')
    if miss:
        r.bad('handles', dn.loc, f, 'path', 'there is a path on which the object is not deleted')


def created(m, f, rhs):
    """type of the object behind a created handle"""
    x = rhs
    seen = 0
    while x is not None and seen < 20:
        seen += 1
        x0 = strip_casts(x)
        if x0 is None:
            return None
        if x0.k == 'CXXNewExpr':
            return bare(x0.t).rstrip('* ').strip()
        if x0.k == 'DeclRefExpr' and x0.dk == 'local':
            for d in all_nodes(f):
                if d.k == 'DeclStmt':
                    for q in d.a.get('d', ()):
                        if q['v'] == x0.v and q.get('i') is not None and not q.get('ref'):
                            x = q['i']
                            break
                    else:
                        continue
                    break
            else:
                return None
            continue
        if (x0.t or '').rstrip().endswith('*'):
            t = bare(x0.t).rstrip('* ').strip()
            return None if t in ('void', '') else t
        return None
    return None


def order(facts, m, r):
    """FreeType library outlives the faces"""
    face = {}

    def has_face(t, seen):
        t = bare(t)
        if 'unique_ptr<FT_FaceRec_' in t or 'shared_ptr<FT_FaceRec_' in t:
            return True
        for q, rc in facts.records.items():
            if q in seen:
                continue
            if q in t and (t == q or ('<' + q) in t or (' ' + q) in t or (', ' + q) in t):
                if any(has_face(x['t'], seen | {q}) for x in rc['fields']):
                    return True
        return False
    for q, rc in sorted(facts.records.items()):
        fl = rc['fields']
        libs = [i for i, x in enumerate(fl) if 'unique_ptr<FT_LibraryRec_' in bare(x['t'])]
        if not libs:
            continue
        faces = [i for i, x in enumerate(fl) if i not in libs and has_face(x['t'], {q})]
        for i in faces:
            name = fl[i]['n']
            where = '%s:%d' % (rel(rc['file']), fl[i]['l'])
            if i > libs[0]:
                r.ok('order', '%s %s is destroyed before %s' % (where, name, fl[libs[0]]['n']), q)
                continue
            # the destructor may empty it first
            ok = False
            for f in m.by_cls.get(q, ()):
                if f.dtor and f.body is not None:
                    for n in all_nodes(f):
                        if n.k == 'CXXMemberCallExpr' and n.n == 'clear' and n.obj is not None:
                            p = path(n.obj)
                            if p is not None and len(p) >= 2 and p[0] == ('this',) and p[1] == name and has_face(n.obj.t, {q}):
                                ok = True
                        if n.k == 'CXXMemberCallExpr' and n.n == 'reset' and n.obj is not None:
                            p = path(n.obj)
                            if p is not None and p[:2] == (('this',), name):
                                ok = True
            if ok:
                r.ok('order', '%s %s is emptied by the destructor' % (where, name), q)
            else:
                r.bad('order', where, q, 'faces|' + name, 'the FreeType library is released before the faces in %s are closed' % name)
