"""Builds the extractor, runs it over /repo's current sources and loads the result.

The extractor (tool/extract.cpp) is a libclang-cpp program: what it writes is clang's resolved view
of every function defined in the repository (calls resolved to declarations, types, constant
values, template instantiations, lambdas, clang::CFG).  Nothing here executes repository code.
"""
import hashlib, json, os, pickle, re, subprocess, sys, tempfile, shutil, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CAPYLINT_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')

SKIP_TUS = {'cff_fuzz.cpp', 'ttf_fuzz.cpp'}


class AnalysisBroken(Exception):
    """The analysis could not be carried out (not: the property is violated)."""


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def _read(p):
    with open(p, 'rb') as f:
        return f.read()


def build_tool():
    src = os.path.join(VERIF, 'tool', 'extract.cpp')
    key = _sha(_read(src))
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, 'capyextract-' + key)
    if os.path.exists(exe):
        return exe
    tmp = exe + '.tmp%d' % os.getpid()
    cmd = ['/usr/bin/clang++-18', '-std=c++17', '-O0', '-fno-rtti', '-I/usr/lib/llvm-18/include', src, '-o', tmp,
           '/usr/lib/llvm-18/lib/libclang-cpp.so.18.1', '-L/usr/lib/llvm-18/lib', '-lLLVM-18']
    if not os.path.exists(cmd[0]):
        cmd[0] = 'clang++-18'
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisBroken('cannot build the extractor:\n' + r.stderr[-3000:])
    os.rename(tmp, exe)
    return exe


def make_header(dst):
    """capypdf.h is generated by meson; generate our own copy from the current template."""
    txt = _read(os.path.join(REPO, 'include', 'capypdf.h.in')).decode()
    out = []
    for line in txt.split('\n'):
        m = re.match(r'\s*#\s*mesondefine\s+(\w+)', line)
        if m:
            n = m.group(1)
            if n.endswith('_STR'):
                line = '#define %s "0.0.0"' % n
            elif 'STATIC' in n:
                line = '/* #undef %s */' % n
            else:
                line = '#define %s 0' % n
        out.append(line)
    with open(dst, 'w') as f:
        f.write('\n'.join(out))


def library_tus():
    d = os.path.join(REPO, 'src')
    return sorted(f for f in os.listdir(d) if f.endswith('.cpp') and f not in SKIP_TUS)


def pkg_includes():
    # the directories the build uses for its dependencies
    inc = []
    for d in ('/usr/include/libpng16', '/usr/include/x86_64-linux-gnu', '/usr/include/webp', '/usr/include/freetype2'):
        inc.append('-I' + d)
    return inc


def source_key():
    parts = [REPO]
    for sub in ('src', 'include'):
        base = os.path.join(REPO, sub)
        for root, dirs, files in os.walk(base):
            dirs.sort()
            for f in sorted(files):
                if f.endswith(('.cpp', '.hpp', '.h', '.in')):
                    p = os.path.join(root, f)
                    parts.append(os.path.relpath(p, REPO))
                    parts.append(_read(p))
    parts.append(_read(os.path.join(VERIF, 'tool', 'extract.cpp')))
    parts.append(_read(os.path.abspath(__file__)))
    return _sha(*parts)


class Node:
    __slots__ = ('id', 'k', 'l', 't', 'c', 'a', 'parent', 'fn')

    def __getattr__(self, n):
        # attributes from JSON
        if n.startswith('__'):
            raise AttributeError(n)
        return self.a.get(n)

    def __repr__(self):
        return '<%s %s@%s>' % (self.k, self.a.get('q') or self.a.get('n') or self.a.get('op') or '', self.l)

    def __getstate__(self):
        return (self.id, self.k, self.l, self.t, self.c, self.a, self.parent, self.fn)

    def __setstate__(self, s):
        self.id, self.k, self.l, self.t, self.c, self.a, self.parent, self.fn = s

    def kids(self):
        """all direct sub-nodes (children, object argument, initialisers)"""
        a = self.a
        if 'obj' in a and a['obj'] is not None:
            yield a['obj']
        if 'fe' in a and a['fe'] is not None:
            yield a['fe']
        for x in self.c:
            if x is not None:
                yield x
        for d in a.get('d', ()):
            if d.get('i') is not None:
                yield d['i']
            for b in d.get('bind', ()):
                if b.get('e') is not None:
                    yield b['e']
        for x in a.get('x', ()):
            if x is not None:
                yield x
        for cp in a.get('cap', ()):
            if cp.get('i') is not None:
                yield cp['i']

    def walk(self):
        st = [self]
        while st:
            n = st.pop()
            yield n
            k = list(n.kids())
            k.reverse()
            st.extend(k)

    def cvi(self):
        v = self.a.get('cv')
        return None if v is None else int(v)

    @property
    def loc(self):
        return '%s:%s' % (rel(self.fn.file), self.l)

    def is_call(self):
        return self.k in CALLS

    def args(self):
        """explicit arguments (member-operator calls: operands after the object)"""
        return [x for x in self.c if x is not None]


CALLS = {'CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'UserDefinedLiteral'}
CTORS = {'CXXConstructExpr', 'CXXTemporaryObjectExpr'}


class Block:
    __slots__ = ('i', 'e', 'term', 'tk', 'cond', 'lab', 'succs', 'preds', 'nr')


class Fn:
    def __init__(self):
        self.nodes = {}
        self.cfg = None
        self._alias = None

    def __repr__(self):
        return '<Fn %s>' % self.q

    @property
    def loc(self):
        return '%s:%s' % (rel(self.file), self.l)

    @property
    def body_nodes(self):
        return self.body.walk() if self.body is not None else iter(())

    def param(self, name):
        for p in self.params:
            if p['n'] == name:
                return p
        return None


class CFG:
    pass


def rel(p):
    p = os.path.normpath(p)
    if p.startswith(REPO + '/'):
        return p[len(REPO) + 1:]
    return os.path.basename(p) if '/capyinc/' in p else p


class Facts:
    def __init__(self):
        self.fns = {}        # key -> Fn (definitions)
        self.by_q = {}       # qualified name -> [Fn]
        self.decls = {}      # key -> list of decl dicts
        self.records = {}    # qualified -> dict
        self.enums = {}      # qualified or typedef name -> dict
        self.globals = []    # dicts, with 'var' holding Node inits
        self.tus = []

    def fn(self, q):
        """definition by qualified name; unique"""
        l = self.by_q.get(q, [])
        return l[0] if len(l) == 1 else (l[0] if l else None)

    def fns_named(self, q):
        return self.by_q.get(q, [])


def _mk(js, types, fn):
    """JSON tree -> Node tree"""
    if js is None:
        return None
    n = Node()
    n.fn = fn
    n.parent = None
    n.id = js.pop('id')
    n.k = js.pop('k')
    n.l = js.pop('l')
    t = js.pop('t', None)
    n.t = types[t] if t is not None and t >= 0 else None
    for key in ('at', 'tt', 'ic', 'ct'):
        if key in js and isinstance(js[key], int):
            js[key] = types[js[key]] if js[key] >= 0 else None
    c = js.pop('c', None) or []
    n.c = [_mk(x, types, fn) for x in c]
    for x in n.c:
        if x is not None:
            x.parent = n
    for key in ('obj', 'fe'):
        if key in js:
            js[key] = _mk(js[key], types, fn)
            if js[key] is not None:
                js[key].parent = n
    if 'd' in js:
        for d in js['d']:
            _mkvar(d, types, fn, n)
    if 'x' in js:
        js['x'] = [_mk(x, types, fn) for x in js['x']]
        for x in js['x']:
            if x is not None:
                x.parent = n
    if 'cap' in js:
        for cp in js['cap']:
            if 'i' in cp:
                cp['i'] = _mk(cp['i'], types, fn)
                if cp['i'] is not None:
                    cp['i'].parent = n
    n.a = js
    if fn is not None:
        fn.nodes[n.id] = n
    return n


def _mkvar(d, types, fn, parent):
    d['t'] = types[d['t']] if d['t'] >= 0 else None
    if 'i' in d:
        d['i'] = _mk(d['i'], types, fn)
        if d['i'] is not None:
            d['i'].parent = parent
    for b in d.get('bind', ()):
        b['t'] = types[b['t']] if b['t'] >= 0 else None
        if 'e' in b:
            b['e'] = _mk(b['e'], types, fn)
            if b['e'] is not None:
                b['e'].parent = parent


def _load_one(path, tu, facts):
    with open(path) as f:
        js = json.load(f)
    types = js['types']
    for jf in js['functions']:
        if jf['f'] in facts.fns:
            continue
        fn = Fn()
        fn.key = jf['f']
        fn.q = jf['q']
        fn.n = jf['n']
        fn.file = jf['file']
        fn.l = jf['l']
        fn.le = jf['le']
        fn.rt = types[jf['rt']]
        fn.rts = jf['rts']
        fn.tu = tu
        fn.nothrow = bool(jf.get('nt'))
        fn.externc = bool(jf.get('ec'))
        fn.dep = bool(jf.get('dep'))
        fn.inst = bool(jf.get('inst'))
        fn.internal = bool(jf.get('internal'))
        fn.ctor = bool(jf.get('ctor'))
        fn.dtor = bool(jf.get('dtor'))
        fn.is_lambda = bool(jf.get('lambda'))
        fn.cls = jf.get('cls')
        fn.const = bool(jf.get('cst'))
        fn.static = bool(jf.get('sta'))
        fn.access = jf.get('acc')
        fn.noreturn = bool(jf.get('nr'))
        fn.conv = bool(jf.get('conv'))
        fn.params = jf['p']
        for p in fn.params:
            p['t'] = types[p['t']]
        fn.inits = []
        for i in jf.get('inits', ()):
            i['i'] = _mk(i.get('i'), types, fn)
            fn.inits.append(i)
        fn.body = _mk(jf['body'], types, fn)
        if 'cfg' in jf:
            fn.cfg = _mkcfg(jf['cfg'], fn)
        facts.fns[fn.key] = fn
        facts.by_q.setdefault(fn.q, []).append(fn)
    for d in js['decls']:
        l = facts.decls.setdefault(d['f'], [])
        if any(x['file'] == d['file'] and x['l'] == d['l'] for x in l):
            continue
        d['rt'] = types[d['rt']]
        for p in d['p']:
            p['t'] = types[p['t']]
        l.append(d)
    for r in js['records']:
        if r['q'] in facts.records:
            continue
        r['t'] = types[r['t']]
        for f in r['fields']:
            f['t'] = types[f['t']]
            if 'i' in f:
                f['i'] = _mk(f['i'], types, None)
        facts.records[r['q']] = r
    for e in js['enums']:
        name = e.get('td') or e['q']
        if name not in facts.enums:
            facts.enums[name] = e
    known = {(g['q'], g['file'], g['var']['l']) for g in facts.globals}
    for g in js['globals']:
        if (g['q'], g['file'], g['var']['l']) in known:
            continue
        holder = Fn()
        holder.key = 'global:' + g['q']
        holder.q = g['q']
        holder.n = g['q']
        holder.file = g['file']
        holder.l = g['var']['l']
        _mkvar(g['var'], types, holder, None)
        g['tu'] = tu
        facts.globals.append(g)
    facts.tus.append(tu)


def _mkcfg(jc, fn):
    cfg = CFG()
    cfg.entry = jc['entry']
    cfg.exit = jc['exit']
    cfg.blocks = {}
    for jb in jc['b']:
        b = Block()
        b.i = jb['i']
        b.e = []
        seen = set()
        for e in jb['e']:
            if isinstance(e, int):
                if e in seen:
                    continue
                seen.add(e)
                nd = fn.nodes.get(e)
                if nd is not None:
                    b.e.append(nd)
            else:
                b.e.append(tuple(e))
        b.term = fn.nodes.get(jb['t']) if 't' in jb else None
        b.tk = jb.get('tk')
        b.cond = fn.nodes.get(jb['c']) if 'c' in jb and jb['c'] >= 0 else None
        b.lab = fn.nodes.get(jb['lab']) if 'lab' in jb else None
        b.nr = bool(jb.get('nr'))
        b.succs = jb['s']
        b.preds = []
        cfg.blocks[b.i] = b
    for b in cfg.blocks.values():
        for s in b.succs:
            if s >= 0:
                cfg.blocks[s].preds.append(b.i)
    return cfg


def compile_flags(inc):
    return ['-D__cpp_concepts=202002L', '-Wno-builtin-macro-redefined', '-w', '-std=c++23', '-I' + inc,
            '-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(REPO, 'include')] + pkg_includes() + [
                '-fvisibility=hidden', '-D_GLIBCXX_ASSERTIONS=1', '-D_FILE_OFFSET_BITS=64', '-DBUILDING_CAPYPDF',
                '-resource-dir', '/usr/lib/llvm-18/lib/clang/18']


def load(verbose=False):
    sys.setrecursionlimit(20000)
    key = source_key()
    os.makedirs(BUILD, exist_ok=True)
    cache = os.path.join(BUILD, 'facts-%s.pickle' % key)
    if os.path.exists(cache) and not os.environ.get('CAPYLINT_NOCACHE'):
        try:
            with open(cache, 'rb') as f:
                return pickle.load(f)
        except Exception:
            pass
    exe = build_tool()
    tmp = tempfile.mkdtemp(prefix='capylint-')
    try:
        inc = os.path.join(tmp, 'capyinc')
        os.makedirs(inc)
        make_header(os.path.join(inc, 'capypdf.h'))
        with open(os.path.join(tmp, 'hpp_probe.cpp'), 'w') as f:
            f.write('#include <capypdf.hpp>\n')
        flags = compile_flags(inc)
        jobs = [(f, os.path.join(REPO, 'src', f)) for f in library_tus()]
        jobs.append(('hpp_probe.cpp', os.path.join(tmp, 'hpp_probe.cpp')))

        def one(j):
            out = os.path.join(tmp, j[0] + '.json')
            r = subprocess.run([exe, out, REPO + '/src:' + REPO + '/include:' + inc, j[1], '--'] + flags,
                               capture_output=True, text=True, cwd=tmp)
            if r.returncode != 0 or not os.path.exists(out):
                raise AnalysisBroken('extraction of %s failed:\n%s' % (j[0], r.stderr[-3000:]))
            return j[0], out
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, jobs))
        facts = Facts()
        for tu, out in res:
            _load_one(out, tu, facts)
        facts.source_key = key
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    t = cache + '.tmp%d' % os.getpid()
    try:
        old = [f for f in os.listdir(BUILD) if f.startswith('facts-') and f.endswith('.pickle')]
        old.sort(key=lambda f: os.path.getmtime(os.path.join(BUILD, f)))
        for f in old[:-6]:
            os.unlink(os.path.join(BUILD, f))
        with open(t, 'wb') as f:
            pickle.dump(facts, f, protocol=pickle.HIGHEST_PROTOCOL)
        os.rename(t, cache)
    except OSError:
        pass
    return facts


if __name__ == '__main__':
    t0 = time.time()
    f = load()
    print('%d functions, %d records, %d enums, %d globals, %.1fs' % (len(f.fns), len(f.records), len(f.enums),
                                                                    len(f.globals), time.time() - t0))
