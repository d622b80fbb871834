"""P19: the Python module calls the library the way its C prototypes ask for."""
import ast
import builtins
import difflib
import os
import re
from ..facts import AnalysisBroken, REPO, rel
from ..origins import clean
from .. import pysym

META = {
    'title': 'The Python module calls the C functions as they are declared',
    'statement': 'Every call the Python module makes into the library names an existing function, the one for that class and method, and gives '
                 'it the arguments of the C prototype in number, order and kind: enumeration members as the number the C enumerator has, ids by '
                 'value and of the right type, strings as bytes followed by the length of those bytes, lists as arrays of the right element type '
                 'and size, flags with their truth value, numbers declared with the C type. Failures are raised as exceptions, results come back '
                 'from the output arguments in order and in the right wrapper, no name is undefined, and every object is released by exactly its own '
                 'destroy function. Context managers close what they opened.',
    'over': ['programs', 'inputs'],
    'qtext': 'every path through every function of the Python module, whatever the arguments',
    'why': 'The foreign function interface checks nothing: a wrong type, order or name shows up as a garbage number, a crash or a NameError '
           'only in the method that has it, and tests call about half of the methods with one set of values.',
    'files': ['python/capypdf.py', 'include/capypdf.h.in', 'src/capi.cpp'],
    'mechanism': [('cfunc_types', 'python/capypdf.py'), ('to_array, to_bytepath, check_error', 'python/capypdf.py'),
                  ('enumerations and id structures', 'python/capypdf.py'), ('C prototypes', 'src/capi.cpp')],
    'technique': 'symbolic reading of every path of every Python function from the syntax tree; the recorded library calls are checked against '
                 'the C prototypes and enumerations extracted by clang',
    'level_note': 'Values that the reader cannot follow are counted as unverified, not reported.',
}

INTS = {'c_int32', 'c_int', 'c_uint32', 'c_uint', 'c_int64', 'c_uint64', 'c_long', 'c_ulong', 'c_size_t', 'c_longlong', 'c_ulonglong', 'c_ssize_t'}
WIDE = {'c_int64', 'c_uint64', 'c_long', 'c_ulong', 'c_size_t', 'c_longlong', 'c_ulonglong', 'c_ssize_t'}
LENGTHS = {('capy_type3_shading_new', 1): 6, ('capy_type4_shading_add_triangle', 1): 6, ('capy_type4_shading_add_triangle', 2): 3,
           ('capy_type4_shading_extend', 2): 2, ('capy_type6_shading_add_patch', 1): 24, ('capy_type6_shading_add_patch', 2): 4,
           ('capy_type6_shading_extend', 2): 16, ('capy_type6_shading_extend', 3): 2}
ALIAS = {'noending': 'none', 'ropenareow': 'ropenarrow', 'doubledpt': 'doubledot', 'inverteddoublddot': 'inverteddoubledot',
         'projectionsquare': 'projection', 'commtonselchange': 'commitonselchange', 'nothing': 'none', 'automatic': 'auto', 'not': 'none',
         'u3d': 'udf', 'flatedecode': 'deflate'}
MATRIX = {'translate': (1, 0, 0, 1, 'p0', 'p1'), 'scale': ('p0', 0, 0, 'p1', 0, 0), 'rotate': ('cos', 'sin', '-sin', 'cos', 0, 0)}


def norm(s):
    return re.sub(r'[^a-z0-9]', '', s.lower())


class Proto:
    def __init__(self, f):
        self.f = f
        self.n = f.n
        ps = f.params
        self.kinds = []
        for i, p in enumerate(ps):
            t = clean(p['t']).strip()
            raw = p['t']
            nx = ps[i + 1] if i + 1 < len(ps) else None
            sized = nx is not None and re.search(r'size$|len$|^num_values$', nx['n']) is not None and clean(nx['t']) in (
                'int', 'unsigned int', 'unsigned long', 'long')
            st = raw.count('*')
            base = re.sub(r'\bconst\b', '', raw).replace('*', '').strip()
            if st == 0:
                if base == 'double' or base == 'float':
                    k = ('double',)
                elif re.match(r'CapyPDF_\w+Id$', base):
                    k = ('id', base)
                elif base.startswith('CapyPDF_'):
                    k = ('enum', base)
                elif base in ('unsigned long', 'long', 'size_t', 'unsigned long long'):
                    k = ('long',)
                else:
                    k = ('int',)
            elif base == 'char' and st == 1:
                k = ('bytes', sized)
            elif base.startswith('_capyPDF_') and st == 2 and 'const' in raw:
                k = ('handles', base, sized)
            elif base.startswith('_capyPDF_') and st == 2:
                k = ('out', ('handle', base))
            elif base.startswith('_capyPDF_'):
                k = ('handle', base)
            elif st == 1 and (p['n'] == 'out_ptr' or self.n.split('_')[-2:-1] == ['get'] or '_get_' in self.n):
                k = ('out', ('id', base) if re.match(r'CapyPDF_\w+Id$', base) else ('enum', base) if base.startswith('CapyPDF_') else (base,))
            else:
                k = ('array', base, sized)
            self.kinds.append(k)

    def size_of(self, i):
        """is parameter i the size of the one before?"""
        return i > 0 and self.kinds[i - 1][0] in ('bytes', 'array', 'handles') and self.kinds[i - 1][-1] is True


def roots(v, out=None):
    """parameters a value is made from"""
    out = set() if out is None else out
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == 'p':
            out.add(v[1])
        else:
            for x in v:
                roots(x, out)
    return out


def has(v, w):
    return v == w or isinstance(v, tuple) and any(has(x, w) for x in v)


def has_top(v):
    return isinstance(v, tuple) and (v == ('top',) or any(has_top(x) for x in v))


class P19:
    def __init__(self, facts, r):
        self.r = r
        self.facts = facts
        self.path = os.path.join(REPO, 'python', 'capypdf.py')
        if not os.path.exists(self.path):
            raise AnalysisBroken('python/capypdf.py is not there')
        try:
            self.m = pysym.Module(self.path)
        except SyntaxError as e:
            raise AnalysisBroken('python/capypdf.py does not parse: %s' % e)
        self.protos = {}
        for f in facts.fns.values():
            if f.n.startswith('capy_') and f.file.endswith('capi.cpp') and f.body is not None and not f.cls:
                self.protos[f.n] = Proto(f)
        if len(self.protos) < 50:
            raise AnalysisBroken('only %d C functions found' % len(self.protos))
        self.enums = {}
        for k, e in facts.enums.items():
            for nm in (e.get('td'), e['q']):
                if nm and nm.startswith('CapyPDF_'):
                    self.enums[nm] = e
        self.declared = self.declarations()
        self.map = {}      # Python class -> C enumeration
        self.evals = {}
        self.H = {}

    def where(self, n):
        return '%s:%d' % (rel(self.path), n.lineno)

    def idtype(self, c):
        return 'CapyPDF_' + c.replace('ThreeD', '3D')

    # -- argument type declarations
    def declarations(self):
        out = {}
        ev = pysym.Eval(self.m, None, None)
        for n in ast.walk(self.m.tree):
            pairs = []
            if isinstance(n, (ast.Tuple, ast.List)) and len(n.elts) == 2 and isinstance(n.elts[0], ast.Constant) and isinstance(
                    n.elts[0].value, str) and n.elts[0].value.startswith('capy_'):
                pairs = [(n.elts[0].value, n.elts[1], n)]
            elif isinstance(n, ast.Dict):
                pairs = [(k.value, v, k) for k, v in zip(n.keys, n.values) if isinstance(k, ast.Constant) and isinstance(k.value, str) and
                         k.value.startswith('capy_')]
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) and \
                    n.targets[0].attr == 'argtypes' and isinstance(n.targets[0].value, ast.Attribute) and \
                    n.targets[0].value.attr.startswith('capy_'):
                pairs = [(n.targets[0].value.attr, n.value, n)]
            for nm, v, node in pairs:
                r = ev.expr(v, pysym.Path())
                val = r[0][0] if len(r) == 1 else None
                if val is not None and val[0] == 'tup':
                    out[nm] = (list(val[1]), node)
                elif val == ('c', None):
                    out[nm] = (None, node)
        return out

    # -- all functions
    def read(self):
        for cn, c in self.m.classes.items():
            for s in c.body:
                if isinstance(s, ast.FunctionDef):
                    self.one(cn, s)
        for s in self.m.fns.values():
            self.one(None, s)
        for cn in self.m.classes:
            hs = set()
            for ev in (self.evals.get((cn, m)) for m in self.m.methods(cn)):
                if ev is None:
                    continue
                for p, kind, v in ev.ends:
                    a = p.self.get('_as_parameter_')
                    if a is not None and a[0] == 'obj':
                        for n in p.calls:
                            c = ev.calls[n]
                            pr = self.protos.get(c.fn)
                            for i, x in enumerate(c.args):
                                if x == ('ptr', a) and pr is not None and i < len(pr.kinds) and pr.kinds[i][0] == 'out' and \
                                        pr.kinds[i][1][0] == 'handle':
                                    hs.add((pr.kinds[i][1][1], c.fn))
            if hs:
                self.H[cn] = hs
        # classes that wrap a handle obtained elsewhere
        for key, ev in self.evals.items():
            for p, kind, v in ev.ends:
                if isinstance(v, tuple) and v and v[0] == 'inst' and v[1] in self.m.classes and v[1] not in self.H:
                    for x in v[2]:
                        for n in p.calls:
                            c = ev.calls[n]
                            pr = self.protos.get(c.fn)
                            for i, y in enumerate(c.args):
                                if y == ('ptr', x) and pr is not None and i < len(pr.kinds) and pr.kinds[i][0] == 'out' and pr.kinds[i][1][0] == \
                                        'handle':
                                    self.W.setdefault(v[1], {}).setdefault(pr.kinds[i][1][1], []).append(c)
        for cn, d in self.W.items():
            best = max(d, key=lambda t: len(d[t]))
            self.H[cn] = {(best, c.fn) for c in d[best]}
        for cn in self.m.classes:
            if cn not in self.H:
                sub = [self.H[s] for s in self.m.subclasses(cn) if s in self.H and s != cn]
                if sub:
                    self.H[cn] = set().union(*sub)
            if cn not in self.H:
                for b in self.m.bases(cn):
                    if b in self.H:
                        self.H[cn] = self.H[b]
    W = None

    def one(self, cn, s):
        ev = pysym.Eval(self.m, cn, s.name)
        ev.fdef = s
        try:
            ev.run(s)
        except (pysym.TooMany, RecursionError):
            self.r.count('Python functions with too many paths')
            return
        self.evals[(cn, s.name)] = ev

    def handle(self, cn):
        hs = {t for t, _ in self.H.get(cn, ())}
        return next(iter(hs)) if len(hs) == 1 else None

    # -- enumerations
    def match_enums(self):
        r = self.r
        for cn, c in self.m.classes.items():
            mem = [(t.id, s.value, s) for s in c.body if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Name)]
            if not mem or any(isinstance(s, ast.FunctionDef) for s in c.body) or 'Structure' in self.m.bases(cn):
                continue
            best = None
            for en, e in self.enums.items():
                names = self.members(e)
                hit = sum(1 for m, _, _ in mem if ALIAS.get(norm(m), norm(m)) in names or norm(m) in names)
                sc = hit / len(mem) + 0.5 * hit / len(names) + difflib.SequenceMatcher(None, norm(cn), norm(en[8:])).ratio() * 0.6
                if hit and (best is None or sc > best[0]):
                    best = (sc, en, names)
            if best is None or best[0] < 1.0:
                r.count('Python enumerations that were not matched with a C enumeration')
                continue
            self.map[cn] = best[1]
            self.enum_values(cn, c, mem, best[1], best[2])

    def members(self, e):
        xs = e['e']
        pre = os.path.commonprefix([x[0] for x in xs])
        pre = pre[:pre.rfind('_') + 1]
        if len(xs) == 1:
            pre = xs[0][0][:xs[0][0].rfind('_') + 1]
        return {norm(x[0][len(pre):]): x for x in xs}

    def enum_values(self, cn, c, mem, en, names):
        r = self.r
        bases = self.m.bases(cn)
        isint = any(b in ('IntFlag', 'IntEnum') for b in bases)
        isenum = isint or any(b in ('Enum', 'Flag') for b in bases)
        ev = pysym.Eval(self.m, None, None)
        prev = None
        if not isenum:
            r.bad('enums', self.where(c), cn, 'base', 'the members of %s are not enumeration members, so they have no number' % cn)
        for m, val, s in mem:
            key = '%s.%s' % (cn, m)
            v = ev.expr(val, pysym.Path())[0][0]
            if isinstance(val, ast.Call) and isinstance(val.func, (ast.Name, ast.Attribute)) and (getattr(val.func, 'id', None) or
                                                                                                  getattr(val.func, 'attr', None)) == 'auto':
                if any(b in ('IntFlag', 'Flag') for b in bases):
                    num = 1 if not prev else 1 << prev.bit_length()
                else:
                    num = 1 if prev is None else prev + 1
            elif v[0] == 'c' and isinstance(v[1], int):
                num = v[1]
            elif v[0] == 'tup' and len(v[1]) == 1 and v[1][0][0] == 'c' and isint:
                num = v[1][0][1]
            elif v[0] == 'tup':
                r.bad('enums', self.where(s), cn, m, '%s is a tuple, not the number of an enumerator' % key)
                continue
            else:
                r.count('enumeration members whose number is not constant')
                continue
            prev = num
            x = names.get(norm(m)) or names.get(ALIAS.get(norm(m), ''))
            if x is None:
                r.count('enumeration members without a C enumerator of that name')
                continue
            if x[1] != num:
                r.bad('enums', self.where(s), cn, m, '%s is %d, but %s is %d' % (key, num, x[0], x[1]))
            else:
                r.ok('enums', '%s = %s' % (key, x[0]), cn)

    # -- calls
    def check_calls(self):
        r = self.r
        seen = set()
        for (cn, mn), ev in sorted(self.evals.items(), key=lambda x: (x[0][0] or '', x[0][1])):
            fn = '%s.%s' % (cn, mn) if cn else mn
            params = [a.arg for a in ev.fdef.args.posonlyargs + ev.fdef.args.args]
            bad = {}
            okc = {}
            # paths that end with an exception do not get as far
            live = set()
            for p, kind, v in ev.ends:
                live |= set(p.calls)
            for n, c in ev.calls.items():
                if n not in live:
                    continue
                if c.fn == 'capy_error_message':
                    continue
                pr = self.protos.get(c.fn)
                site = (c.fn, c.node.lineno)
                if pr is None:
                    if not c.fn.startswith('capy_'):
                        continue
                    if c.fn not in {f.n for f in self.facts.fns.values()}:
                        bad.setdefault(('names', c.fn), (c.node, 'calls %s, which the library does not have' % c.fn))
                    continue
                okc.setdefault('names', set()).add(site)
                probs = self.call_args(c, pr, params)
                for rule, d, what in probs:
                    bad.setdefault((rule, c.fn + d), (c.node, what))
                for rule in ('arguments', 'types'):
                    if not any(x[0] == rule for x in probs):
                        okc.setdefault(rule, set()).add(site)
            for (rule, d), (node, what) in sorted(bad.items(), key=lambda x: (x[0], x[1][0].lineno)):
                if (rule, d, node.lineno) in seen:
                    continue
                seen.add((rule, d, node.lineno))
                r.bad(rule, self.where(node), fn, d, '%s: %s' % (fn, what))
            for rule, s in okc.items():
                for x in sorted(s):
                    if (rule,) + x not in seen:
                        seen.add((rule,) + x)
                        r.ok(rule, '%s calls %s' % (fn, x[0]), fn)

    def call_args(self, c, pr, params):
        out = []
        args = c.args
        if any(a[0] == 'star' or a == pysym.TOP for a in args):
            if any(a[0] == 'star' for a in args):
                self.r.count('calls with arguments that cannot be followed')
                return out
        if len(args) != len(pr.kinds):
            return [('arguments', '#count', '%s is called with %d arguments, it has %d' % (c.fn, len(args), len(pr.kinds)))]
        decl = self.declared.get(c.fn)
        at = decl[0] if decl else None
        if at is not None and len(at) > len(args):
            out.append(('types', '#count', '%s is declared with %d arguments, it has %d' % (c.fn, len(at), len(args))))
        for i, (k, a) in enumerate(zip(pr.kinds, args)):
            d = '#%d' % i
            t = at[i] if at is not None and i < len(at) else None
            w = self.type_wrong(k, t)
            if w:
                out.append(('types', d, 'argument %d (%s) of %s %s' % (i + 1, pr.f.params[i]['n'], c.fn, w)))
            w = self.arg_wrong(c, pr, i, k, a)
            if w:
                out.append(('arguments', d, 'argument %d (%s) of %s %s' % (i + 1, pr.f.params[i]['n'], c.fn, w)))
        w = self.order_wrong(c, pr, params)
        if w:
            out.append(('arguments', '#order', w))
        return out

    def type_wrong(self, k, t):
        if t is None:
            if k[0] == 'double':
                return 'is a double, but no argument type is declared'
            if k[0] == 'long':
                return 'has 64 bits, but no argument type is declared'
            return None
        if t[0] not in ('ct', 'cls', 'ctp'):
            return None
        name = t[1] if t[0] in ('ct', 'cls') else None
        if k[0] == 'double':
            return None if name == 'c_double' else 'is a double, but declared as %s' % (name or 'a pointer')
        if k[0] == 'long':
            return None if name in WIDE else 'has 64 bits, but is declared as %s' % (name or 'a pointer')
        if k[0] in ('int', 'enum'):
            return None if name in INTS else 'is an integer, but declared as %s' % (name or 'a pointer')
        if k[0] == 'id':
            if t[0] == 'cls' and self.idtype(name) == k[1]:
                return None
            return 'is a %s by value, but declared as %s' % (k[1], name or 'a pointer')
        # pointers
        if t[0] == 'cls':
            return 'is a pointer, but declared as %s by value' % name
        if name is not None:
            if name == 'c_void_p' or name == 'c_char_p' and k[0] == 'bytes':
                return None
            if name == 'c_char_p':
                return 'is no string, but declared as one'
            return 'is a pointer, but declared as %s' % name
        el = t[1]
        want = k[1][0] if k[0] == 'out' else k[1] if k[0] == 'array' else None
        wanted = {'double': {'c_double'}, 'unsigned int': {'c_uint32', 'c_uint'}, 'int': {'c_int32', 'c_int'}, 'enum': {'c_int32', 'c_int', 'c_uint32',
                                                                                                              'c_uint'}}.get(want)
        if wanted and el[0] == 'ct' and el[1] not in wanted:
            return 'points to %s, but is declared as pointer to %s' % (want, el[1])
        return None

    def classes_of(self, a, c):
        """Python classes a value is known to have"""
        if a in c.nar:
            return c.nar[a]
        if a[0] == 'inst':
            return frozenset({a[1]})
        if a == ('self',):
            return frozenset({c.cls})
        return None

    def arg_wrong(self, c, pr, i, k, a):
        if has_top(a):
            self.r.count('arguments that cannot be followed')
            return None
        none = a == ('c', None)
        if k[0] != 'handle' and k[0] != 'handles' and (a == ('self',)):
            return 'is not an object, but the object itself is given'
        if k[0] == 'out':
            if a[0] != 'ptr' or a[1][0] != 'obj':
                return 'is an output, but no fresh object is given for it' if a[0] in ('p', 'c', 'obj', 'enc', 'len') else None
            t = a[1][2]
            w = k[1]
            if w[0] == 'handle':
                return None if t == ('ct', 'c_void_p') else 'is a pointer, but %s is given for it' % (t[1],)
            if w[0] == 'id':
                return None if t[0] == 'cls' and self.idtype(t[1]) == w[1] else 'is a %s, but %s is given for it' % (w[1], t[1])
            good = {'double': {'c_double'}, 'unsigned int': {'c_uint32', 'c_uint', 'c_int32', 'c_int'}, 'int': {'c_int32', 'c_int', 'c_uint32', 'c_uint'},
                    'enum': {'c_int32', 'c_int', 'c_uint32', 'c_uint'}}.get(w[0])
            return None if good is None or t[0] == 'ct' and t[1] in good else 'is %s, but %s is given for it' % (w[0], t[1])
        if k[0] == 'handle':
            if a == ('self',):
                h = self.handle(c.cls)
                if h is not None and h != k[1]:
                    return 'is a %s, but %s is a %s' % (k[1], c.cls, h)
                return None
            if none:
                return None
            if a[0] == 'attr' and a[2] == '_as_parameter_':
                a = a[1]
            if a[0] in ('enc', 'len', 'arr', 'ptr', 'sel', 'bool') or a[0] == 'attr' and a[2] == 'value' or a[0] == 'c':
                return 'is an object, but something else is given'
            cs = self.classes_of(a, c)
            for x in cs or ():
                h = self.handle(x)
                if h is not None and h != k[1]:
                    return 'is a %s, but the argument is checked to be a %s' % (k[1], x)
                if h is None and (x in self.map or x.endswith('Id')):
                    return 'is a %s, but the argument is checked to be a %s' % (k[1], x)
            return None
        if k[0] == 'id':
            if a[0] in ('attr', 'ptr', 'enc', 'len', 'arr', 'sel') or a[0] == 'c':
                return 'is an id, but something else is given'
            if a[0] == 'obj':
                return None if a[2][0] == 'cls' and self.idtype(a[2][1]) == k[1] else 'is a %s, but %s is given' % (k[1], a[2][1])
            for x in self.classes_of(a, c) or ():
                if self.idtype(x) != k[1]:
                    return 'is a %s, but the argument is checked to be a %s' % (k[1], x)
            return None
        if k[0] == 'enum':
            if a[0] == 'attr' and a[2] == 'value':
                for x in self.classes_of(a[1], c) or ():
                    if x in self.map and self.map[x] != k[1]:
                        return 'is a %s, but the argument is checked to be a %s' % (k[1], x)
                    if x not in self.map and x in self.m.classes and (x.endswith('Id') or x in self.H):
                        return 'is a %s, but the argument is checked to be a %s' % (k[1], x)
                return None
            if a[0] == 'p':
                cs = self.classes_of(a, c) or ()
                if any(b in ('IntFlag', 'IntEnum') for x in cs for b in self.m.bases(x)) or 'int' in cs:
                    return None
                return 'is an enumerator, but the enumeration member is given instead of its number'
            if a[0] in ('enc', 'len', 'arr', 'ptr', 'obj', 'inst'):
                return 'is an enumerator, but something else is given'
            return None
        if pr.size_of(i):
            prev = c.args[i - 1]
            if a[0] == 'len':
                src = prev[2] if prev[0] == 'arr' else prev
                if prev[0] == 'ptr' and prev[1][0] == 'arr':
                    src = prev[1][2]
                if has_top(src):
                    return None
                if a[1] != src:
                    if prev[0] == 'enc' and a[1] == prev[1]:
                        if prev[2].lower() in ('ascii', 'us-ascii', 'latin-1'):
                            return None
                        return 'is the number of characters, not the number of bytes'
                    return 'is the length of something else than what precedes it'
                return None
            if a[0] == 'c' and isinstance(a[1], int) and not (a[1] == -1 and pr.kinds[i - 1][0] == 'bytes'):
                n = prev[2][1] if prev[0] == 'arr' and prev[2][0] == 'tup' else None
                if n is None or len(n) != a[1]:
                    return 'is the constant %d, not the length of what precedes it' % a[1]
            return None
        if k[0] == 'bytes':
            if a[0] == 'enc' or none or a[0] == 'c' and isinstance(a[1], bytes):
                return None
            if a[0] == 'p':
                cs = c.nar.get(a)
                if cs and 'bytes' not in cs and 'bytearray' not in cs:
                    return 'is a string, but a value checked to be %s is given' % '/'.join(sorted(cs))
                return None
            if a[0] in ('len', 'arr', 'ptr', 'obj', 'inst', 'attr', 'sel') or a[0] == 'c':
                return 'is a string, but something else is given'
            return None
        if k[0] in ('array', 'handles'):
            if none:
                return None
            v = a[1] if a[0] == 'ptr' else a
            if v[0] == 'arr':
                w = self.elem_wrong(k, v[1])
                if w:
                    return w
                need = LENGTHS.get((c.fn, i))
                if need and not pr.kinds[i][-1]:
                    # known length?
                    got = self.known_length(v[2], c)
                    if got is not None and got != need:
                        return 'must have %d elements, but %s' % (need, 'its length is checked to be %d' % got if got >= 0 else 'its length is not checked')
                return None
            if v[0] == 'obj':
                w = self.elem_wrong(k, v[2])
                return w
            if v[0] == 'p' and a[0] == 'ptr':
                for x in c.nar.get(v, ()):
                    if k[1].endswith('Id') and self.idtype(x) != k[1]:
                        return 'points to a %s, but the argument is checked to be a %s' % (k[1], x)
                return None
            if a[0] in ('enc', 'len', 'sel') or a[0] == 'attr' and a[2] == 'value':
                return 'is an array, but something else is given'
            return None
        if k[0] in ('double', 'int', 'long'):
            if a[0] in ('enc', 'arr', 'ptr', 'inst', 'tup', 'map') or none:
                return 'is a number, but something else is given'
            if a[0] == 'sel' and a[2] in (0, False) and a[3] not in (0, False):
                return 'is a flag, but is set when the argument is false'
            if k[0] == 'double' and a[0] == 'conv' and a[1] in ('int', 'bool'):
                return 'is a double, but the value is made an integer'
            return None
        return None

    def elem_wrong(self, k, t):
        if k[0] == 'handles':
            return None if t == ('ct', 'c_void_p') else 'is an array of objects, but an array of %s is given' % (t[1],)
        want = {'double': {'c_double'}, 'unsigned int': {'c_uint32', 'c_uint'}, 'int': {'c_int32', 'c_int'}}.get(k[1])
        if k[1].endswith('Id'):
            return None if t[0] == 'cls' and self.idtype(t[1]) == k[1] else 'is an array of %s, but an array of %s is given' % (k[1], t[1])
        if want is None:
            return None
        return None if t[0] == 'ct' and t[1] in want else 'points to %s, but %s is given' % (k[1], t[1])

    def known_length(self, v, c):
        """length of v that the conditions on the path imply (-1: nothing is known)"""
        base = v
        while base[0] == 'map' and has(base, ('elem',)) is False and len(base) == 2:
            # a list made from each element of another list
            es = self.elems(base[1])
            if len(es) != 1:
                return None
            base = es.pop()
        if base[0] == 'tup':
            return len(base[1])
        for cv, t in c.path:
            if cv[0] == 'cmp' and cv[1] in ('!=', '==') and (t == (cv[1] == '==')):
                for x, y in ((cv[2], cv[3]), (cv[3], cv[2])):
                    if x == ('len', base) and y[0] == 'c':
                        return y[1]
        return -1 if base[0] == 'p' else None

    def elems(self, v):
        out = set()
        if isinstance(v, tuple):
            if len(v) == 2 and v[0] == 'elem':
                out.add(v[1])
            else:
                for x in v:
                    out |= self.elems(x)
        return out

    def order_wrong(self, c, pr, params):
        """parameters are handed on in the order in which the method takes them"""
        seq = []
        for i, a in enumerate(c.args):
            rs = roots(a)
            if len(rs) == 1 and not pr.size_of(i):
                x = rs.pop()
                if x in params:
                    seq.append((i, x))
        for j in range(len(seq) - 1):
            (i1, x1), (i2, x2) = seq[j], seq[j + 1]
            if x1 == x2:
                if not pr.size_of(i2) and c.args[i1] == c.args[i2] and c.args[i1][0] in ('p', 'attr'):
                    return '%s is given both for %s and for %s of %s' % (x1, pr.f.params[i1]['n'], pr.f.params[i2]['n'], c.fn)
                continue
            if params.index(x1) > params.index(x2):
                if norm(pr.f.params[i1]['n']) == norm(x1) and norm(pr.f.params[i2]['n']) == norm(x2):
                    continue
                if pr.kinds[i1][:2] != pr.kinds[i2][:2]:
                    continue      # told apart by their types
                return '%s and %s are given to %s in the wrong order' % (x2, x1, c.fn)
        return None

    # -- methods
    def check_methods(self):
        r = self.r
        for (cn, mn), ev in sorted(self.evals.items(), key=lambda x: (x[0][0] or '', x[0][1])):
            fn = '%s.%s' % (cn, mn) if cn else mn
            if cn is None:
                continue
            own = [(n, c) for n, c in ev.calls.items() if c.meth == mn and c.fn in self.protos]
            T = self.handle(cn)
            deco = [d.id for d in ev.fdef.decorator_list if isinstance(d, ast.Name)]
            if mn == '__init__':
                want = 'capy_%s_new' % norm(cn)
                cands = [x for x in self.protos if norm(x[5:]) == norm(cn) + 'new']
            elif 'classmethod' in deco and mn.startswith('new_'):
                cands = [x for x in self.protos if x == 'capy_%s_new' % mn[4:]]
            elif T is not None and not mn.startswith('__'):
                cands = [x for x in self.protos if x.endswith('_' + mn) and self.protos[x].kinds and self.protos[x].kinds[0] == ('handle', T)]
                pre = {f[:-4] for t, f in self.H[cn] if f.endswith('_new')}
                near = [x for x in cands if any(x.startswith(q + '_') for q in pre)]
                cands = near or cands
            else:
                cands = []
            if cands:
                hit = [c for n, c in own if any(c.fn == x or c.fn.startswith(x + '_') for x in cands)]
                miss = [c for n, c in own if not any(c.fn == x or c.fn.startswith(x + '_') for x in cands) and c.args and (
                    c.args[0] == ('self',) or mn == '__init__' or 'classmethod' in deco)]
                if miss and not hit:
                    r.bad('methods', self.where(miss[0].node), fn, miss[0].fn, '%s calls %s instead of %s' % (fn, miss[0].fn, ' or '.join(sorted(cands))))
                elif not hit and not ev.calls and mn != '__init__' and all(k == 'raise' or v == ('c', None) and not p.events
                                                                           for p, k, v in ev.ends):
                    r.bad('methods', self.where(ev.fdef), fn, 'none', '%s does not call %s' % (fn, ' or '.join(sorted(cands))))
                elif hit:
                    # on every path that ends well
                    names = {c.fn for n, c in own}
                    for p, kind, v in ev.ends:
                        if kind == 'return' and not any(ev.calls[n].fn in names for n in p.calls):
                            if mn == '__init__' or not p.conds:
                                break
                            r.bad('methods', self.where(ev.fdef), fn, 'path', '%s can end without calling %s' % (fn, ' or '.join(sorted(names))))
                            break
                    else:
                        r.ok('methods', '%s calls %s' % (fn, '/'.join(sorted(names))), fn)
            elif not mn.startswith('__'):
                others = self.m.methods(cn)
                for n, c in own:
                    if c.args and c.args[0] == ('self',) and T is not None:
                        tails = [x for x in others if c.fn.endswith('_' + x) and x != mn and not c.fn.endswith('_' + mn)]
                        tails = [x for x in tails if not any(len(y) > len(x) and c.fn.endswith('_' + y) for y in tails)]
                        pre = [f[:-4] for t, f in self.H[cn] if f.endswith('_new')]
                        if any(c.fn == q + '_' + x for q in pre for x in tails):
                            r.bad('methods', self.where(c.node), fn, c.fn, '%s calls %s, the function of the method %s' % (fn, c.fn, tails[0]))
                            break
            # every parameter is used
            self.unused(cn, mn, ev, fn)
            if mn in MATRIX:
                self.matrix(ev, fn, mn)

    def unused(self, cn, mn, ev, fn):
        if not ev.calls or mn.startswith('__') and mn != '__init__':
            return
        used = {n.id for n in ast.walk(ev.fdef) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
        for a in (ev.fdef.args.posonlyargs + ev.fdef.args.args)[1:]:
            if a.arg not in used:
                self.r.bad('arguments', self.where(ev.fdef), fn, 'unused:' + a.arg, '%s takes %s but never hands it on' % (fn, a.arg))

    def matrix(self, ev, fn, mn):
        ps = [a.arg for a in ev.fdef.args.args][1:]
        for n, c in ev.calls.items():
            if not c.fn.endswith('_cmd_cm') or len(c.args) != 7:
                continue

            def show(v):
                if v[0] == 'c':
                    return v[1]
                if v[0] == 'p' and v[1] in ps:
                    return 'p%d' % ps.index(v[1])
                if v[0] == 'app' and v[1][0] == 'attr' and v[1][1] == ('mod', 'math') and v[2] == (('p', ps[0]),):
                    return v[1][2]
                if v[0] == 'un' and v[1] == 'USub':
                    x = show(v[2])
                    return '-%s' % x if isinstance(x, str) else None
                return None
            got = [show(a) for a in c.args[1:]]
            if None in got:
                self.r.count('matrices that cannot be followed')
                continue
            if tuple(got) != MATRIX[mn]:
                self.r.bad('methods', self.where(ev.fdef), fn, 'matrix', '%s sets the matrix %s instead of %s' % (fn, got, list(MATRIX[mn])))
            else:
                self.r.ok('methods', '%s sets the right matrix' % fn, fn)

    # -- errors and results
    def check_paths(self):
        r = self.r
        for (cn, mn), ev in sorted(self.evals.items(), key=lambda x: (x[0][0] or '', x[0][1])):
            fn = '%s.%s' % (cn, mn) if cn else mn
            bad_e, bad_r, good = {}, {}, set()
            for p, kind, v in ev.ends:
                for n in p.calls:
                    c = ev.calls[n]
                    if c.fn == 'capy_error_message' or c.fn not in self.protos:
                        continue
                    st = self.error_state(p, n)
                    if st == 'failed' and kind != 'raise':
                        bad_e[c.fn] = (c, 'ends normally although %s failed' % c.fn)
                    elif st == 'ok' and kind == 'raise' and n == p.calls[-1] and not self.later_conds(p, n):
                        bad_e[c.fn] = (c, 'raises an exception although %s succeeded' % c.fn)
                    elif st is None and kind != 'raise' and not has(v, ('ret', n)):
                        bad_e[c.fn] = (c, 'does not look at the result of %s' % c.fn)
                    else:
                        good.add((c.fn, c.node.lineno))
                    if kind == 'return' and st != 'failed':
                        w = self.result_wrong(ev, p, c, v, mn)
                        if w:
                            bad_r[c.fn] = (c, w)
            tests = {cv for p, kind, v in ev.ends for cv, t in p.conds if t and cv[0] == 'isinst'}
            for cv in tests:
                es = [(p, kind) for p, kind, v in ev.ends if (cv, True) in p.conds]
                if all(k == 'raise' for p, k in es) and any(p.events or p.calls for p, k in es) and any(k == 'return' for p, k, v in ev.ends) and \
                        not any(self.error_state(p, n) == 'failed' for p, k in es for n in p.calls):
                    r.bad('arguments', self.where(ev.fdef), fn, 'rejected', '%s rejects the %s it has a branch for' % (fn, '/'.join(sorted(cv[2]))))
            for f2, (c, what) in sorted(bad_e.items()):
                r.bad('errors', self.where(c.node), fn, f2, '%s %s' % (fn, what))
            for f2, (c, what) in sorted(bad_r.items()):
                r.bad('results', self.where(c.node), fn, f2, '%s %s' % (fn, what))
            for f2, l in sorted(good):
                if f2 not in bad_e:
                    r.ok('errors', '%s: %s' % (fn, f2), fn)
                if f2 not in bad_r and any(k[0] == 'out' for k in self.protos[f2].kinds):
                    r.ok('results', '%s: %s' % (fn, f2), fn)

    @staticmethod
    def later_conds(p, n):
        seen = False
        for cv, t in p.conds:
            if has(cv, ('ret', n)):
                seen = True
            elif seen:
                return True
        return False

    @staticmethod
    def error_state(p, n):
        ret = ('ret', n)
        for cv, t in p.conds:
            if cv == ret:
                return 'failed' if t else 'ok'
            if cv[0] == 'cmp' and ret in (cv[2], cv[3]) and ('c', 0) in (cv[2], cv[3]):
                if cv[1] in ('!=', 'is not'):
                    return 'failed' if t else 'ok'
                if cv[1] in ('==', 'is'):
                    return 'ok' if t else 'failed'
                if cv[1] in ('<', '>'):
                    return 'failed' if t else None
            if cv[0] == 'cmp' and has(cv, ret):
                return None
        return None

    def result_wrong(self, ev, p, c, v, mn):
        pr = self.protos[c.fn]
        outs = []
        for k, a in zip(pr.kinds, c.args):
            if k[0] == 'out' and a[0] == 'ptr' and a[1][0] == 'obj':
                outs.append((k[1], a[1]))
        if not outs or len(c.args) != len(pr.kinds):
            return None
        for k, o in outs:
            kept = any(has(x, o) for x in p.self.values()) or any(has(cv, o) for cv, t in p.conds)
            later = any(has(a, o) for n in p.calls for a in ev.calls[n].args if n > c.n)
            evs = any(has(e, o) for e in p.events)
            if has_top(v):
                return None
            if not has(v, o) and not kept and not later and not evs:
                return 'does not hand out what %s gave it' % c.fn
            if v == o and k[0] not in ('id',) and k[0] != 'handle':
                return 'returns the memory cell, not the value in it'
            for x in self.insts(v):
                if x[0] == 'inst' and x[2] == (o,) and k[0] == 'handle':
                    h = self.handle(x[1])
                    if h is not None and h != k[1]:
                        return 'puts a %s into a %s' % (k[1], x[1])
                if x[0] == 'enum' and len(x[2]) == 1 and has(x[2][0], o) and k[0] == 'enum' and x[1] in self.map and self.map[x[1]] != k[1]:
                    return 'turns a %s into a %s' % (k[1], x[1])
            if v[0] == 'sel' and has(v[1], o) and v[2] in (False, 0) and v[3] in (True, 1):
                return 'returns the opposite of what %s said' % c.fn
        if len(outs) > 1 and v[0] == 'tup':
            order = [next((i for i, x in enumerate(v[1]) if has(x, o)), None) for k, o in outs]
            if None not in order and order != sorted(order):
                return 'returns the results of %s in the wrong order' % c.fn
        return None

    def insts(self, v):
        out = []
        if isinstance(v, tuple):
            if v and v[0] in ('inst', 'enum') and len(v) == 3:
                out.append(v)
            for x in v:
                out += self.insts(x)
        return out

    # -- destruction
    def check_destroy(self):
        r = self.r
        dest = {}
        for n, pr in self.protos.items():
            if n.endswith('_destroy') and len(pr.kinds) == 1 and pr.kinds[0][0] == 'handle':
                dest[pr.kinds[0][1]] = n
        for cn in self.m.classes:
            T = self.handle(cn)
            if T is None or T not in dest:
                continue
            ms = self.m.methods(cn)
            owner = ms.get('__del__')
            if owner is None:
                if any(self.m.methods(s).get('__del__') for s in self.m.subclasses(cn)):
                    continue
                r.bad('destroy', self.where(self.m.classes[cn]), cn, 'missing', 'objects of %s are never released (%s)' % (cn, dest[T]))
                continue
            ev = self.evals.get((owner[0], '__del__'))
            if ev is None:
                continue
            fns = [c.fn for c in ev.calls.values() if c.args and (c.args[0] == ('self',) or c.args[0][0] == 'attr')]
            called = [f for f in fns if f in self.protos]
            if dest[T] not in called and (called or not ev.calls):
                r.bad('destroy', self.where(owner[1]), cn, 'wrong', '%s objects are released with %s instead of %s' % (cn, ' and '.join(called) or
                                                                                                              'nothing', dest[T]))
                continue
            twice = [p for p, k, v in ev.ends if sum(1 for n in p.calls if ev.calls[n].fn in dest.values()) > 1]
            if twice:
                r.bad('destroy', self.where(owner[1]), cn, 'twice', '%s objects are released more than once' % cn)
                continue
            # a path that keeps the object although it has one
            for p, k, v in ev.ends:
                if k == 'return' and not p.calls and not p.conds:
                    r.bad('destroy', self.where(owner[1]), cn, 'path', '%s objects are not released' % cn)
                    break
            else:
                for p, k, v in ev.ends:
                    if k == 'return' and p.conds:
                        cv, t = p.conds[0]
                        if cv[0] == 'cmp' and has(cv, ('attr', ('self',), '_as_parameter_')) and has(cv, ('c', None)):
                            isnone = (cv[1] in ('is', '==')) == t
                            if isnone == bool(p.calls):
                                r.bad('destroy', self.where(owner[1]), cn, 'guard', '%s objects are released only if there is nothing to release' % cn)
                                break
                else:
                    r.ok('destroy', '%s: %s' % (cn, dest[T]), cn)
            for mn, (oc, d) in ms.items():
                e2 = self.evals.get((oc, mn))
                if mn != '__del__' and oc == cn and e2 is not None:
                    for c in e2.calls.values():
                        if c.fn in dest.values() and c.args and c.args[0] == ('self',):
                            r.bad('destroy', self.where(c.node), '%s.%s' % (cn, mn), 'early', '%s.%s releases the object, which is released again when '
                                                                                              'it goes out of use' % (cn, mn))

    # -- names
    def check_names(self):
        r = self.r
        for cn, fdef in self.functions():
            fn = '%s.%s' % (cn, fdef.name) if cn else fdef.name
            loc = set()
            for n in ast.walk(fdef):
                if isinstance(n, ast.arg):
                    loc.add(n.arg)
                elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    loc.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    loc.add(n.name)
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    loc.add(n.name)
                elif isinstance(n, ast.alias):
                    loc.add((n.asname or n.name).split('.')[0])
            bad = False
            for n in ast.walk(fdef):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in loc and n.id not in self.m.globals and \
                        not hasattr(builtins, n.id) and n.id not in ('__file__', '__name__'):
                    r.bad('names', self.where(n), fn, 'name:' + n.id, '%s uses %s, which is not defined' % (fn, n.id))
                    bad = True
            if cn and all(b in self.m.classes or b in ('object', 'Exception', 'Structure') for b in self.m.bases(cn)):
                self.self_attrs(cn, fdef, fn)
            if not bad:
                r.ok('names', fn, fn)

    def self_attrs(self, cn, fdef, fn):
        if not fdef.args.args:
            return
        me = fdef.args.args[0].arg
        have = set(dir(object)) | {'args', '_as_parameter_'}
        fam = set(self.m.bases(cn))
        for s in self.m.subclasses(cn):
            fam |= set(self.m.bases(s))
        for b in fam:
            c = self.m.classes.get(b)
            if c is None:
                continue
            for n in ast.walk(c):
                if isinstance(n, ast.FunctionDef):
                    have.add(n.name)
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    have.add(n.attr)
                elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    have.add(n.id)
        for n in ast.walk(fdef):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == me and \
                    n.attr not in have:
                self.r.bad('names', self.where(n), fn, 'attr:' + n.attr, '%s uses the attribute %s, which %s does not have' % (fn, n.attr, cn))

    def functions(self):
        for cn, c in self.m.classes.items():
            for s in c.body:
                if isinstance(s, ast.FunctionDef):
                    yield cn, s
        for s in self.m.fns.values():
            yield None, s

    # -- declarations of functions nobody calls
    def check_declared(self):
        for nm, (types, node) in sorted(self.declared.items()):
            if nm not in self.protos and nm not in {f.n for f in self.facts.fns.values()}:
                self.r.bad('names', self.where(node), 'cfunc_types', nm, 'the types of %s are declared, but the library has no such function' % nm)

    # -- context managers
    def check_managers(self):
        r = self.r
        CLOSE = {'StateContextManager': ('cmd_Q', 'cmd_q'), 'MarkedContextManager': ('cmd_EMC', None), 'DrawContext': ('add_page', None),
                 'Text': ('render_text_obj', None)}
        for cn, (close, opn) in CLOSE.items():
            ev = self.evals.get((cn, '__exit__'))
            if ev is None:
                continue
            for p, kind, v in ev.ends:
                exc = any(roots(cv) & {'exc_type', 'exc_value', 'exc_tb'} for cv, t in p.conds)
                names = [e[1] for e in p.events] + [ev.calls[n].fn for n in p.calls]
                if kind == 'return' and not exc and not any(x == close or x.endswith('_' + close) for x in names):
                    r.bad('managers', self.where(ev.fdef), cn + '.__exit__', close, 'leaving a %s does not call %s' % (cn, close))
                    break
                if sum(1 for x in names if x == close or x.endswith('_' + close)) > 1:
                    r.bad('managers', self.where(ev.fdef), cn + '.__exit__', close + '2', 'leaving a %s calls %s twice' % (cn, close))
                    break
            else:
                r.ok('managers', '%s: %s' % (cn, close), cn)
            if opn:
                e2 = self.evals.get((cn, '__init__'))
                e3 = self.evals.get((cn, '__enter__'))
                n = 0
                for e in (e2, e3):
                    if e is not None:
                        n += max((sum(1 for x in p.events if x[1] == opn) for p, k, v in e.ends), default=0)
                if n != 1:
                    r.bad('managers', self.where(self.m.classes[cn]), cn, opn, 'entering a %s calls %s %d times' % (cn, opn, n))
                else:
                    r.ok('managers', '%s: %s' % (cn, opn), cn)
        ev = self.evals.get(('Generator', '__exit__'))
        if ev is not None and len(ev.fdef.args.args) > 1:
            ex = ('p', ev.fdef.args.args[1].arg)
            bad = None
            for p, kind, v in ev.ends:
                st = None
                for cv, t in p.conds:
                    if cv[0] == 'cmp' and ex in (cv[2], cv[3]) and ('c', None) in (cv[2], cv[3]):
                        st = (cv[1] in ('is', '==')) == t
                    elif cv == ex:
                        st = not t
                wrote = any(ev.calls[n].fn == 'capy_generator_write' for n in p.calls)
                if st is not False and kind == 'return' and not wrote:
                    bad = 'does not write the document'
                if st is False and wrote:
                    bad = 'writes the document although an exception was raised'
                if st is False and kind == 'return' and v[0] == 'c' and v[1]:
                    bad = 'hides the exception'
            if bad:
                r.bad('managers', self.where(ev.fdef), 'Generator.__exit__', 'write', 'leaving a Generator %s' % bad)
            else:
                r.ok('managers', 'Generator: write', 'Generator')


def run(facts, r):
    r.rule('names', 'functions of the library, variables and attributes that are used exist', 150)
    r.rule('types', 'declared argument types are those of the C prototype wherever the default conversion would not do', 100)
    r.rule('arguments', 'arguments are given in the number, order and kind of the C prototype', 100)
    r.rule('methods', 'each method calls the C function of its class and name', 60)
    r.rule('enums', 'enumeration members have the numbers of the C enumerators', 80)
    r.rule('errors', 'a failing call raises an exception, a successful one does not', 100)
    r.rule('results', 'what the library hands out reaches the caller', 30)
    r.rule('destroy', 'objects are released by their own destroy function, once', 10)
    r.rule('managers', 'context managers close what they opened', 3)
    x = P19(facts, r)
    x.W = {}
    x.read()
    x.match_enums()
    x.check_calls()
    x.check_methods()
    x.check_paths()
    x.check_destroy()
    x.check_names()
    x.check_declared()
    x.check_managers()
    r.assume('ctypes converts arguments without declared types by its documented defaults')
