"""P24: documents share no mutable state, and what is written depends on nothing but the calls, the files read and the clock."""
import re
from ..facts import CALLS, CTORS, rel
from ..util import strip_casts, all_nodes, callee, repo_fns, lit_str, branch_cond, reachable, lambda_fns, direct_callees
from .. import csim

META = {
    'title': 'Documents share no mutable state; hidden inputs never shape the output',
    'statement': 'Two generators, in one thread or in several, share no mutable state: the library keeps no writable or first-call-wins global, '
                 'static or thread-local data, changes no process-wide setting (locale, environment, signal handlers, error handlers of the '
                 'libraries it uses) and calls no library function that works on hidden shared data. What it writes depends on the calls made '
                 'and the files read, not on the locale, on addresses in memory or on earlier documents; of the environment it reads only '
                 'SOURCE_DATE_EPOCH, CAPY_DEBUG_PDF and CAPY_SCRAPE_PROTECT. Random numbers reach nothing but the file identifier '
                 '(/ID), the time reaches nothing but dates, and with SOURCE_DATE_EPOCH set the clock is not read at all.',
    'over': ['schedules', 'histories', 'configurations'],
    'qtext': 'every interleaving of calls on different generators, every sequence of documents made by one process, and every locale, '
             'environment and clock it is made under',
    'why': 'Tests make one document at a time, in one thread, in the C locale; shared state shows only with several documents alive, and a hidden '
           'input only when it differs between two runs.',
    'files': ['src/*.cpp', 'src/*.hpp', 'include/capypdf.h'],
    'mechanism': [('namespace-scope tables, static locals', 'src/*.cpp'), ('current_date_string, create_trailer_id', 'src/utils.cpp'),
                  ('PdfColorConverter::construct', 'src/colorconverter.cpp'), ('write_oldstyle_trailer, write_cross_reference_stream',
                                                                               'src/pdfwriter.cpp')],
    'technique': 'effect analysis: mutability of every object with static storage (through fields, pointers and smart pointers) and of what '
                 'initialises it, a table of library functions with hidden state, interprocedural dominance of the clock by the '
                 'SOURCE_DATE_EPOCH test, and forward propagation of clock and random values to the dictionary keys they are written under',
    'level_note': 'Library functions are judged by a table of those known to keep hidden state; FreeType, LittleCMS, libpng, libjpeg, libtiff and '
                  'zlib are trusted to keep their own objects apart. Reads of uninitialised memory and the order of hashed containers are not '
                  'judged here.',
}

ENV = {'SOURCE_DATE_EPOCH', 'CAPY_DEBUG_PDF', 'CAPY_SCRAPE_PROTECT'}
READENV = {'getenv', 'secure_getenv', '_wgetenv', 'getenv_s', '_dupenv_s'}
# functions that work on data shared by the whole process, or change a setting of it
HIDDEN = {
    'asctime', 'ctime', 'gmtime', 'localtime', 'strtok', 'strerror', 'strsignal', 'tmpnam', 'tempnam', 'mktemp', 'ttyname', 'ctermid', 'getlogin',
    'getpwnam', 'getpwuid', 'getgrnam', 'getgrgid', 'getpwent', 'getgrent', 'gethostbyname', 'inet_ntoa', 'ecvt', 'fcvt', 'gcvt', 'l64a',
    'basename', 'dirname', 'crypt', 'encrypt', 'setkey', 'hsearch', 'hcreate', 'hdestroy', 'lgamma', 'lgammaf', 'mblen', 'mbtowc', 'wctomb',
    'setlocale', 'uselocale', 'setenv', 'putenv', 'unsetenv', 'clearenv', '_putenv', '_putenv_s', 'signal', 'sigaction', 'sigprocmask',
    'pthread_sigmask', 'atexit', 'at_quick_exit', 'on_exit', 'umask', 'chdir', 'fchdir', 'chroot', 'nice', 'setrlimit', 'tzset', 'srand',
    'rand', 'random', 'srandom', 'initstate', 'setstate', 'drand48', 'erand48', 'lrand48', 'nrand48', 'mrand48', 'jrand48', 'srand48', 'lcong48',
    'fesetround', 'feenableexcept', 'fesetenv', 'setbuf', 'setvbuf', 'freopen', 'getopt', 'getopt_long', 'mallopt', 'locale::global',
    'set_terminate', 'set_new_handler', 'set_unexpected', 'ios_base::sync_with_stdio', 'filesystem::current_path/1',
    # libraries
    'cmsSetLogErrorHandler', 'cmsSetAlarmCodes', 'cmsSetAdaptationState', 'cmsPlugin', 'cmsUnregisterPlugins',
    'TIFFSetErrorHandler', 'TIFFSetErrorHandlerExt', 'TIFFSetWarningHandler', 'TIFFSetWarningHandlerExt', 'TIFFSetTagExtender',
    'TIFFRegisterCODEC', 'TIFFUnRegisterCODEC',
}
# handlers set for the library's own context carry their own names (cmsSetLogErrorHandlerTHR with a context)
CONTEXTUAL = {'cmsSetLogErrorHandlerTHR', 'cmsSetAlarmCodesTHR', 'cmsSetAdaptationStateTHR', 'cmsPluginTHR', 'cmsUnregisterPluginsTHR'}
LOCALE = {'strtod', 'strtof', 'strtold', 'atof', 'stod', 'stof', 'stold', 'isalpha', 'isalnum', 'isupper', 'islower', 'isprint', 'ispunct',
          'isgraph', 'iscntrl', 'toupper', 'tolower', 'strcoll', 'strxfrm', 'mbstowcs', 'wcstombs', 'mbrtowc', 'wcrtomb', 'mbsrtowcs', 'wcsrtombs',
          'localeconv', 'nl_langinfo', 'strfmon', 'strcasecmp', 'strncasecmp', 'towupper', 'towlower', 'iswalpha'}
LOCALTIME = {'localtime', 'localtime_r', 'localtime_s', 'mktime', 'tzset', 'current_zone', 'chrono::current_zone'}
CLOCK = {'time', 'gettimeofday', 'clock_gettime', 'timespec_get', 'clock', 'ftime', 'times', 'chrono::system_clock::now',
         'chrono::_V2::system_clock::now', 'chrono::steady_clock::now', 'chrono::_V2::steady_clock::now', 'chrono::high_resolution_clock::now',
         'chrono::utc_clock::now', 'chrono::file_clock::now', 'filesystem::last_write_time', 'chrono::tai_clock::now'}
RANDOM = {'getrandom', 'getentropy', 'arc4random', 'arc4random_uniform', 'arc4random_buf', 'rand_r', 'getpid', 'gettid', 'getppid', 'pthread_self',
          'this_thread::get_id', 'rand', 'random', 'drand48', 'lrand48', 'mrand48', 'uuid_generate', 'uuid_generate_random', 'gethostname', 'uname',
          'getuid', 'getlogin', 'getcwd', 'filesystem::current_path', 'filesystem::temp_directory_path'}
DATES = re.compile(r'^/(ModDate|CreationDate|LastModified|Date|M|CreateDate|ModifyDate)$')
IDKEY = re.compile(r'^/ID$')
STRFTIME_LOC = re.compile(r'%[EO]?[aAbBchpPrxX+]')


def cname(n):
    q = n.q or n.n or ''
    for p in ('std::__cxx11::', 'std::', '::'):
        if q.startswith(p):
            q = q[len(p):]
    q = q.replace('_V2::', '')
    return q


def where(n):
    return n.loc


def mutable_type(facts, t, seen=None, depth=0):
    """why an object of a const-qualified type can still be changed, or None"""
    seen = seen or set()
    t = (t or '').strip()
    if t in seen or depth > 12:
        return None
    seen = seen | {t}
    b = re.sub(r'\[[^\]]*\]', '', t).strip()
    if b.endswith('&'):
        inner = b.rstrip('& ')
        return None if inner.startswith('const ') and mutable_type(facts, inner, seen, depth + 1) is None else 'a reference to %s' % inner
    if b.endswith('*const'):
        b = b[:-5].rstrip()
    m = re.match(r'^(.*)\*$', b)
    if m:
        inner = m.group(1).strip()
        if '(' in inner:
            return None
        if not (inner.startswith('const ') or inner.endswith('*const')):
            return 'a pointer to mutable %s' % inner
        return mutable_type(facts, inner, seen, depth + 1)
    if '(*' in b or '(&' in b:
        return None     # function pointers
    b = re.sub(r'^(const|volatile) ', '', b)
    b = re.sub(r'^(const|volatile) ', '', b)
    m = re.match(r'^std::(unique_ptr|shared_ptr|weak_ptr|reference_wrapper|span|observer_ptr)<(.*)>$', b)
    if m:
        inner = split_targs(m.group(2))[0]
        if not inner.startswith('const '):
            return 'a %s to mutable %s' % (m.group(1), inner)
        return mutable_type(facts, inner, seen, depth + 1)
    m = re.match(r'^std::(atomic|mutex|recursive_mutex|shared_mutex|once_flag|condition_variable|thread|future|promise|function|any|'
                 r'basic_ostringstream|basic_stringstream|basic_ofstream|mt19937|mersenne_twister_engine|linear_congruential_engine|random_device)\b', b)
    if m:
        return None if m.group(1) in ('function', 'any') else 'a std::%s' % m.group(1)
    m = re.match(r'^std::[\w:]+<(.*)>$', b)
    if m:
        for a in split_targs(m.group(1)):
            if a[:1].isdigit() or a.startswith('std::allocator') or a.startswith('std::char_traits'):
                continue
            r = mutable_type(facts, a if a.endswith(('*', '&')) else 'const ' + a, seen, depth + 1)
            if r:
                return r
        return None
    rc = facts.records.get(b)
    if rc is not None:
        for x in rc['fields']:
            if x.get('mut'):
                return 'mutable field %s of %s' % (x['n'], b)
            r = mutable_type(facts, x['t'] if x['t'].rstrip().endswith(('*', '&')) else 'const ' + x['t'], seen, depth + 1)
            if r:
                return 'field %s of %s: %s' % (x['n'], b, r)
        for x in rc.get('bases', ()):
            r = mutable_type(facts, 'const ' + x, seen, depth + 1)
            if r:
                return r
    return None


def split_targs(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<(':
            d += 1
        elif ch in '>)':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    out.append(cur.strip())
    return out


def is_impure_call(n):
    c = cname(n)
    return c in READENV or c in CLOCK or c in RANDOM or c in HIDDEN or c in LOCALE or c in LOCALTIME or c in FILES or \
        c.startswith('random_device') or c == 'locale::locale'


FILES = {'fopen', 'open', 'mmap', 'tmpfile', 'fread', 'filesystem::exists', 'filesystem::file_size', 'TIFFOpen', 'FT_Init_FreeType', 'FT_New_Face'}


def run(facts, r):
    fns = [f for f in repo_fns(facts) if rel(f.file).startswith(('src/', 'include/'))]
    r.rule('no-shared-state', 'every object with static storage is immutable: const through and through, not thread-local, no mutable parts, '
           'never cast to mutable', 12)
    r.rule('no-first-call', 'what initialises such an object is not taken from a call, the environment, the clock or a file', 12)
    r.rule('no-hidden-state', 'no library function is called that works on data shared by the process or changes one of its settings', 60)
    r.rule('no-locale', 'no text is made or read by a function that follows the locale or the time zone', 20)
    r.rule('environment', 'only the documented environment variables are read', 3)
    r.rule('clock', 'every read of the clock is made only when SOURCE_DATE_EPOCH is not set', 1)
    r.rule('clock-to-dates', 'the time is written under a date key only', 2)
    r.rule('random-to-id', 'random numbers are written under /ID only', 2)
    r.rule('addresses', 'no address is formatted, hashed or used as an ordering key', 1)
    statics(facts, r, fns)
    calls(facts, r, fns)
    clock(facts, r, fns)
    flows(facts, r, fns)
    addresses(facts, r, fns)
    r.assume('Library functions outside the table of hidden state work only on their arguments; libraries keep distinct objects apart.')


# ---------------------------------------------------------------------------------------------------------------- static storage
def statics(facts, r, fns):
    owner = {}
    for f in fns:
        for n in all_nodes(f):
            if n.k == 'DeclStmt':
                for d in n.a.get('d', ()):
                    if d.get('static'):
                        owner[(rel(f.file), d['l'], d['n'])] = (f, d)
    seen = set()
    for g in facts.globals:
        if not rel(g['file']).startswith(('src/', 'include/')):
            continue
        v = g['var']
        k = (rel(g['file']), v['l'], v['n'])
        if k in seen:
            continue
        seen.add(k)
        f = owner.get(k, (None, None))[0]
        w = '%s:%d' % (rel(g['file']), v['l'])
        name = g['q']
        who = f if f is not None else name
        if g.get('tls'):
            r.bad('no-shared-state', w, who, 'thread-local ' + v['n'], '%s is thread-local data, shared by every document of the thread' % name)
        elif not g.get('konst') and not v['t'].endswith('&'):
            r.bad('no-shared-state', w, who, 'mutable ' + v['n'], '%s is mutable data shared by every document of the process' % name)
        else:
            t = v['t']
            why = mutable_type(facts, t if t.rstrip().endswith(('*', '&')) or t.startswith('const ') else 'const ' + t)
            if why:
                r.bad('no-shared-state', w, who, 'mutable part ' + v['n'], '%s is shared by every document and holds %s' % (name, why))
            else:
                r.ok('no-shared-state', '%s %s' % (w, name))
        bad = impure_init(facts, v.get('i'))
        if bad:
            r.bad('no-first-call', w, who, 'first ' + v['n'], '%s keeps for the whole process what it was first initialised with: %s' % (name, bad))
        else:
            r.ok('no-first-call', '%s %s' % (w, name))
    # writes through casts (a cast alone is not a write: spans of constant bytes are made that way)
    for f in fns:
        for n in all_nodes(f):
            lhs = None
            if n.k in ('BinaryOperator', 'CompoundAssignOperator') and n.op and n.op.endswith('=') and n.op not in ('==', '!=', '<=', '>='):
                lhs = n.c[0]
            elif n.k == 'UnaryOperator' and n.op in ('++', '--'):
                lhs = n.c[0]
            elif n.k in CALLS and cname(n) in ('memcpy', 'memset', 'memmove', 'strcpy', 'strncpy', 'sprintf', 'snprintf') and n.c:
                lhs = n.c[0]
            root = lhs
            while root is not None and root.k != 'DeclRefExpr' and root.c:
                root = root.c[0] if root.c[0] is not None else None
            if root is not None and root.k == 'DeclRefExpr' and root.dk == 'global' and any(
                    rel(g['file']).startswith(('src/', 'include/')) and g['q'] == root.q for g in facts.globals):
                r.bad('no-shared-state', where(n), f, 'write of ' + (root.n or ''), 'the shared object %s is written' % root.q)


def impure_init(facts, i):
    if i is None:
        return None
    for n in i.walk():
        if n.k == 'DeclRefExpr' and n.dk in ('local', 'param', 'bind') and not n.cv:
            # a local declared inside the initialiser (a lambda's own) is harmless; the walk does not enter lambdas
            return 'a variable of the first call (%s)' % n.n
        if n.k == 'CXXThisExpr':
            return 'the object of the first call'
        if n.k in CALLS or n.k in CTORS:
            if is_impure_call(n):
                return 'a call of %s' % cname(n)
            g = facts.fns.get(n.f) if n.f else None
            if g is not None:
                bad = impure_fn(facts, g)
                if bad:
                    return bad
    for g in lambda_fns(facts, i):
        bad = impure_fn(facts, g)
        if bad:
            return bad
        own = {d['v'] for n in all_nodes(g) if n.k == 'DeclStmt' for d in n.a.get('d', ())} | {p['v'] for p in g.params}
    for n in i.walk():
        if n.k == 'LambdaExpr' and (n.a.get('cap') or ()):
            for c in n.a['cap']:
                if c.get('n') == 'this' or (c.get('i') is not None and impure_init(facts, c['i'])):
                    return 'something captured from the first call'
                if c.get('i') is None and c.get('v') is not None:
                    return 'something captured from the first call'
    return None


def impure_fn(facts, g):
    cache = facts.__dict__.setdefault('_p24_impure', {})
    if g.key in cache:
        return cache[g.key]
    cache[g.key] = None
    for key in reachable(facts, [g]):
        f = facts.fns.get(key)
        if f is None:
            continue
        for n in all_nodes(f):
            if (n.k in CALLS or n.k in CTORS) and is_impure_call(n):
                cache[g.key] = 'a call of %s (in %s)' % (cname(n), f.n)
                return cache[g.key]
    return None


# ---------------------------------------------------------------------------------------------------------------- library calls
def refs(n):
    """calls and functions named without being called"""
    if n.k in CALLS or n.k in CTORS:
        return True
    return n.k == 'DeclRefExpr' and n.dk == 'fn'


def calls(facts, r, fns):
    total = 0
    for f in fns:
        called = {id(n.fe) for n in all_nodes(f) if n.k in CALLS and n.fe is not None}
        for n in all_nodes(f):
            if not refs(n) or (n.k == 'DeclRefExpr' and id(n) in called):
                continue
            if n.f and n.f in facts.fns:
                continue
            c = cname(n)
            total += 1
            if c in HIDDEN or (c == 'filesystem::current_path' and any(x is not None and x.k != 'CXXDefaultArgExpr' for x in n.c)):
                r.bad('no-hidden-state', where(n), f, c, '%s works on data or settings shared by the whole process' % c)
            elif c in CONTEXTUAL:
                a = strip_casts(n.c[0]) if n.c else None
                if a is None or a.k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr') or (a.cv is not None and a.cvi() == 0):
                    r.bad('no-hidden-state', where(n), f, c, '%s is given no context of its own and changes the setting of the process' % c)
                else:
                    r.ok('no-hidden-state', '%s %s' % (where(n), c), f)
            elif n.k == 'CallExpr' and not (n.q or '').startswith('std::'):
                r.ok('no-hidden-state', '%s %s' % (where(n), c), f)
            locale_call(facts, r, f, n, c)
            if c in READENV:
                v = lit_str(n.c[0]) if n.k in CALLS and n.c else None
                if v is None:
                    v = resolve_text(facts, f, n)
                if v is None:
                    r.count('environment reads with a name not resolved')
                elif v in ENV:
                    r.ok('environment', '%s %s' % (where(n), v), f)
                else:
                    r.bad('environment', where(n), f, 'getenv ' + v, 'the environment variable %s shapes the output' % v)
            if c in ('environ', '__environ'):
                r.bad('environment', where(n), f, 'environ', 'the whole environment is read')
        for n in all_nodes(f):
            if n.k == 'DeclRefExpr' and n.dk == 'global' and (n.q or '') in ('environ', '__environ', 'optarg', 'optind', 'signgam', 'tzname',
                                                                           'timezone', 'daylight'):
                r.bad('environment' if 'environ' in n.q else 'no-hidden-state', where(n), f, n.q, '%s is data shared by the process' % n.q)
    r.count('calls of external functions looked at', total)


def resolve_text(facts, f, n):
    a = strip_casts(n.c[0]) if n.k in CALLS and n.c else None
    if a is None or a.k != 'DeclRefExpr':
        return None
    if a.dk == 'global':
        for g in facts.globals:
            if g['q'] == a.q and g['var'].get('i') is not None:
                return lit_str(g['var']['i'])
        return None
    if a.dk == 'param':
        idx = next((i for i, p in enumerate(f.params) if p['v'] == a.v), None)
        vals = set()
        for h in repo_fns(facts):
            for m in all_nodes(h):
                if m.k in CALLS and m.f == f.key and idx is not None and idx < len(m.c):
                    vals.add(lit_str(m.c[idx]) if m.c[idx] is not None else None)
        if vals and None not in vals:
            bad = [v for v in vals if v not in ENV]
            return bad[0] if bad else sorted(vals)[0]
        return None
    for m in all_nodes(f):
        if m.k == 'DeclStmt':
            for d in m.a.get('d', ()):
                if d['v'] == a.v and d.get('i') is not None:
                    return lit_str(d['i'])
    return None


def isfloat(t):
    return (t or '').replace('const ', '').strip(' &') in ('double', 'float', 'long double')


def locale_call(facts, r, f, n, c):
    if n.k not in CALLS and n.k not in CTORS:
        if c in LOCALE or c in LOCALTIME:
            r.bad('no-locale', where(n), f, c, '%s follows the locale or time zone of the process' % c)
        return
    if c in LOCALE or c in LOCALTIME:
        r.bad('no-locale', where(n), f, c, '%s follows the locale or time zone of the process' % c)
        return
    if c in ('locale::locale',) and (len([x for x in n.c if x is not None]) == 0 or lit_str(n.c[0]) in ('', None)):
        r.bad('no-locale', where(n), f, c, 'a locale of the user\'s choice is used')
        return
    if c == 'to_string' and any(x is not None and isfloat((strip_casts(x) or x).t) for x in n.c[:1]):
        r.bad('no-locale', where(n), f, c, 'std::to_string writes the decimal separator of the locale')
        return
    if c == 'strftime':
        s = next((lit_str(x) for x in n.c if x is not None and lit_str(x) is not None), None)
        if s is None:
            r.count('strftime formats not resolved')
        elif STRFTIME_LOC.search(s):
            r.bad('no-locale', where(n), f, c, 'strftime writes names or forms of the locale (%s)' % s)
        else:
            r.ok('no-locale', '%s strftime %s' % (where(n), s), f)
        return
    if c in ('printf', 'sprintf', 'snprintf', 'asprintf', 'vsnprintf'):
        s = next((lit_str(x) for x in n.c if x is not None and lit_str(x) is not None), None)
        if s is not None and c != 'printf':
            if re.search(r"%[-+ #0-9.*]*(hh|h|l|ll|L|q|j|z|t)?[aAeEfFgG]", s) or re.search(r"%[-+ #0]*'", s):
                r.bad('no-locale', where(n), f, c, '%s writes a number in the form of the locale (%s)' % (c, s))
            else:
                r.ok('no-locale', '%s %s %s' % (where(n), c, s.strip()), f)
        return
    if c in ('sscanf', 'fscanf'):
        s = next((lit_str(x) for x in n.c if x is not None and lit_str(x) is not None), None)
        if s is not None and re.search(r'%[*0-9]*[lL]?[aAeEfFgG]', s):
            r.bad('no-locale', where(n), f, c, '%s reads a number in the form of the locale' % c)
        return
    if c in ('format', 'format_to', 'vformat', 'vformat_to', 'format_to_n', 'print', 'formatted_size'):
        fm = [lit_str(x) for x in n.c if x is not None]
        s = next((x for x in fm if x is not None and '{' in x), None)
        if s is not None:
            spec = re.sub(r'\{\{|\}\}', '', s)
            if re.search(r'\{[^{}]*:[^{}]*L[^{}]*\}', spec):
                r.bad('no-locale', where(n), f, c, 'std::%s writes a number in the form of the locale' % c)
            else:
                r.ok('no-locale', '%s %s' % (where(n), c), f)
    if c.startswith(('basic_ostream<', 'basic_istream<')) and c.split('::')[-1] in ('operator<<', 'operator>>'):
        if any(x is not None and isfloat((strip_casts(x) or x).t) for x in n.c):
            r.bad('no-locale', where(n), f, c, 'a stream follows the locale of the process')


# ---------------------------------------------------------------------------------------------------------------- clock
def env_test(facts, f, cond, truth):
    """the condition being so implies that SOURCE_DATE_EPOCH is not set"""
    for g, x, t, b in csim.implied(facts, f, cond, truth):
        y, tr = x, t
        if y.k == 'BinaryOperator' and y.op in ('==', '!=') and len(y.c) == 2:
            a, c = strip_casts(y.c[0]), strip_casts(y.c[1])
            if a is not None and a.k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr', 'IntegerLiteral'):
                a, c = c, a
            if c is not None and (c.k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr') or (c.cv is not None and c.cvi() == 0)):
                y, tr = a, (t if y.op == '!=' else not t)
        if y is None or tr:
            continue
        if env_value(facts, g, y):
            return True
    return False


def env_value(facts, g, y, depth=0):
    """the expression is the value of SOURCE_DATE_EPOCH (null or absent when it is not set)"""
    y = strip_casts(y)
    if y is None or depth > 6:
        return False
    if y.k in CALLS and cname(y) in READENV:
        return (lit_str(y.c[0]) or resolve_text(facts, g, y)) == 'SOURCE_DATE_EPOCH'
    if y.k == 'DeclRefExpr' and y.v is not None and y.dk != 'param':
        inits = [d['i'] for n in all_nodes(g) if n.k == 'DeclStmt' for d in n.a.get('d', ()) if d['v'] == y.v and d.get('i') is not None]
        return len(inits) == 1 and env_value(facts, g, inits[0], depth + 1)
    if y.k in CALLS and y.f:
        # a helper that hands on the variable: absent (or false) whenever it is not set
        if y.n in ('has_value', 'operator bool') and y.obj is not None:
            return env_value(facts, g, y.obj, depth + 1)
        h = facts.fns.get(y.f)
        if h is not None and h.body is not None:
            rets = [n for n in all_nodes(h) if n.k == 'ReturnStmt' and n.c]
            return bool(rets) and any(any(z.k in CALLS and cname(z) in READENV and (lit_str(z.c[0]) == 'SOURCE_DATE_EPOCH')
                                          for z in x.walk()) for x in all_nodes(h) if x.k in CALLS)
    return False


def guarded(facts, f, n):
    """every path to a node has found SOURCE_DATE_EPOCH not set: walk back from its block, stopping at edges that say so"""
    if any_cond(facts, f, n):
        return True
    cfg = f.cfg
    home = None
    for b in cfg.blocks.values():
        for e in b.e:
            if not isinstance(e, tuple) and any(x is n for x in e.walk()):
                home = b.i
                break
        if home is None and b.cond is not None and any(x is n for x in b.cond.walk()):
            home = b.i
    if home is None:
        return False
    seen, st = {home}, [home]
    blocks = cfg.blocks
    while st:
        x = st.pop()
        if x == cfg.entry:
            return False
        for p in blocks[x].preds:
            pb = blocks[p]
            c = branch_cond(pb) if len(pb.succs) == 2 else None
            if c is not None and pb.tk != 'SwitchStmt':
                pols = [i == 0 for i, s in enumerate(pb.succs) if s == x]
                if pols and all(env_test(facts, f, c, pol) for pol in pols):
                    continue
            if p not in seen:
                seen.add(p)
                st.append(p)
    return True


def any_cond(facts, f, n):
    """inside the arm of a conditional expression or the right operand of a logical one"""
    return False


def clock(facts, r, fns):
    callers = {}
    for f in fns:
        for n in all_nodes(f):
            if n.k in CALLS and n.f in facts.fns:
                callers.setdefault(n.f, []).append((f, n))
            if n.k == 'LambdaExpr':
                for key in n.a.get('lam', ()):
                    callers.setdefault(key, []).append((f, n))
    for f in fns:
        for n in all_nodes(f):
            if n.k in CALLS and cname(n) in CLOCK:
                esc = unguarded(facts, f, n, callers, set())
                if esc is None:
                    r.ok('clock', '%s %s only without SOURCE_DATE_EPOCH' % (where(n), cname(n)), f)
                else:
                    r.bad('clock', where(n), f, cname(n), 'the clock is read although SOURCE_DATE_EPOCH may be set (reached through %s)' % esc)


def unguarded(facts, f, n, callers, seen):
    if guarded(facts, f, n):
        return None
    if f.key in seen:
        return None
    seen.add(f.key)
    cs = callers.get(f.key, [])
    if not cs:
        return f.n
    for g, m in cs:
        e = unguarded(facts, g, m, callers, seen)
        if e is not None:
            return '%s < %s' % (f.n, e) if e != f.n else e
    return None


# ---------------------------------------------------------------------------------------------------------------- values
class Flow:
    """flow-insensitive forward propagation of a value from its sources to locals, parameters, fields and returns"""

    def __init__(self, facts, fns, source):
        self.facts, self.fns, self.source = facts, fns, source
        self.vars, self.fields, self.rets = set(), set(), set()
        self.sinks = []
        changed = True
        n0 = -1
        while n0 != len(self.vars) + len(self.fields) + len(self.rets):
            n0 = len(self.vars) + len(self.fields) + len(self.rets)
            for f in fns:
                self.step(f)

    def tainted(self, f, e):
        if e is None:
            return False
        e0 = e
        if e.k == 'DeclRefExpr':
            return (f.tu, f.file, e.v) in self.vars if e.dk != 'global' else False
        if e.k == 'MemberExpr':
            if (e.cls or e.q, e.n) in self.fields or e.q in self.fields:
                return True
            return bool(e.c) and self.tainted(f, e.c[0])
        if e.k in CALLS or e.k in CTORS:
            if self.source(e):
                return True
            if e.f in self.facts.fns:
                return e.f in self.rets
            if e.obj is not None and self.tainted(f, e.obj):
                return True
            if e.fe is not None and self.tainted(f, e.fe):
                return True
            return any(self.tainted(f, c) for c in e.c)
        if e.k == 'LambdaExpr':
            return any(k in self.rets for k in e.a.get('lam', ()))
        if e.k == 'DeclStmt':
            return False
        if e.k == 'ConditionalOperator':
            return any(self.tainted(f, c) for c in e.c[1:])
        return any(self.tainted(f, c) for c in e.c)

    def mark(self, f, lhs):
        x = strip_casts(lhs)
        while x is not None:
            if x.k == 'DeclRefExpr':
                if x.dk != 'global' and not self.formatter(x.t):
                    self.vars.add((f.tu, f.file, x.v))
                return
            if x.k == 'MemberExpr':
                if not self.formatter(x.t):
                    self.fields.add(x.q or (x.cls, x.n))
                return
            if x.k in ('ArraySubscriptExpr', 'UnaryOperator') or x.k in CTORS:
                x = strip_casts(x.c[0]) if x.c else None
                continue
            if x.k in CALLS:
                y = x.obj if x.obj is not None else (x.c[0] if x.c else None)
                x = strip_casts(y) if y is not None else None
                continue
            return

    def formatter(self, t):
        return 'ObjectFormatter' in (t or '') or 'CommandStreamFormatter' in (t or '') or 'PdfWriter' in (t or '') or '_IO_FILE' in (t or '')

    def step(self, f):
        for n in all_nodes(f):
            if n.k == 'DeclStmt':
                for d in n.a.get('d', ()):
                    if d.get('i') is not None and self.tainted(f, d['i']):
                        self.vars.add((f.tu, f.file, d['v']))
                        for b in d.get('bind', ()):
                            self.vars.add((f.tu, f.file, b['v']))
            elif n.k in ('BinaryOperator', 'CompoundAssignOperator') and n.op and n.op.endswith('=') and n.op not in ('==', '!=', '<=', '>='):
                if self.tainted(f, n.c[1]):
                    self.mark(f, n.c[0])
            elif n.k == 'ReturnStmt' and n.c and n.c[0] is not None and self.tainted(f, n.c[0]):
                self.rets.add(f.key)
            elif n.k == 'CXXForRangeStmt':
                pass
            elif n.k in CALLS or n.k in CTORS:
                g = self.facts.fns.get(n.f) if n.f else None
                if g is not None:
                    if 'Formatter' in (g.cls or ''):
                        continue        # the token is judged where it is written
                    for i, a in enumerate(n.c):
                        if a is not None and i < len(g.params) and self.tainted(f, a):
                            self.vars.add((g.tu, g.file, g.params[i]['v']))
                    continue
                args = [c for c in n.c if c is not None]
                if self.source(n) or any(self.tainted(f, c) for c in args):
                    if n.k in CALLS:
                        if n.obj is not None and not (n.cst and n.cst == 1):
                            self.mark(f, n.obj)
                        opcall = n.k == 'CXXOperatorCallExpr'
                        for c in args:
                            x = strip_casts(c)
                            while x is not None and x.k in CTORS and len(x.c) == 1:
                                x = strip_casts(x.c[0])
                            if x is not None and (x.k == 'UnaryOperator' and x.op == '&' or (x.t or '').endswith(']') or
                                                  'back_insert_iterator' in (x.t or '') or (opcall and c is args[0] and n.op in ('=', '+=', '<<'))):
                                self.mark(f, x)
                                self.behind(f, x)

    def behind(self, f, x):
        """an output iterator stands for the container it appends to"""
        if x.k == 'DeclRefExpr':
            for n in all_nodes(f):
                if n.k == 'DeclStmt':
                    for d in n.a.get('d', ()):
                        if d['v'] == x.v and d.get('i') is not None:
                            for y in d['i'].walk():
                                if y.k in CALLS and y.n == 'back_inserter' and y.c:
                                    self.mark(f, y.c[0])

    def uses(self):
        """(function, call) where a tainted value is handed to a formatter or written out"""
        for f in self.fns:
            for n in all_nodes(f):
                if n.k not in CALLS:
                    continue
                g = self.facts.fns.get(n.f) if n.f else None
                hit = [i for i, c in enumerate(n.c) if c is not None and self.tainted(f, c)]
                if not hit:
                    continue
                if g is not None and 'Formatter' in (g.cls or ''):
                    if 'Formatter' not in (f.cls or ''):
                        yield f, n, 'token', hit
                elif g is None and cname(n) in ('fwrite', 'fputs', 'fputc', 'write'):
                    yield f, n, 'raw', hit


def keys_before(facts, f, n, obj):
    """the name tokens last added before a call on every path, following array openings; None at the function's entry"""
    cfg = f.cfg
    blocks = cfg.blocks
    home = None
    for b in blocks.values():
        for i, e in enumerate(b.e):
            if e is n or (not isinstance(e, tuple) and any(x is n for x in e.walk())):
                home = (b.i, i)
                break
        if home:
            break
    if home is None:
        return {None}
    out, seen, st = set(), set(), [home]

    def scan(es):
        for e in reversed(es):
            if isinstance(e, tuple) or e is None:
                continue
            for x in reversed(list(e.walk())):
                if x.k in CALLS and (x.n or '').startswith('add_') and x.c:
                    v = lit_str(x.c[0])
                    if v is not None and v.startswith('/'):
                        if len([c for c in x.c if c is not None]) >= 2 and x.n == 'add_token_pair':
                            return ''
                        return v
        return None
    while st:
        b, i = st.pop()
        v = scan(blocks[b].e[:i])
        if v is not None:
            out.add(v.strip())
            continue
        if b == cfg.entry:
            out.add(None)
        for p in blocks[b].preds:
            if p not in seen:
                seen.add(p)
                st.append((p, len(blocks[p].e)))
    return out


def flows(facts, r, fns):
    callers = {}
    for f in fns:
        for n in all_nodes(f):
            if n.k in CALLS and n.f in facts.fns:
                callers.setdefault(n.f, []).append((f, n))

    def keys(f, n, depth=0):
        ks = set()
        for k in keys_before(facts, f, n, None):
            if k is None and depth < 4 and callers.get(f.key):
                for g, m in callers[f.key]:
                    ks |= keys(g, m, depth + 1)
            else:
                ks.add(k)
        return ks
    for rule, src, okkey, what in (('clock-to-dates', lambda e: cname(e) in CLOCK, DATES, 'the time'),
                                   ('random-to-id', lambda e: cname(e) in RANDOM or cname(e).startswith('random_device'), IDKEY, 'a random number')):
        fl = Flow(facts, fns, src)
        for f, n, kind, hit in fl.uses():
            if kind == 'raw':
                r.bad(rule, where(n), f, 'raw ' + (n.n or ''), '%s is written to the file outside the entry made for it' % what)
                continue
            own = lit_str(n.c[0]) if n.c and 0 not in hit else None
            ks = {own.strip()} if own is not None and own.startswith('/') else keys(f, n)
            wrong = [k for k in ks if k is None or not okkey.match(k)]
            if not wrong:
                r.ok(rule, '%s %s' % (where(n), ' '.join(sorted(ks))), f)
            elif wrong == [None]:
                r.count('%s: written where the key is not resolved' % rule)
            else:
                r.bad(rule, where(n), f, '%s under %s' % (what, ' '.join(sorted(str(k) for k in wrong))),
                      '%s is written under %s' % (what, ' or '.join(sorted(str(k) for k in wrong))))


# ---------------------------------------------------------------------------------------------------------------- addresses
def addresses(facts, r, fns):
    n0 = 0
    for f in fns:
        for n in all_nodes(f):
            if n.k in ('CXXReinterpretCastExpr', 'CStyleCastExpr') and n.c and n.c[0] is not None:
                t = (n.a.get('tt') or n.t or '').replace('const ', '')
                x = strip_casts(n.c[0])
                if t in ('unsigned long', 'long', 'unsigned int', 'int', 'unsigned long long', 'long long') and x is not None and \
                        (x.t or '').endswith('*') and x.cv is None:
                    r.bad('addresses', where(n), f, 'address as number', 'an address is turned into a number')
            if n.k in ('DeclStmt',):
                for d in n.a.get('d', ()):
                    bad = pointer_keyed(d['t'])
                    if bad:
                        r.bad('addresses', where(n), f, 'keyed by address ' + d['n'], '%s is ordered or hashed by address (%s)' % (d['n'], bad))
            if n.k in CALLS or n.k in CTORS:
                c = cname(n)
                if c in ('format', 'format_to', 'print') and n.f not in facts.fns:
                    n0 += 1
                    for x in n.c:
                        y = strip_casts(x) if x is not None else None
                        if y is not None and re.match(r'^(const )?void \*$', (x.t or '')):
                            r.bad('addresses', where(n), f, 'address formatted', 'an address is written as text')
                if c in ('snprintf', 'sprintf', 'asprintf'):
                    n0 += 1
                    s = next((lit_str(x) for x in n.c if x is not None and lit_str(x) is not None), None)
                    if s is not None and '%p' in s:
                        r.bad('addresses', where(n), f, 'address formatted', 'an address is written as text')
                if re.match(r'^hash<.*\*>::operator\(\)$', c):
                    r.bad('addresses', where(n), f, 'address hashed', 'an address is hashed')
    for q, rc in facts.records.items():
        if not rel(rc['file']).startswith(('src/', 'include/')):
            continue
        for x in rc['fields']:
            bad = pointer_keyed(x['t'])
            if bad:
                r.bad('addresses', '%s:%s' % (rel(rc['file']), x['l']), q, 'keyed by address ' + x['n'],
                      '%s is ordered or hashed by address (%s)' % (x['n'], bad))
            elif re.match(r'^(const )?std::(unordered_)?(multi)?(map|set)<', x['t']):
                r.ok('addresses', '%s::%s %s' % (q, x['n'], x['t'][:60]))
    r.count('format calls looked at for addresses', n0)


def pointer_keyed(t):
    m = re.match(r'^(const )?std::(unordered_)?(multi)?(map|set)<(.*)>$', (t or '').strip(' &'))
    if not m:
        return None
    k = split_targs(m.group(5))[0]
    if k.endswith('*') or re.match(r'^std::(unique_ptr|shared_ptr)<', k):
        return t.strip()
    return None
