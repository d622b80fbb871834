"""P07: the output file is replaced atomically or not at all."""
from ..facts import CALLS, CTORS, rel, AnalysisBroken
from ..util import (all_nodes, callee, repo_fns, strip_casts, lit_str, direct_callees, reachable, api_roots, split_not,
                    dtor_index)
from ..flow import Explorer, Client, OK, ERR, ANY

META = {
    'title': 'Saving replaces the output file atomically or leaves it untouched',
    'statement': 'A save that reports success has flushed, synced and closed the complete document in a temporary file next to the '
                 'output file, with each of these steps checked, and then renamed it over the output file. A save that fails at any '
                 'step, or is cut short by a crash, never touches what was at the output path before, and a failed save leaves no '
                 'temporary file behind. The temporary file never has the name of the output file itself.',
    'over': ['fault_sequences', 'crash_points', 'inputs'],
    'qtext': 'every failing step and crash point of a save, every output path',
    'why': 'Needs a failing disk or a crash at a particular point; tests only save successfully.',
    'files': ['src/pdfwriter.cpp', 'src/generator.cpp'],
    'mechanism': [('PdfWriter::write_to_file: temp file, fflush, fsync, fclose, rename', 'src/pdfwriter.cpp')],
    'technique': 'typestate of the output file along every CFG path (open temp, write, flush, sync, close, rename), with path roles',
    'level_note': 'All paths of the save, helpers inlined; trusts fsync/rename of the operating system (POSIX) and does not model '
                  'the directory entry being synced.',
}

DEST, TEMP, MAYBE = 'dest', 'temp', 'maybe'
STEPS = {'fflush': 'flush', 'fsync': 'sync', 'fdatasync': 'sync', '_commit': 'sync', 'fclose': 'close'}
DESTROY = {'remove', 'unlink', 'truncate', 'remove_all', 'resize_file', 'copy_file', 'copy'}


def wmode(n):
    m = lit_str(n.c[1]) if len(n.c) > 1 else None
    return m is None or m[:1] in ('w', 'a') or '+' in m


def is_open(n):
    return n.k == 'CallExpr' and n.n in ('fopen', 'fopen64', '_wfopen', 'freopen') and wmode(n)


def is_stream(n):
    return n.k in CTORS and (n.t or '').startswith(('std::basic_ofstream', 'std::basic_fstream'))


class Save(Client):
    def __init__(self, facts, rep, writes, special, guards):
        self.facts = facts
        self.rep = rep
        self.writes = writes      # keys of functions that put bytes into the file
        self.special = special    # functions to follow
        self.guards = guards      # classes whose destructor removes a file
        self.seen = set()

    def has(self, st, *x):
        return tuple(x) in st

    def add(self, st, *x):
        return st | {tuple(x)}

    def drop(self, st, *kinds):
        return frozenset(e for e in st if e[0] not in kinds)

    def role(self, st, n):
        n = strip_casts(n)
        if n is None:
            return None
        if n.k == 'DeclRefExpr' and n.v is not None:
            for e in st:
                if e[0] == 'role' and e[1] == n.v:
                    return e[2]
            return None
        if n.k == 'CXXMemberCallExpr' and n.obj is not None:
            if n.n in ('string', 'c_str', 'native', 'data', 'u8string', 'generic_string', 'str', 'view', 'get') or (n.n or '').startswith('operator '):
                return self.role(st, n.obj)
            if n.n in ('replace_extension', 'replace_filename', 'parent_path', 'filename', 'stem', 'substr', 'lexically_normal'):
                r = self.role(st, n.obj)
                return MAYBE if r is not None else None
            if n.n in ('append', 'concat', 'operator+='):
                return self.grow(self.role(st, n.obj), n.c[0] if n.c else None)
        if n.k == 'CXXOperatorCallExpr' and n.op == '+' and len(n.c) == 2:
            a, b = self.role(st, n.c[0]), self.role(st, n.c[1])
            if a is not None:
                return self.grow(a, n.c[1])
            if b is not None:
                return self.grow(b, n.c[0])
        if n.k == 'CXXOperatorCallExpr' and n.op in ('+=',) and len(n.c) == 2:
            return self.grow(self.role(st, n.c[0]), n.c[1])
        if n.k == 'CallExpr' and n.n == 'format' and len(n.c) == 2:
            r = self.role(st, n.c[1])
            f = lit_str(n.c[0])
            if r is not None:
                return TEMP if r in (DEST, TEMP) and f and f.startswith('{}') and len(f) > 2 else (r if f == '{}' else MAYBE)
        if n.k in CTORS and n.c and n.c[0] is not None:
            return self.role(st, n.c[0])
        if n.k == 'ConditionalOperator':
            a, b = self.role(st, n.c[1]), self.role(st, n.c[2])
            return a if a == b else (MAYBE if DEST in (a, b) or MAYBE in (a, b) else None)
        return None

    @staticmethod
    def grow(r, a):
        if r in (DEST, TEMP):
            x = lit_str(a)
            y = strip_casts(a)
            if x or (y is not None and y.k == 'CharacterLiteral'):
                return TEMP
            return r if x == '' else (MAYBE if r == DEST else TEMP)
        return r

    def bad(self, rule, n, ctx, detail, msg):
        if (rule, n.fn.key, n.id, detail) not in self.seen:
            self.seen.add((rule, n.fn.key, n.id, detail))
            self.rep.bad(rule, n.loc, n.fn, detail, msg)

    def setrole(self, st, v, r):
        st = frozenset(e for e in st if not (e[0] == 'role' and e[1] == v))
        return self.add(st, 'role', v, r) if r is not None else st

    def on_node(self, st, n, ctx):
        if n.k == 'DeclStmt':
            for d in n.a.get('d', ()):
                if d.get('i') is not None:
                    st = self.setrole(st, d['v'], self.role(st, d['i']))
                    k = self.status(st, d['i'])
                    st = frozenset(e for e in st if not (e[0] == 'pend' and e[1] == d['v']))
                    if k:
                        st = self.add(st, 'pend', d['v'], k[0], k[1])
                t = (d['t'] or '').replace('const ', '')
                if any(t == g for g in self.guards):
                    st = self.add(st, 'guard', d['v'])
            return [st]
        if n.k in ('BinaryOperator', 'CXXOperatorCallExpr') and n.op in ('=', '+=') and n.c:
            l = strip_casts(n.c[0])
            if l is not None and l.k == 'DeclRefExpr' and l.v is not None:
                r = self.role(st, n.c[1]) if n.op == '=' else self.grow(self.role(st, n.c[0]), n.c[1])
                k = self.status(st, n.c[1]) if n.op == '=' else None
                st = self.setrole(st, l.v, r)
                st = frozenset(e for e in st if not (e[0] == 'pend' and e[1] == l.v))
                if k:
                    st = self.add(st, 'pend', l.v, k[0], k[1])
            return [st]
        if n.k == 'CXXMemberCallExpr' and n.obj is not None and not n.cst:
            o = strip_casts(n.obj)
            if o is not None and o.k == 'DeclRefExpr' and o.v is not None and self.has(st, 'guard', o.v):
                return [st - {('guard', o.v)}]
            if o is not None and o.k == 'DeclRefExpr' and o.v is not None and self.role(st, o) is not None and n.n in (
                    'replace_extension', 'replace_filename', 'append', 'concat', 'operator+=', 'assign', 'push_back', 'remove_filename'):
                return [self.setrole(st, o.v, self.grow(self.role(st, o), n.c[0]) if n.n in ('append', 'concat', 'push_back') and n.c
                                     and 'path' not in (o.t or '') else (self.grow(self.role(st, o), n.c[0]) if n.n == 'concat'
                                                                         else MAYBE))]
        if is_open(n) or is_stream(n):
            r = self.role(st, n.c[0]) if n.c and n.c[0] is not None else None
            self.rep.ok('temp', '%s %s' % (n.loc, n.n or n.t), ctx.fn)
            if r == DEST:
                self.bad('temp', n, ctx, 'open', 'the output file itself is opened for writing')
            elif r == MAYBE:
                self.bad('temp', n, ctx, 'open', 'the name of the temporary file can be the name of the output file')
            st = self.drop(st, 'flush', 'sync', 'close', 'renamed', 'removed', 'dirty')
            return [self.add(st, 'open')]
        if n.k == 'CallExpr' and n.n in DESTROY and (n.ec or (n.q or '').startswith('std::')) and n.c:
            rs = [self.role(st, a) for a in n.c if a is not None]
            if n.q == 'std::copy' and not any(rs):
                return None
            if DEST in rs or MAYBE in rs:
                self.bad('touch', n, ctx, n.n, 'the output file is removed, truncated or overwritten in place')
            if n.n in ('remove', 'unlink') and TEMP in rs:
                return [self.add(st, 'removed')]
            return None
        if n.k == 'CallExpr' and n.n == 'rename' and len(n.c) >= 2:
            a, b = self.role(st, n.c[0]), self.role(st, n.c[1])
            self.rep.ok('order', '%s rename' % n.loc, ctx.fn)
            if b != DEST:
                self.bad('order', n, ctx, 'target', 'the file is renamed to something that is not the output path')
            if a != TEMP:
                self.bad('order', n, ctx, 'source', 'what is renamed is not the temporary file')
            for f, what in (('flush', 'flushed'), ('sync', 'synced'), ('close', 'closed')):
                if not self.has(st, f):
                    self.bad('order', n, ctx, f, 'the output file can be replaced although the new content has not been %s with success' % what)
            if self.has(st, 'werr'):
                self.bad('order', n, ctx, 'werr', 'the output file can be replaced although writing the content failed')
            st = self.add(st, 'tried')
            if len(n.c) == 2 and (n.q or '').startswith('std::filesystem'):
                return [self.add(st, 'renamed')]
            for x in n.c[2:]:
                y = strip_casts(x)
                if y is not None and y.k == 'DeclRefExpr' and y.v is not None:
                    st = frozenset(e for e in st if not (e[0] == 'pend' and e[1] == y.v))
                    st = self.add(st, 'pend', y.v, 'renamed', False)
            return [st]
        if n.k in CALLS and n.f in self.writes and n.f not in self.special:
            st2 = self.drop(st, 'flush', 'sync')
            if self.has(st, 'close'):
                self.bad('order', n, ctx, 'late', 'bytes are written after the file was closed')
            if 'expected' in (n.t or ''):
                return [('@ok', self.add(st2, 'dirty')), ('@err', self.add(self.add(st2, 'dirty'), 'werr'))]
            return [self.add(st2, 'dirty')]
        return None

    # success of a step is learnt from conditions on its result
    def status(self, st, n):
        """(step, truth value of n that means success) or None"""
        n, pol = split_not(n)
        if n is None:
            return None
        if n.k == 'CallExpr' and n.n in STEPS:
            return (STEPS[n.n], not pol)
        if is_open(n):
            return ('open', pol)
        if n.k == 'CallExpr' and n.n == 'rename' and not (n.q or '').startswith('std::filesystem'):
            return ('renamed', not pol)
        if n.k in CALLS:
            for e in st:
                if e[0] == 'rv' and e[1] == n.id:
                    return (e[2], e[3] == pol)
        if n.k == 'DeclRefExpr' and n.v is not None:
            for e in st:
                if e[0] == 'pend' and e[1] == n.v:
                    return (e[2], e[3] == pol)
            return None
        if n.k == 'CXXMemberCallExpr' and n.n in ('operator bool', 'value') and n.obj is not None:
            k = self.status(st, n.obj)
            return None if k is None else (k[0], k[1] == pol)
        if n.k in ('BinaryOperator', 'CXXOperatorCallExpr', 'CXXRewrittenBinaryOperator') and n.op in ('==', '!=', '<', '>=') and len(n.c) == 2:
            for a, b in ((n.c[0], n.c[1]), (n.c[1], n.c[0])):
                y = strip_casts(b)
                cv = y.cvi() if y is not None else None
                if y is not None and y.k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr'):
                    cv = 0
                k = self.status(st, a)
                if k is None or cv not in (0, -1):
                    continue
                t, succ_nonzero = k          # success when a is truthy == succ_nonzero
                if succ_nonzero:
                    if cv == 0 and n.op in ('==', '!='):
                        return (t, (n.op == '!=') == pol)
                    continue
                if n.op in ('==', '!='):
                    # success means a == 0
                    s = (n.op == '==') if cv == 0 else (n.op == '!=')
                    return (t, s == pol)
                if n.op == '<' and a is n.c[0] and cv == 0:
                    return (t, False == pol)
                if n.op == '>=' and a is n.c[0] and cv == 0:
                    return (t, True == pol)
        return None

    def on_branch(self, st, cond, truth, ctx):
        k = self.status(st, cond)
        if k is None:
            return st
        if k[0] == '#const':
            return st if truth == k[1] else None
        if truth == k[1]:
            if k[0] == 'sync' and not self.has(st, 'flush'):
                return st
            return self.add(st, k[0])
        if k[0] == 'close':
            return self.add(st, 'closed-badly')
        if k[0] == 'open':
            return self.drop(st, 'open')
        return st

    def inline(self, st, call, fn, ctx):
        return fn.key in self.special and fn.cfg is not None and ctx.depth < 10

    def enter(self, st, call, fn, ctx):
        new = frozenset(e for e in st if e[0] not in ('role', 'pend', 'rv'))
        for p, a in zip(fn.params, call.c):
            r = self.role(st, a) if a is not None else None
            if r is not None:
                new = self.add(new, 'role', p['v'], r)
        return new

    def leave(self, before, after, call, fn, ctx):
        keep = frozenset(e for e in before if e[0] in ('role', 'pend', 'rv'))
        st = keep | frozenset(e for e in after if e[0] not in ('role', 'pend', 'rv', 'ret'))
        for e in after:
            if e[0] == 'ret':
                st = self.add(st, 'rv', call.id, e[1], e[2])
        return st

    def on_return(self, st, n, ctx):
        if n.c and n.c[0] is not None and ctx.fn.rt in ('bool', 'int'):
            k = self.retval(st, n.c[0])
            if k is not None:
                return self.add(st, 'ret', k[0], k[1])
        return st

    def retval(self, st, n):
        n = strip_casts(n)
        if n is None:
            return None
        if n.k == 'BinaryOperator' and n.op in ('&&', '||'):
            a = self.retval(st, n.c[0])
            if a is None:
                return None
            # the left operand was decided on the way here
            av = a[1] if a[0] == '#const' else (a[1] if self.has(st, a[0]) else not a[1])
            if n.op == '&&':
                return self.retval(st, n.c[1]) if av else ('#const', False)
            return ('#const', True) if av else self.retval(st, n.c[1])
        k = self.status(st, n)
        if k is not None:
            return k
        if n.cvi() is not None:
            return ('#const', bool(n.cvi()))
        return None

    def on_dtor(self, st, vid, ctx):
        for e in st:
            if e == ('guard', vid):
                return frozenset(x for x in st if x != e) | ({('removed',)} if not self.has(st, 'renamed') else frozenset())
        return st


def run(facts, r):
    r.rule('temp', 'the file opened for writing is never, and can never be, the output file itself', 1)
    r.rule('touch', 'nothing but the final rename acts on the output path', 1)
    r.rule('order', 'the rename over the output path happens only after the content was written, flushed, synced and closed, each '
           'with success', 1)
    r.rule('success', 'a save reports success only after the rename succeeded', 1)
    r.rule('leftover', 'a save that fails after creating the temporary file removes it', 1)
    r.rule('writers', 'no other code reachable from the API opens, renames or removes files', 1)
    roots = api_roots(facts)
    live = reachable(facts, roots)
    dt = dtor_index(facts)
    removes = {f.key for f in facts.fns.values() if any(n.k == 'CallExpr' and n.n in ('remove', 'unlink') and n.c and (
        n.ec or (n.q or '').startswith('std::filesystem')) for n in all_nodes(f))}
    guards = {c for c, l in dt.items() for f in l if f.key in removes}
    sens = set()
    opens = set()
    for f in repo_fns(facts):
        if not rel(f.file).startswith('src/') or f.key not in live:
            continue
        for n in all_nodes(f):
            if is_open(n) or is_stream(n):
                opens.add(f.key)
                sens.add(f.key)
            elif n.k == 'CallExpr' and n.n in (set(STEPS) | {'rename', 'remove', 'unlink'}) and n.c and (
                    n.ec or (n.q or '').startswith('std::filesystem')):
                if n.n == 'fclose' and len(f.params) == 0:
                    continue
                sens.add(f.key)
    if not opens:
        raise AnalysisBroken('P07: no code that opens a file for writing was found')
    # functions putting bytes into a file
    direct = {f.key for f in repo_fns(facts) if any(n.k in CALLS and n.n in ('fwrite', 'fputs', 'fputc', 'fprintf') and
                                                    not any(x.n == 'stderr' for a in n.c if a is not None for x in a.walk())
                                                    for n in all_nodes(f))}
    callers = {}
    for f in repo_fns(facts):
        for g in direct_callees(facts, f):
            callers.setdefault(g.key, set()).add(f.key)

    def up(keys):
        seen = set(keys)
        st = list(keys)
        while st:
            for c in callers.get(st.pop(), ()):
                if c not in seen:
                    seen.add(c)
                    st.append(c)
        return seen
    writes = up(direct)
    openers = up(opens) & set(live)
    special = up(sens) & set(live) - {x.key for x in roots}
    # the functions that get the path and end up opening it
    starts = [facts.fns[k] for k in openers if k in live and any(path_param(p) for p in facts.fns[k].params) and not facts.fns[k].externc]
    starts = [f for f in starts if not any(g in {x.key for x in starts} for g in callers.get(f.key, ()))]
    if not starts:
        raise AnalysisBroken('P07: the function that receives the output path was not found')
    visited = set()
    for f in starts:
        c = Save(facts, r, writes, special, guards)
        p = [p for p in f.params if path_param(p)][0]
        ex = Explorer(facts, c)
        exits = ex.run(f, frozenset({('role', p['v'], DEST)}))
        visited |= ex.fns_visited
        r.ok('touch', '%s %s: %d blocks' % (f.loc, f.n, ex.blocks_visited), f)
        bad = set()
        for kind, st in exits:
            if kind == ERR:
                if ('open',) in st and ('renamed',) not in st and ('removed',) not in st:
                    bad.add('leftover')
            elif ('renamed',) not in st:
                bad.add('success')
        r.ok('success', f.loc, f)
        r.ok('leftover', f.loc, f)
        if 'success' in bad:
            r.bad('success', f.loc, f, 'rename', 'success can be reported although the output file was not replaced')
        if 'leftover' in bad:
            r.bad('leftover', f.loc, f, 'temp', 'a failing save can leave its temporary file behind')
    for f in repo_fns(facts):
        if not rel(f.file).startswith('src/') or f.key not in live:
            continue
        hit = [n for n in all_nodes(f) if is_open(n) or is_stream(n) or n.k == 'CallExpr' and n.n in ('rename', 'truncate', 'unlink', 'remove')
               and n.c and (n.ec or (n.q or '').startswith('std::filesystem'))]
        if hit and f.key not in visited and f.key not in removes:
            r.bad('writers', hit[0].loc, f, hit[0].n or 'stream', 'a file is written, renamed or removed outside the save protocol')
        elif hit:
            r.ok('writers', '%s %s' % (f.loc, f.n), f)


def path_param(p):
    return p['t'].replace('const ', '').rstrip(' &') in ('char *', 'std::basic_string<char>', 'std::filesystem::path',
                                                        'std::basic_string_view<char>', 'std::filesystem::__cxx11::path')
