"""P09: every dictionary and array written through the object formatter is well formed."""
import re
from ..facts import CALLS, rel
from ..util import strip_casts
from .. import fmtmodel
from ..flow import Explorer, Client
from ..util import all_nodes, callee, lit_str, repo_fns
from ..fmtmodel import OF
from ..fmtmodel import HOLE, RECV, objects

META = {
    'title': 'Every PDF object that is written is syntactically complete and balanced',
    'statement': 'Every PDF object the library writes is syntactically well formed: dictionaries and arrays are closed exactly once and '
                 'in the right order, every dictionary is a sequence of name keys each followed by exactly one value, no dictionary '
                 'gets the same key twice, and every fixed token is a complete PDF token (a name has its slash, a string its closing '
                 'parenthesis). This holds for every combination of optional attributes a caller sets or leaves out.',
    'over': ['inputs'],
    'qtext': 'every object, every combination of optional attributes',
    'why': 'There are exponentially many combinations of optional entries; a sample of documents reaches a few branches, and most '
           'viewers silently repair or ignore malformed objects.',
    'files': ['src/objectformatter.cpp', 'src/document.cpp', 'src/pdfwriter.cpp', 'src/drawcontext.cpp', 'src/utils.cpp',
              'src/pdfcommon.cpp'],
    'mechanism': [('ObjectFormatter begin/end/add_token', 'src/objectformatter.cpp'), ('writers of each object kind', 'src/pdfwriter.cpp')],
    'technique': 'typestate analysis of ObjectFormatter over the CFG (open containers, key/value position), with string value sets for tokens',
    'level_note': 'Every formatter created or received in src/, every CFG path, helpers inlined; tokens whose text is not fixed are '
                  'judged by their known prefix and by P05. A formatter handed on in an object is required to hold one open dictionary.',
}


def show(s):
    return s.replace(HOLE, '*')


def run(facts, r):
    r.rule('balance', 'on every path containers are closed in the order they were opened, and a dictionary only after complete '
           'key/value pairs', 250)
    r.rule('key', 'whatever is written where a dictionary needs a key is a name', 200)
    r.rule('token', 'a fixed text written as a value is exactly one complete PDF object', 70)
    r.rule('taken', 'the text of a formatter is taken only when everything is closed; a formatter handed on holds one open '
           'dictionary waiting for a key', 40)
    r.rule('dup', 'no path writes the same key twice into one dictionary', 150)
    r.rule('char', 'a character is not written as a number', 100)
    r.rule('separator', 'every token the formatter appends is followed by white space before the next one', 8)
    separators(facts, r)
    m = fmtmodel.build(facts)
    r.count('formatter-using functions', len(m.roots))
    r.count('formatter events', len(m.evs))
    seen = {}
    bad = set()

    def once(k):
        if k in bad:
            return False
        bad.add(k)
        return True
    keys = {}
    for e in sorted(m.evs, key=lambda e: (e.fn.file, e.node.l, e.node.id)):
        n, f = e.node, e.fn
        if e.kind == 'bad':
            if once(('b', f.key, n.id, e.how)):
                r.bad('balance', n.loc, f, '%s#%s' % (n.n, e.how.split()[-1]), e.how)
        elif e.kind in ('open', 'close'):
            if ('o', f.key, n.id) not in seen:
                seen['o', f.key, n.id] = 1
                r.ok('balance', '%s %s' % (n.loc, n.n), f)
        elif e.kind == 'key':
            if e.how == 'value':
                if once(('k', f.key, n.id)):
                    r.bad('key', n.loc, f, n.n, 'a value (%s) is written where the dictionary needs a key' % n.n)
                continue
            vs = texts(m, e)
            wrong = [v for v in vs if not re.match(r'^/[^\s()<>\[\]{}/%]+$', v.replace(HOLE, 'x').strip())]
            if wrong:
                if once(('k', f.key, n.id)):
                    r.bad('key', n.loc, f, '%s(%s)' % (n.n, show(sorted(wrong)[0])[:40]), 'what is written where the dictionary '
                          'needs a key is not (known to be) a name: %s' % show(sorted(wrong)[0])[:60])
            elif ('k', f.key, n.id, id(e.arg)) not in seen:
                seen['k', f.key, n.id, id(e.arg)] = 1
                r.ok('key', '%s %s' % (n.loc, show(sorted(vs)[0])), f)
            if len(vs) == 1 and HOLE not in next(iter(vs)):
                keys.setdefault((e.stack[-1][1], next(iter(vs)), tuple(s[1] for s in e.stack[:-1])), {})[(f.key, n.id, e.arg.id)] = e
        elif e.kind == 'value' and e.arg is not None and e.how in ('any', 'slash'):
            k = ('v', f.key, n.id, e.arg.id)
            if k in seen:
                continue
            seen[k] = 1
            t = (e.arg.t or '').replace('const ', '').rstrip(' &')
            if t in ('char', 'unsigned char', 'signed char'):
                r.bad('char', n.loc, f, '%s#%s' % (n.n, strip_casts(e.arg).n or ''), 'a value of type %s is written as a number' % t)
            else:
                r.ok('char', n.loc, f)
            if 'char' not in t:
                continue
            vs = texts(m, e)
            for v in sorted(vs):
                if HOLE in v:
                    continue
                c = objects(v)
                if c != 1:
                    r.bad('token', n.loc, f, '%s(%s)' % (n.n, v[:40]), '"%s" is not one complete PDF object' % v[:60])
                else:
                    r.ok('token', '%s %s' % (n.loc, v[:30]), f)
        elif e.kind == 'steal':
            if e.stack:
                if once(('s', f.key, n.id)):
                    r.bad('taken', n.loc, f, 'steal', '%d container(s) can still be open when the text is taken' % len(e.stack))
            elif ('s', f.key, n.id) not in seen:
                seen['s', f.key, n.id] = 1
                r.ok('taken', '%s steal' % n.loc, f)
        elif e.kind == 'move':
            if len(e.stack) != 1 or e.stack[0][0] != 'D' or e.stack[0][2] is not None:
                if once(('m', f.key, n.id)):
                    r.bad('taken', n.loc, f, 'move', 'the formatter handed on does not hold exactly one open dictionary waiting for a key')
            elif ('m', f.key, n.id) not in seen:
                seen['m', f.key, n.id] = 1
                r.ok('taken', '%s handed on' % n.loc, f)
        elif e.kind == 'lost':
            r.count('formatter calls whose object is not tracked')
    for (site, text, outer), evs in sorted(keys.items(), key=lambda x: str(x[0])):
        l = sorted(evs.values(), key=lambda e: (e.node.l, e.node.id))
        dup = None
        for a in l:
            for b in l:
                if a.fn is b.fn and site != RECV and reaches(a, b, m.sites[site] if site in m.sites else None):
                    dup = (a, b)
                    break
            if dup:
                break
        if dup:
            r.bad('dup', dup[1].node.loc, dup[1].fn, text, 'the key %s can be written twice into the same dictionary (also at line %d)' % (
                text, dup[0].node.l))
        else:
            r.ok('dup', '%s %s' % (l[0].node.loc, text), l[0].fn)


def texts(m, e):
    vs = m.sv.vals(e.fn, e.arg)
    if e.how == 'slash':
        vs = {'/' + v for v in vs}
    return vs


def reaches(a, b, site):
    """CFG path from key a to key b that does not pass the place where the dictionary is opened"""
    fn = a.fn
    if fn.cfg is None:
        return False
    pos = {}
    for blk in fn.cfg.blocks.values():
        for i, e in enumerate(blk.e):
            if not isinstance(e, tuple):
                pos.setdefault(e.id, (blk.i, i))
    if a.node.id not in pos or b.node.id not in pos:
        return False
    stop = pos.get(site[1].id) if site is not None and site[0] is fn else None
    (ba, ia), (bb, ib) = pos[a.node.id], pos[b.node.id]
    if a is not b and ba == bb and ib > ia and not (stop and stop[0] == ba and ia < stop[1] < ib):
        return True
    if stop and stop[0] == ba and stop[1] > ia:
        return False
    seen = set()
    work = [s for s in fn.cfg.blocks[ba].succs if s >= 0]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        lim = stop[1] if stop and stop[0] == x else None
        if x == bb and (lim is None or ib < lim):
            if a is b and site is not None and site[0] is not fn:
                return False
            return True
        if lim is None:
            work.extend(s for s in fn.cfg.blocks[x].succs if s >= 0)
    return False


class Sep(Client):
    """state: 1 when text was appended to the buffer and no separator followed"""

    def __init__(self, facts, buf):
        self.facts = facts
        self.buf = buf

    def isbuf(self, n):
        n = strip_casts(n)
        while n is not None and n.k == 'MemberExpr':
            if n.n in self.buf:
                return True
            n = strip_casts(n.c[0]) if n.c else None
        return False

    def on_node(self, st, n, ctx):
        if n.k == 'CXXOperatorCallExpr' and n.op == '+=' and self.isbuf(n.c[0]):
            return [self.after(n.c[1], st)]
        if n.k == 'CXXMemberCallExpr' and n.n in ('append', 'push_back') and n.obj is not None and self.isbuf(n.obj):
            return [self.after(n.c[0], st)]
        if n.k == 'CallExpr' and n.n in ('format_to', 'copy') and any(a is not None and self.isbuf(a) for a in n.c):
            s = lit_str(n.c[1]) if n.n == 'format_to' else None
            return [0 if s and s[-1] in ' \n' else 1]
        return None

    def on_branch(self, st, cond, truth, ctx):
        # a token outside every container has no neighbour
        if truth and cond is not None and cond.k == 'CXXMemberCallExpr' and cond.n == 'empty' and 'stack' in (cond.obj.t or ''):
            return 0 if ctx.fn.cls == OF else st
        return st

    def after(self, a, st):
        x = strip_casts(a)
        if x is not None and x.k == 'ConditionalOperator':
            return max(self.after(x.c[1], st), self.after(x.c[2], st))
        if x is not None and x.k == 'MemberExpr' and x.n in ('indent', 'lead'):
            return st
        if x is not None and x.cvi() is not None:
            return 0 if x.cvi() in (10, 32) else 1
        s = lit_str(a)
        if s is not None:
            return st if s == '' else (0 if s[-1] in ' \n' else 1)
        return 1

    def inline(self, st, call, fn, ctx):
        return fn.cls == OF and ctx.depth < 8


def separators(facts, r):
    rec = facts.records.get(OF)
    if rec is None:
        return
    buf = {f['n'] for f in rec['fields'] if 'basic_string<char>' in f['t'] and 'stack' not in f['t']}
    cl = Sep(facts, buf)
    ex = Explorer(facts, cl)
    for f in sorted(repo_fns(facts), key=lambda f: (f.file, f.l)):
        if f.cls != OF or f.ctor or f.dtor or f.access == 'private' or f.cfg is None or f.n in ('steal', 'operator='):
            continue
        if f.const:
            continue
        out = ex.run(f, 0)
        if any(s for _, s in out):
            r.bad('separator', f.loc, f, f.n, 'the token it appends is not followed by a separator: the next token runs into it')
        else:
            r.ok('separator', '%s %s' % (f.loc, f.n), f)
