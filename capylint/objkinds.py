"""What each indirect object is: delayed record, or the top-level keys/values of the dictionary (or items of the array) it is given."""
from .facts import CALLS, CTORS
from .util import strip_casts, callee, all_nodes
from . import fmtmodel, origins

FMT = 'capypdf::internal::ObjectFormatter'


class Kind:
    """rec: delayed record name; dict: {key: set(texts)} ; items: set(texts) of an array; stream: carries data"""
    __slots__ = ('rec', 'keys', 'items', 'stream', 'known', 'array')

    def __init__(self):
        self.rec = None
        self.keys = {}
        self.items = set()
        self.stream = False
        self.known = True
        self.array = False

    def has(self, key, *vals):
        if key not in self.keys:
            return False
        v = {strip_nul(x) for x in self.keys[key]}
        return not vals or (bool(v) and v <= set(vals)) or not v

    def describe(self):
        if self.rec:
            return self.rec
        if self.items:
            return 'array [%s ...]' % ' '.join(sorted(self.items))
        if self.keys:
            return 'dictionary <<%s%s>>' % (' '.join(k + (' ' + '|'.join(sorted(map(strip_nul, v))) if len(v) < 3 and k in ('/Type', '/Subtype', '/S') else '')
                                                  for k, v in sorted(self.keys.items()))[:120], ' stream' if self.stream else '')
        return 'stream' if self.stream else 'empty dictionary'


def strip_nul(x):
    return x.replace('\0', '') if isinstance(x, str) else x


class Kinds:
    def __init__(self, facts):
        self.facts = facts
        self.m = fmtmodel.build(facts)
        self.o = origins.build(facts)
        self.tops = {}        # (fnkey, var) -> set of top-level site ids
        self.top = {}         # site id -> {key: set(texts)}
        self.items = {}       # array site id -> set(texts)
        self.memo = {}
        for e in self.m.evs:
            if e.kind == 'open' and not e.stack and e.node.obj is not None:
                v = strip_casts(e.node.obj)
                if v is not None and v.k == 'UnaryOperator':
                    v = strip_casts(v.c[0])
                if v is not None and v.k == 'DeclRefExpr' and v.v is not None:
                    self.tops.setdefault((e.fn.key, v.v), set()).add((e.fn.key, e.node.id))
                elif v is not None and v.k == 'MemberExpr':
                    self.tops.setdefault(('f', v.cls, v.n), set()).add((e.fn.key, e.node.id))
            if len(e.stack) == 1 and e.kind in ('value', 'open'):
                fr = e.stack[0]
                if fr[0] == 'D' and fr[2] is not None:
                    for k in self.keytext(fr[2]):
                        s = self.top.setdefault(fr[1], {}).setdefault(k, set())
                        if e.kind == 'value' and e.arg is not None and e.node.n in ('add_token', 'add_token_pair'):
                            s |= {x for x in self.m.sv.vals(e.fn, e.arg) if isinstance(x, str)}
                elif fr[0] == 'A' and e.kind == 'value' and e.arg is not None and e.node.n == 'add_token':
                    self.items.setdefault(fr[1], set()).update(
                        x for x in self.m.sv.vals(e.fn, e.arg) if isinstance(x, str) and x.startswith('/'))

    def keytext(self, kid):
        f, n, a = self.m.keynodes[kid]
        return {x for x in self.m.sv.vals(f, a) if isinstance(x, str)} if a is not None else set()

    def kind(self, key):
        """list of Kind for the object appended at add site `key` (several when the dictionary comes from several places)"""
        if key in self.memo:
            return self.memo[key]
        f, call, payload = self.o.addsites[key]
        self.memo[key] = r = self.of_payload(f, payload)
        return r

    def of_payload(self, f, n):
        x = n
        for _ in range(12):
            if x is None:
                break
            t = origins.clean(x.t)
            last = t.rsplit('::', 1)[-1]
            if t.startswith('capypdf::internal::') and '<' not in t:
                if last in ('FullPDFObject', 'DeflatePDFObject'):
                    y = strip_casts(x)
                    while y is not None and y.k in CTORS and len([c for c in y.c if c is not None]) == 1 and origins.clean(y.c[0].t if y.c[0] else '') == t:
                        y = strip_casts(y.c[0])
                    return self.of_object(f, y, last)
                if last.startswith('Delayed') or last == 'DummyIndexZero':
                    k = Kind()
                    k.rec = last
                    return [k]
            kids = [c for c in x.kids()]
            if len(kids) != 1:
                if x.k == 'CallExpr' and kids:
                    kids = kids[:1]
                else:
                    break
            x = kids[0]
        k = Kind()
        k.known = False
        return [k]

    def of_object(self, f, y, last):
        out = []
        if y is not None and y.k == 'DeclRefExpr' and y.v is not None:
            for g, d in self.o.defs.get(('v', f.tu, y.v), ()):
                out += self.of_payload(g, d)
            if out:
                return out
        if y is None or y.k not in ('InitListExpr', 'CXXParenListInitExpr') or not y.c:
            k = Kind()
            k.known = False
            return [k]
        stream = last == 'DeflatePDFObject'
        if not stream and len(y.c) > 1 and y.c[1] is not None:
            z = strip_casts(y.c[1])
            stream = not (z is None or z.k == 'CXXDefaultInitExpr' or (z.k in CTORS or z.k == 'InitListExpr') and not [c for c in z.c if c is not None])
        for d in self.dicts(f, y.c[0], set()):
            k = Kind()
            k.stream = stream
            if d is None:
                k.known = False
            elif isinstance(d, str):
                k.items = {w for w in d.replace('[', ' ').split() if w.startswith('/')} if d.lstrip().startswith('[') else set()
                k.known = k.array = bool(k.items)
            else:
                fn = self.facts.fns[d[0]]
                if self.m.sites[d][1].n.startswith('begin_array') if d in self.m.sites else False:
                    k.items = self.items.get(d, set())
                    k.array = True
                else:
                    k.keys = self.top.get(d, {})
            out.append(k)
        return out

    def dicts(self, f, n, seen):
        """site ids (or literal text, or None when unknown) of the dictionaries an expression may hold"""
        n = strip_casts(n)
        if n is None or (f.key, n.id) in seen or len(seen) > 200:
            return set()
        seen.add((f.key, n.id))
        if n.k == 'CallExpr' and n.q in ('std::move', 'std::forward', 'std::as_const') and n.c:
            return self.dicts(f, n.c[0], seen)
        if n.k in CTORS and len([c for c in n.c if c is not None and c.k != 'CXXDefaultArgExpr']) == 1:
            return self.dicts(f, n.c[0], seen)
        if n.k == 'CXXMemberCallExpr' and n.cls == FMT and n.obj is not None:
            return self.dicts(f, n.obj, seen)
        if n.k == 'CallExpr' and n.n == 'format' and n.c:
            t = {x for x in self.m.sv.vals(f, n) if isinstance(x, str)}
            return t or {None}
        if n.k == 'StringLiteral':
            return {x for x in self.m.sv.vals(f, n)}
        if n.k == 'UnaryOperator' and n.op in ('*', '&'):
            return self.dicts(f, n.c[0], seen)
        if n.k == 'CXXOperatorCallExpr' and n.op in ('*', '->') and n.c:
            return self.dicts(f, n.c[0], seen)
        if n.k == 'DeclRefExpr' and n.v is not None:
            s = ('v', f.tu, n.v)
            if (f.key, n.v) in self.tops:
                return set(self.tops[(f.key, n.v)])
            out = set()
            for g, x in self.o.defs.get(s, ()):
                out |= self.dicts(g, x, seen)
            if s in self.o.params:
                g, i = self.o.params[s]
                for h, call in self.o.sites.get(g.key, ()):
                    a = self.o.args_of(call, g)
                    if i < len(a) and a[i] is not None:
                        out |= self.dicts(h, a[i], seen)
            return out or {None}
        if n.k == 'MemberExpr' and n.dk == 'field' and not (n.cls or '').startswith('std::'):
            s = ('f', n.cls, n.n)
            if s in self.tops:
                return set(self.tops[s])
            out = set()
            for g, x in self.o.defs.get(s, ()):
                out |= self.dicts(g, x, seen)
            return out or {None}
        if n.k in CALLS:
            g = callee(self.facts, n)
            if g is not None:
                out = set()
                for x in all_nodes(g):
                    if x.k == 'ReturnStmt' and x.c and x.c[0] is not None and not origins.failure(x.c[0]):
                        out |= self.dicts(g, x.c[0], seen)
                return out or {None}
            if n.obj is not None and n.n in ('value', 'get', 'operator*', 'str'):
                return self.dicts(f, n.obj, seen)
        if n.k in ('InitListExpr', 'CXXParenListInitExpr') and len(n.c) == 1:
            return self.dicts(f, n.c[0], seen)
        return {None}


def build(facts):
    k = getattr(facts, '_objkinds', None)
    if k is None:
        k = facts._objkinds = Kinds(facts)
    return k
