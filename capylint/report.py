"""Reporting: instances analysed, violations, known findings, evidence."""
import json, os, time
from .facts import VERIF, REPO, AnalysisBroken, rel

KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')


def known_findings(pid):
    out = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                line = line.rstrip('\n')
                if not line.startswith('finding: '):
                    continue
                head, _, what = line[len('finding: '):].partition(' :: ')
                d = dict(x.split('=', 1) for x in head.split(' ', 1) if '=' in x)
                if d.get('property') == pid and 'key' in d:
                    out[d['key']] = what
    return out


class Report:
    def __init__(self, pid, tier='quick'):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.rules = {}       # rule -> text
        self.inst = {}        # rule -> list of instance descriptions
        self.viol = []        # dicts
        self.floors = {}
        self.notes = []
        self.functions = set()
        self.counts = {}
        self._keys = {}
        self.assumptions = []

    def rule(self, name, text, floor=1):
        self.rules[name] = text
        self.inst.setdefault(name, [])
        self.floors[name] = floor

    def ok(self, rule, desc, fn=None):
        self.inst[rule].append(desc)
        if fn is not None:
            self.functions.add(fn.q if hasattr(fn, 'q') else fn)

    def bad(self, rule, where, fn, detail, msg, count=True):
        """detail: stable (line-free) identification of the construct"""
        fq = fn.q if hasattr(fn, 'q') else str(fn)
        key = '%s|%s|%s' % (rule, short(fq), detail)
        n = self._keys.get(key, 0)
        self._keys[key] = n + 1
        if n:
            key += '#%d' % (n + 1)
        if count:
            self.inst[rule].append('%s %s' % (where, detail))
        self.viol.append({'rule': rule, 'where': where, 'function': fq, 'key': key.replace(' ', '_'), 'msg': msg})

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def assume(self, text):
        self.assumptions.append(text)


def short(q):
    return q.replace('capypdf::internal::', '').replace(' ', '_')


def finish(r):
    known = known_findings(r.pid)
    for rule, floor in r.floors.items():
        n = len(r.inst[rule])
        if n < floor and all(v['key'] in known for v in r.viol):
            raise AnalysisBroken('%s: rule %s examined only %d instances (at least %d expected): the analysis no '
                                 'longer sees the constructs it judges' % (r.pid, rule, n, floor))
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    new = []
    hit = set()
    for v in r.viol:
        if v['key'] in known:
            hit.add(v['key'])
            print('KNOWN-FINDING: property=%s %s [%s] %s' % (r.pid, v['where'], v['key'], known[v['key']]))
        else:
            new.append(v)
    replay = os.path.join(evdir, r.pid + '.violations.txt')
    if new:
        with open(replay, 'w') as f:
            for v in new:
                f.write('%s: rule %s: in %s: %s\n  key=%s\n  rule: %s\n' % (v['where'], v['rule'], v['function'], v['msg'],
                                                                     v['key'], r.rules.get(v['rule'], '')))
    elif os.path.exists(replay):
        os.unlink(replay)
    for v in new[:40]:
        print('%s: [%s] %s: %s  (key=%s)' % (v['where'], v['rule'], short(v['function']), v['msg'], v['key']))
    if new:
        print('VIOLATION property=%s replay=%s' % (r.pid, replay))
    total = sum(len(x) for x in r.inst.values())
    samples = []
    for rule, l in r.inst.items():
        for s in l[:4]:
            samples.append('%s: %s' % (rule, s))
    ev = {
        'property': r.pid,
        'tier': r.tier,
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other',
        'coverage': {
            'explanation': 'Static analysis of the resolved program (clang AST, types, CFG) extracted from the current '
                           'sources. Rules: ' + ' | '.join('%s: %s' % kv for kv in r.rules.items()),
            'rule': '; '.join('%s: %s' % kv for kv in r.rules.items()),
            'obligations': total,
            'discharged': total - len(r.viol),
            'obligations_per_rule': {k: len(v) for k, v in r.inst.items()},
            'functions_analysed': len(r.functions),
            'counts': r.counts,
            'samples': samples[:40],
            'known_findings_hit': sorted(hit),
        },
        'wall_s': round(time.time() - r.t0, 2),
        'assumptions': r.assumptions or ['clang\'s resolution of the program (its AST, types and CFG) is correct'],
        'violations': len(new),
    }
    with open(os.path.join(evdir, r.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations over %d functions, %d violations (%d known)' % (r.pid, total, len(r.functions), len(new),
                                                                          len(r.viol) - len(new)))
    return 1 if new else 0
