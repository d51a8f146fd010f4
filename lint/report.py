"""Collecting obligations, known findings, evidence and exit codes."""
from __future__ import annotations
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, 'known_findings.txt')


class Check:
    """One run of one property's analysis.

    Every obligation has a rule, an instance key (names of program
    constructs, never line numbers) and a verdict: holds / violated /
    undecided.  `floor(rule, n)` states how many obligations of a rule were
    confirmed by hand on the reference tree: fewer is a broken analysis.
    """

    def __init__(self, pid, title):
        self.pid, self.title = pid, title
        self.t0 = time.time()
        self.rows = []
        self.floors = {}
        self.rules = {}
        self.units = set()
        self.functions = set()
        self.notes = []
        self.seen = set()

    def rule(self, name, text):
        self.rules[name] = text

    def add(self, rule, key, ok, where='', msg='', path=()):
        k = (rule, key)
        self.seen.add(rule)
        self.rows.append(dict(rule=rule, key=key, ok=ok, where=where, msg=msg, path=list(path)))

    def ok(self, rule, key, where='', msg=''):
        self.add(rule, key, True, where, msg)

    def bad(self, rule, key, where='', msg='', path=()):
        self.add(rule, key, False, where, msg, path)

    def unknown(self, rule, key, where='', msg=''):
        self.add(rule, key, None, where, msg)

    def floor(self, rule, n):
        self.floors[rule] = n

    def known(self):
        out = {}
        try:
            with open(KNOWN, encoding='utf-8') as f:
                for line in f:
                    line = line.strip()
                    if line.startswith('known: '):
                        head, _, what = line[7:].partition(' | ')
                        parts = dict(p.split('=', 1) for p in head.split(' ', 1) if '=' in p)
                        if parts.get('property') == self.pid:
                            out[parts.get('key')] = what
        except FileNotFoundError:
            pass
        return out

    def finish(self, tier, seed):
        known = self.known()
        viol, hits, undec, good = [], {}, [], 0
        for r in self.rows:
            if r['ok'] is True:
                good += 1
            elif r['ok'] is None:
                undec.append(r)
            else:
                fk = f"{r['rule']}:{r['key']}"
                if fk in known:
                    hits[fk] = known[fk]
                else:
                    viol.append(r)
        broken = []
        for rule, n in self.floors.items():
            # obligations that were reached and decided
            c = sum(1 for r in self.rows if r['rule'] == rule and r['ok'] is not None)
            if c < n:
                broken.append(f'rule {rule}: {c} obligations decided, expected at least {n}')
        ev = {
            'property': self.pid, 'tier': tier, 'seed': seed, 'level': 'other',
            'coverage': {
                'explanation': f'Static analysis of the current source of /repo/lambeq for: {self.title}. '
                               'Each obligation is one instance of a rule at a program construct, decided '
                               'without running the program.',
                'rules': self.rules,
                'obligations': len(self.rows), 'discharged': good,
                'violated': len(viol), 'known_findings': len(hits),
                'undecided': len(undec),
                'per_rule': {rule: {
                    'total': sum(1 for r in self.rows if r['rule'] == rule),
                    'holds': sum(1 for r in self.rows if r['rule'] == rule and r['ok'] is True),
                    'undecided': sum(1 for r in self.rows if r['rule'] == rule and r['ok'] is None)}
                    for rule in dict.fromkeys(r['rule'] for r in self.rows)},
                'functions_analysed': len(self.functions),
                'functions': sorted(self.functions)[:400],
                'samples': [f"{r['rule']}: {r['key']} [{'holds' if r['ok'] else 'undecided' if r['ok'] is None else 'VIOLATED'}] {r['msg']}"[:300]
                            for r in (viol + undec + [x for x in self.rows if x['ok'] is True])[:60]],
                'undecided_list': [f"{r['rule']}: {r['key']}: {r['msg']}"[:300] for r in undec][:60],
            },
            'assumptions': self.notes,
            'wall_s': round(time.time() - self.t0, 3),
            'violations': len(viol),
        }
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        print(f'{self.pid}: {len(self.rows)} obligations, {good} hold, {len(viol)} violated, '
              f'{len(hits)} known, {len(undec)} undecided; {len(self.functions)} functions analysed; '
              f'{ev["wall_s"]}s')
        for fk, what in hits.items():
            print(f'KNOWN-FINDING: property={self.pid} [{fk}] {what}')
        if os.environ.get('LINT_VERBOSE'):
            for r in undec:
                print('undecided', r['rule'], r['key'], r['where'], r['msg'])
        if viol:
            rp = os.path.join(HERE, 'evidence', self.pid + '.violations.txt')
            with open(rp, 'w') as f:
                for r in viol:
                    f.write(f"{r['where']}: rule {r['rule']}: {r['key']}\n    {r['msg']}\n")
                    f.write(f"    rule text: {self.rules.get(r['rule'], '')}\n")
                    if r['path']:
                        f.write('    path: ' + ' -> '.join(map(str, r['path'])) + '\n')
            for r in viol[:20]:
                print(f"{r['where']}: [{r['rule']}] {r['key']}: {r['msg']}")
            print(f'VIOLATION property={self.pid} replay={rp}')
            return 1
        if broken:
            for b in broken:
                print(f'ANALYSIS-BROKEN property={self.pid} {b}')
            return 2
        return 0
