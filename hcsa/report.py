"""Findings, evidence, known-findings handling and the exit protocol shared by every check."""
from __future__ import annotations
import json
import os
import re
import sys
import time
import traceback
from dataclasses import dataclass, field

from .core import AnalysisBroken

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


@dataclass
class Finding:
    rule: str            # rule identifier
    construct: str       # stable identity: function (+ parameter / callee / option); no line numbers
    message: str         # human readable, may contain lines
    where: str = ''      # file:line
    path: list = field(default_factory=list)   # witness (path through the call graph / statements)

    @property
    def key(self):
        return f'{self.rule}|{self.construct}'


class Result:
    """what one rule analysed and found"""
    def __init__(self):
        self.findings = []
        self.counts = {}
        self.samples = []
        self.rules = []
        self.assumptions = []
        self.notes = []

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, s, cap=12):
        if len(self.samples) < cap:
            self.samples.append(s)

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def add(self, rule, construct, message, where='', path=()):
        f = Finding(rule, construct, message, where, list(path))
        if all(g.key != f.key for g in self.findings):
            self.findings.append(f)

    def need(self, name, least):
        """an analysis whose anchors vanished must not pass silently"""
        if self.counts.get(name, 0) < least:
            raise AnalysisBroken(f'only {self.counts.get(name, 0)} x "{name}" found, expected at least {least}: '
                                 'the analysis lost its anchors')


def known_findings(prop):
    """key -> description, from known_findings.txt (never written at run time)"""
    out = {}
    path = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path, encoding='utf-8'):
            m = re.match(r'KNOWN-FINDING: property=(\S+) key=<([^>]*)> (.*)', line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def contract(name):
    with open(os.path.join(ROOT, 'contracts', name), encoding='utf-8') as fh:
        return json.load(fh)


def run_check(prop, fn, level='other'):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    try:
        res = fn(tier)
    except AnalysisBroken as e:
        print(f'ANALYSIS-BROKEN property={prop}: {e}')
        return 3
    except Exception:
        traceback.print_exc()
        print(f'ANALYSIS-BROKEN property={prop}: internal error')
        return 3
    known = known_findings(prop)
    new, old = [], []
    for f in res.findings:
        (old if f.key in known else new).append(f)
    os.makedirs(os.path.join(ROOT, 'evidence', 'replay'), exist_ok=True)
    nontriv = sum(v for v in res.counts.values())
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': {
            'explanation': 'Static analysis of the current source under /repo (parsed, never imported or run). '
                           + ' '.join(res.rules),
            'rule': ' '.join(res.rules),
            'analysed': dict(res.counts),
            'evaluations': int(res.counts.get('obligations', nontriv)),
            'distinct_nontrivial': int(res.counts.get('nontrivial obligations', res.counts.get('obligations', nontriv))),
            'samples': res.samples or ['(none)'],
            'known_findings_present': [f.key for f in old],
            'notes': res.notes,
        },
        'assumptions': res.assumptions,
        'wall_s': round(time.time() - t0, 3),
        'violations': len(new),
    }
    with open(os.path.join(ROOT, 'evidence', f'{prop}.json'), 'w', encoding='utf-8') as fh:
        json.dump(ev, fh, indent=1)
        fh.write('\n')
    print(f'property {prop} tier {tier}: ' + ', '.join(f'{k}={v}' for k, v in res.counts.items()))
    for f in old:
        print(f'KNOWN-FINDING: property={prop} {known[f.key]} [{f.key}]')
    if not new:
        print(f'property {prop}: held on everything analysed')
        return 0
    replay = os.path.join('evidence', 'replay', f'{prop}.txt')
    with open(os.path.join(ROOT, replay), 'w', encoding='utf-8') as fh:
        for f in new:
            fh.write(f'rule: {f.rule}\nconstruct: {f.construct}\nwhere: {f.where}\n{f.message}\n')
            for p in f.path:
                fh.write(f'    via {p}\n')
            fh.write('\n')
        fh.write(f're-run: cd /verif && python3 run.py {prop}\n')
    for f in new[:40]:
        print(f'  {f.where}: [{f.rule}] {f.message}')
        for p in f.path[:8]:
            print(f'      via {p}')
    print(f'VIOLATION property={prop} replay={replay}')
    return 1
