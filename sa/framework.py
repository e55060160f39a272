"""What every rule shares: the parsed project, lazily computed analyses, findings."""
import json
import re
import os
from .project import Project

PROPS = {
    'C01': 'purity_args', 'C02': 'purity_self', 'C03': 'hidden_state', 'C04': 'settings', 'C05': 'seeding', 'C06': 'no_random', 'C07': 'options', 'C08': 'effective', 'C09': 'carry', 'C11': 'uninit', 'C12': 'swallow', 'C13': 'termination', 'C14': 'convergence', 'C15': 'dtypes', 'C16': 'wiring', 'C17': 'documented', 'C18': 'sizes', 'C19': 'interface',
}


class Finding(object):
    def __init__(self, key, msg, where=''):
        self.key, self.msg, self.where = key, msg, where


class Result(object):
    def __init__(self, rule, explanation):
        self.rule, self.explanation = rule, explanation
        self.findings, self.samples, self.notes = [], [], []
        self.coverage = {}
        self.assumptions = []

    def add(self, key, msg, where=''):
        self.findings.append(Finding(key, msg, where))


class Context(object):
    def __init__(self, src=None, tier='quick', proj=None):
        self.src, self.tier = src, tier
        self._proj, self._cache = proj, {}

    @property
    def proj(self):
        if self._proj is None:
            self._proj = Project(self.src)
        return self._proj

    @property
    def effects(self):
        if 'eff' not in self._cache:
            from .effects import Effects
            self._cache['eff'] = Effects(self.proj)
        return self._cache['eff']

    def not_analysed(self):
        e = self._cache.get('eff')
        return sorted(e.failed) if e is not None else []


def load_known(here, pid):
    p = os.path.join(here, 'known_findings.json')
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        d = json.load(f)
    return {e['key']: e['what'] for e in d['known'] if e['property'] == pid}


def known_pattern(here, pid, key, msg):
    """the entry a finding belongs to whose key has the name of a local variable in it, which may have changed"""
    with open(os.path.join(here, 'known_findings.json')) as f:
        d = json.load(f)
    for e in d['known']:
        if e['property'] == pid and 'pattern' in e and re.fullmatch(e['pattern'], key + ': ' + msg, re.S):
            return e['key']
    return key
