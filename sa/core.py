"""Shared frame of the checks: report object, context (parsed tree + engines, built once), known findings."""
from __future__ import annotations
import json, os, re, sys, time
from loader import World, AnalysisBroken

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


class Violation:
    def __init__(self, rule, construct, message, where=""):
        self.rule, self.construct, self.message, self.where = rule, construct, message, where

    @property
    def key(self): return f"{self.rule}|{self.construct}"

    def as_dict(self): return dict(rule=self.rule, construct=self.construct, where=self.where, message=self.message, key=self.key)


class Report:
    def __init__(self, prop):
        self.prop, self.violations, self.undecided, self.obligations, self.discharged = prop, {}, [], 0, 0
        self.samples, self.stats, self.rules = [], {}, []

    def rule(self, text): self.rules.append(text)

    def ok(self, sample=None):
        self.obligations += 1; self.discharged += 1
        if sample and len(self.samples) < 12: self.samples.append(sample)

    def bad(self, rule, construct, message, where=""):
        self.obligations += 1
        v = Violation(rule, construct, message, where)
        self.violations.setdefault(v.key, v)

    def undec(self, what):
        self.obligations += 1
        if what not in self.undecided: self.undecided.append(what)

    def count(self, k, n=1): self.stats[k] = self.stats.get(k, 0) + n

    def least(self, k, n):
        """the rule matched at least n instances, else the analysis is not looking at what it was written for"""
        if self.stats.get(k, 0) < n: raise AnalysisBroken(f"{k}: {self.stats.get(k, 0)} instances, at least {n} expected")


class Ctx:
    """one parsed tree and the (lazily built) analyses of it"""
    def __init__(self, repo=None, overlay=None):
        self.w = World(repo, overlay)
        self._heap = self._val = None
        self.cache = {}

    @property
    def heap(self):
        if self._heap is None:
            from heap import Engine
            self._heap = Engine(self.w)
        return self._heap

    @property
    def val(self):
        if self._val is None:
            from values import Values
            self._val = Values(self.w)
        return self._val


def known_findings():
    out = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(.+?) :: (.*)", line.strip())
            if m: out.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return out
