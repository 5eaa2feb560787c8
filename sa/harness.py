"""Obligations: what a check proves about one subject, partition by partition."""
from __future__ import annotations

import time
from collections import Counter

from . import bytes_model as B
from .interp import PyExc
from .lab import Lab
from .layout import normalise, total
from .terms import Prune, Unsupported
from .values import *


def exc_name(e):
    return e.obj.cls.name


def exc_text(e):
    a = e.obj.d.get('args', ())
    return f'{exc_name(e)}({", ".join(repr(x) for x in a)})'


def exc_is(e, *names):
    return any(c.name in names or c.name.split('.')[-1] in names for c in e.obj.cls.mro)


class Got:
    """The outcome of one abstract call."""
    __slots__ = ('kind', 'value', 'where')

    def __init__(self, kind, value, where=''):
        self.kind, self.value, self.where = kind, value, where

    @property
    def ok(self):
        return self.kind == 'ok'

    def text(self):
        if self.kind == 'exc':
            return exc_text(self.value) + (f' raised at {self.where}' if self.where else '')
        if self.kind == 'undecided':
            return f'undecided: {self.value}' + (f' at {self.where}' if self.where else '')
        return repr(self.value)


# obligations about what a class packs and unpacks: also recorded for the
# properties a subject is tagged with
LAYOUT_PROPS = set('C01 C02 C04 C05 C06 C07 C11 C19 C23'.split())


class T:
    """The obligations of one trace partition."""

    def __init__(self, bench, subject):
        self.bench, self.subject = bench, subject
        self.lab = bench.lab
        self.I = bench.lab.I
        self.v = bench.lab.v
        self.obs = []
        self.tags = ''

    def check(self, prop, rule, verdict, detail=''):
        if self.tags and set(prop.split()) & LAYOUT_PROPS:
            prop = prop + ' ' + ' '.join(x for x in self.tags.split() if x not in prop.split())
        for p in prop.split():
            self.obs.append((p, rule, verdict, detail if isinstance(detail, str) else repr(detail)))
        return verdict

    def attempt(self, f, *args, **kw):
        n = len(self.I.stack)
        try:
            return Got('ok', f(*args, **kw))
        except PyExc as e:
            del self.I.stack[n:]
            return Got('exc', e, e.trace or '')
        except Unsupported as e:
            w = getattr(e, 'where', None) or self.I.where()
            del self.I.stack[n:]
            return Got('undecided', e, w)
        except Prune as e:
            if self.I.path.active:
                raise
            del self.I.stack[n:]
            return Got('undecided', f'a case distinction outside of an experiment: {e}', self.I.where())
        except (RecursionError, AttributeError, TypeError, ValueError, KeyError,
                IndexError, NotImplementedError, AssertionError) as e:
            import traceback
            from . import interp
            if interp.HOST_ERRORS is not None:
                interp.HOST_ERRORS.append(traceback.format_exc())
            w = self.I.where()
            del self.I.stack[n:]
            return Got('undecided', f'analysis error {type(e).__name__}: {e}', w)

    def call(self, o, name, *args, **kw):
        return self.attempt(self.I.call_method, o, name, list(args), kw)

    def same_bytes(self, a, b):
        mm = []
        r = B.bufs_same(self.I, a, b, mm)
        return r, (mm[0] if mm else '')

    def show(self, segs):
        return ' | '.join(B.seg_show(s) for s in normalise(segs, self.I.facts)) or 'no bytes'


class Row:
    """One obligation over all trace partitions."""

    def __init__(self, prop, subject, rule):
        self.prop, self.subject, self.rule = prop, subject, rule
        self.ok = self.undecided = 0
        self.why = Counter()
        self.bad = []
        self.nbad = 0

    def status(self):
        return 'violation' if self.bad else 'undecided' if self.undecided and not self.ok else \
            'partial' if self.undecided else 'ok'


class Bench:
    def __init__(self, root, version=(3, 12), only=None, budget=240):
        self.t0 = time.time()
        self.lab = Lab(root, version)
        self.rows = {}
        self.only = only          # property whose obligations are kept
        self.partitions = 0
        self.pruned = 0
        self.incomplete = []
        self.setup_failed = []
        self.stats = Counter()

    def row(self, prop, subject, rule):
        k = (prop, subject, rule)
        r = self.rows.get(k)
        if r is None:
            r = self.rows[k] = Row(*k)
        return r

    def record(self, prop, subject, rule, verdict, detail, part):
        r = self.row(prop, subject, rule)
        if verdict is True:
            r.ok += 1
        elif verdict is False:
            r.nbad += 1
            if len(r.bad) < 3:
                r.bad.append((detail, part))
        else:
            r.undecided += 1
            r.why[detail[:200]] += 1

    def explore(self, subject, fn, limit=300, seconds=60):
        """Run fn(T) over every trace partition, recording its obligations."""
        I = self.lab.I
        prefix = []
        n = 0
        t0 = time.time()
        while True:
            t = T(self, subject)
            self.lab.reset()
            p, kind, val = I.run_path(prefix, lambda path: fn(t))
            n += 1
            if kind == 'prune':
                self.pruned += 1
            else:
                self.partitions += 1
                part = p.describe()
                for prop, rule, verdict, detail in t.obs:
                    self.record(prop, subject, rule, verdict, detail, part)
                if kind == 'unsupported':
                    self.incomplete.append((subject, f'{val} at {getattr(val, "where", "")}'))
                elif kind == 'exc':
                    self.incomplete.append((subject, f'{exc_text(val)} at {val.trace}'))
            taken = [(c, k) for c, k, _ in p.taken]
            while taken and taken[-1][0] + 1 >= taken[-1][1]:
                taken.pop()
            if not taken:
                return n
            if n >= limit or time.time() - t0 > seconds:
                self.incomplete.append((subject, f'stopped after {n} partitions'))
                return n
            prefix = [c for c, _ in taken]
            prefix[-1] += 1


def failure_text(e):
    if isinstance(e, PyExc):
        return exc_text(e) + f' at {e.trace}'
    return f'{type(e).__name__}: {e}'
