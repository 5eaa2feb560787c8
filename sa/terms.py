"""Abstract integers: linear forms over named unknowns, the facts known on the
current trace partition, and a bit-provenance domain for masked lengths.

Nothing in here knows anything about the analysed package.
"""
from __future__ import annotations


class Unsupported(Exception):
    """The analysis has no transfer function for a construct: undecided."""


class Prune(Exception):
    """The current trace partition is infeasible, or beyond the loop bound."""


class Atom:
    """An unknown integer.  Hash-consed on its key, so that equal unknowns
    reached over different routes are the same object."""
    __slots__ = ('key', 'lo', 'hi', 'n')
    table: dict = {}

    def __new__(cls, key, lo=None, hi=None):
        a = cls.table.get(key)
        if a is None:
            a = object.__new__(cls)
            a.key, a.lo, a.hi, a.n = key, lo, hi, len(cls.table)
            cls.table[key] = a
        return a

    def __repr__(self):
        return show(self.key)


def show(k) -> str:
    if isinstance(k, tuple):
        if not k:
            return '()'
        if isinstance(k[0], str):
            if len(k) == 1:
                return k[0]
            return f'{k[0]}({", ".join(show(x) for x in k[1:])})'
        return '(' + ', '.join(show(x) for x in k) + ')'
    return str(k) if isinstance(k, str) else repr(k)


class Lin:
    """const + sum(coef * atom); at least one atom."""
    __slots__ = ('c', 't', '_h')

    def __init__(self, c, t):
        self.c, self.t = c, t
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.c, self.t))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __repr__(self):
        out = []
        for a, k in self.t:
            out.append(('' if k == 1 else '-' if k == -1 else f'{k}*') + repr(a))
        if self.c or not out:
            out.append(str(self.c))
        return '+'.join(out).replace('+-', '-')


def lin(x):
    """Host dict view of an int or Lin."""
    if isinstance(x, Lin):
        return x.c, dict(x.t)
    return int(x), {}


def mk(c, t):
    t = tuple(sorted(((a, k) for a, k in t.items() if k), key=lambda p: p[0].n))
    if not t:
        return c
    return Lin(c, t)


def add(a, b):
    if not isinstance(a, Lin) and not isinstance(b, Lin):
        return a + b
    ca, ta = lin(a)
    cb, tb = lin(b)
    for k, v in tb.items():
        ta[k] = ta.get(k, 0) + v
    return mk(ca + cb, ta)


def scale(a, k):
    if not isinstance(a, Lin):
        return a * k
    return mk(a.c * k, {x: v * k for x, v in a.t})


def sub(a, b):
    if not isinstance(a, Lin) and not isinstance(b, Lin):
        return a - b
    return add(a, scale(b, -1))


def atom(key, lo=None, hi=None):
    return Lin(0, ((Atom(key, lo, hi), 1),))


def is_intlike(x):
    return isinstance(x, (int, Lin)) and True


class Facts:
    """What is known on this trace partition about the unknown integers."""

    def __init__(self, decide):
        self.bounds: dict = {}
        self.excl: dict = {}
        self.ge: list = []      # Lin >= 0
        self.ne: set = set()    # Lin != 0
        self.subst: dict = {}   # Atom -> Lin
        self.rep: dict = {}     # Atom -> representative
        self.decide = decide

    def copy_from(self, o):
        self.bounds = dict(o.bounds)
        self.excl = {k: set(v) for k, v in o.excl.items()}
        self.ge = list(o.ge)
        self.ne = set(o.ne)
        self.subst = dict(o.subst)
        self.rep = dict(o.rep)

    # -- normalisation -------------------------------------------------------
    def norm(self, x):
        if not isinstance(x, Lin):
            return x
        for _ in range(20):
            hit = None
            for a, k in x.t:
                if a in self.subst:
                    hit = (a, k, self.subst[a])
                    break
                lo, hi = self.range_of(a)
                if lo is not None and lo == hi:
                    hit = (a, k, lo)
                    break
            if hit is None:
                return x
            a, k, v = hit
            rest = mk(x.c, {b: j for b, j in x.t if b is not a})
            x = add(rest, scale(v, k))
            if not isinstance(x, Lin):
                return x
        return x

    def range_of(self, a):
        b = self.bounds.get(a)
        return b if b is not None else (a.lo, a.hi)

    def interval(self, x):
        x = self.norm(x)
        if not isinstance(x, Lin):
            return x, x
        lo = hi = x.c
        for a, k in x.t:
            l, h = self.range_of(a)
            if k < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + k * l
            hi = None if hi is None or h is None else hi + k * h
        return lo, hi

    # -- entailment ----------------------------------------------------------
    def known_ge0(self, x):
        """True / False / None (unknown)."""
        x = self.norm(x)
        if not isinstance(x, Lin):
            return x >= 0
        lo, hi = self.interval(x)
        if lo is not None and lo >= 0:
            return True
        if hi is not None and hi < 0:
            return False
        neg = sub(-1, x)
        for f in self.ge:
            l, _ = self.interval(sub(x, f))
            if l is not None and l >= 0:
                return True
            l, _ = self.interval(sub(neg, f))
            if l is not None and l >= 0:
                return False
        if len(self.ge) <= 12:
            for i, f in enumerate(self.ge):
                for g in self.ge[i:]:
                    s = add(f, g)
                    l, _ = self.interval(sub(x, s))
                    if l is not None and l >= 0:
                        return True
                    l, _ = self.interval(sub(neg, s))
                    if l is not None and l >= 0:
                        return False
        return None

    def known_eq0(self, x):
        x = self.norm(x)
        if not isinstance(x, Lin):
            return x == 0
        if x in self.ne or scale(x, -1) in self.ne:
            return False
        lo, hi = self.interval(x)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return False
        if len(x.t) == 1:
            a, k = x.t[0]
            if x.c % k:
                return False
            if -(x.c // k) in self.excl.get(a, ()):
                return False
        g = self.known_ge0(x)
        if g is False:
            return False
        l = self.known_ge0(scale(x, -1))
        if l is False:
            return False
        if g and l:
            return True
        return None

    # -- assumptions ---------------------------------------------------------
    def assume_ge0(self, x):
        k = self.known_ge0(x)
        if k is True and not (isinstance(x, Lin) and len(x.t) == 1
                              and self.known_ge0_plain(x) is not True):
            return
        if k is False:
            raise Prune('infeasible')
        x = self.norm(x)
        if not isinstance(x, Lin):
            return
        if len(x.t) == 1:
            a, k = x.t[0]
            lo, hi = self.range_of(a)
            if k > 0:
                v = -(x.c // k)          # a >= ceil(-c/k)
                lo = v if lo is None else max(lo, v)
            else:
                v = x.c // (-k)          # a <= floor(c/-k)
                hi = v if hi is None else min(hi, v)
            ex = self.excl.get(a, ())
            while lo is not None and lo in ex:
                lo += 1
            while hi is not None and hi in ex:
                hi -= 1
            if lo is not None and hi is not None and lo > hi:
                raise Prune('infeasible')
            self.bounds[a] = (lo, hi)
        else:
            self.ge.append(x)
            for a, k in x.t:
                _, hi = self.interval(mk(x.c, {b: j for b, j in x.t if b is not a}))
                if hi is None:
                    continue
                # k*a >= -hi
                bound = Lin(hi, ((a, k),))
                if self.known_ge0_plain(bound) is not True:
                    self.assume_ge0(bound)

    def known_ge0_plain(self, x):
        lo, hi = self.interval(x)
        return True if lo is not None and lo >= 0 else None

    def assume_eq0(self, x):
        k = self.known_eq0(x)
        if k is True:
            return
        if k is False:
            raise Prune('infeasible')
        x = self.norm(x)
        for a, k in sorted(x.t, key=lambda p: -p[0].n):
            if k in (1, -1):
                rest = mk(x.c, {b: j for b, j in x.t if b is not a})
                v = scale(rest, -k)
                if not isinstance(v, Lin):
                    self.bounds[a] = (v, v)
                else:
                    lo, hi = self.range_of(a)
                    self.subst[a] = v
                    if lo is not None:
                        self.assume_ge0(sub(v, lo))
                    if hi is not None:
                        self.assume_ge0(sub(hi, v))
                return
        self.ge.append(x)
        self.ge.append(scale(x, -1))

    def assume_ne0(self, x):
        k = self.known_eq0(x)
        if k is False:
            return
        if k is True:
            raise Prune('infeasible')
        x = self.norm(x)
        if len(x.t) == 1:
            a, k = x.t[0]
            v = -(x.c // k)
            self.excl.setdefault(a, set()).add(v)
            lo, hi = self.range_of(a)
            ex = self.excl[a]
            while lo is not None and lo in ex:
                lo += 1
            while hi is not None and hi in ex:
                hi -= 1
            self.bounds[a] = (lo, hi)
        else:
            self.ne.add(x)

    # -- forks ---------------------------------------------------------------
    def ge0(self, x) -> bool:
        k = self.known_ge0(x)
        if k is not None:
            return k
        x = self.norm(x)
        if self.decide(2, ('>=0', x)) == 0:
            self.assume_ge0(x)
            return True
        self.assume_ge0(sub(-1, x))
        return False

    def eq0(self, x) -> bool:
        k = self.known_eq0(x)
        if k is not None:
            return k
        x = self.norm(x)
        if self.decide(2, ('==0', x)) == 0:
            self.assume_eq0(x)
            return True
        self.assume_ne0(x)
        return False

    # -- representatives -----------------------------------------------------
    def concrete(self, x, cap=400):
        """A representative integer for an abstract one.  The partition is
        split into 'smallest possible value' and 'larger', where the larger
        class is materialised by one representative."""
        x = self.norm(x)
        if not isinstance(x, Lin):
            return x
        total = x.c
        for a, k in x.t:
            total += k * self.rep_of(a)
        if total > cap or total < -cap:
            raise Unsupported(f'no small representative for {x}')
        return total

    def rep_of(self, a):
        lo, hi = self.range_of(a)
        if lo is not None and lo == hi:
            return lo
        r = self.rep.get(a)
        if r is not None and (lo is None or r >= lo) and (hi is None or r <= hi):
            return r
        if a.key and a.key[0] == 'W':
            raise Unsupported(f'no representative for {a}')
        if lo is None:
            raise Unsupported(f'no representative for unbounded {a}')
        if self.decide(2, ('rep', a)) == 0:
            self.bounds[a] = (lo, lo)
            return lo
        r = lo + 2 if hi is None or lo + 2 <= hi else lo + 1
        while r in self.excl.get(a, ()):
            r += 1
        if hi is not None and r > hi:
            raise Prune('no larger representative')
        # the class of larger values is represented by r from here on
        self.bounds[a] = (r, r)
        self.settle()
        return r

    def settle(self):
        """Propagate what has become constant through the relational facts."""
        for _ in range(4):
            again = False
            for g in list(self.ge):
                x = self.norm(g)
                if not isinstance(x, Lin):
                    if x < 0:
                        raise Prune('infeasible')
                    self.ge.remove(g)
                elif len(x.t) == 1:
                    self.ge.remove(g)
                    self.assume_ge0(x)
                    again = True
            for g in list(self.ne):
                x = self.norm(g)
                if not isinstance(x, Lin):
                    if x == 0:
                        raise Prune('infeasible')
                    self.ne.discard(g)
            for a, v in list(self.subst.items()):
                x = self.norm(v)
                if not isinstance(x, Lin):
                    lo, hi = self.range_of(a)
                    if (lo is not None and x < lo) or (hi is not None and x > hi):
                        raise Prune('infeasible')
            if not again:
                return

    def reps_subst(self, x):
        """x with every represented atom replaced by its representative."""
        x = self.norm(x)
        if not isinstance(x, Lin):
            return x
        c, t = x.c, {}
        for a, k in x.t:
            if a in self.rep:
                c += k * self.rep[a]
            else:
                t[a] = k
        return mk(c, t)

    def same(self, a, b):
        """Equality of abstract integers on this partition: True / False / None."""
        k = self.known_eq0(sub(a, b))
        if k is True:
            return True
        d = self.reps_subst(sub(a, b))
        if not isinstance(d, Lin):
            return d == 0
        k2 = self.known_eq0(d)
        if k2 is True:
            return True
        if k is False or k2 is False:
            return False
        return None


class BitV:
    """An integer described bit by bit: each bit is 0, 1, or bit j of an
    unknown.  Exact for the mask/shift/or arithmetic of length encodings."""
    __slots__ = ('bits',)

    def __init__(self, bits):
        bits = list(bits)
        while bits and bits[-1] == 0:
            bits.pop()
        self.bits = tuple(bits)

    def __eq__(self, o):
        return isinstance(o, BitV) and self.bits == o.bits

    def __hash__(self):
        return hash(self.bits)

    def __repr__(self):
        return 'bits[' + ' '.join(
            str(b) if b in (0, 1) else f'{b[0]!r}.{b[1]}' for b in reversed(self.bits)
        ) + ']'


def to_bits(x, facts: Facts):
    if isinstance(x, BitV):
        return list(x.bits)
    x = facts.norm(x)
    if not isinstance(x, Lin):
        if x < 0:
            return None
        return [(x >> i) & 1 for i in range(x.bit_length())]
    if len(x.t) == 1 and x.c == 0:
        a, k = x.t[0]
        lo, hi = facts.range_of(a)
        if lo is None or lo < 0 or hi is None or k <= 0 or k & (k - 1):
            return None
        sh = k.bit_length() - 1
        return [0] * sh + [(a, i) for i in range(hi.bit_length())]
    # sums of bit-disjoint parts
    parts = []
    if x.c:
        parts.append(to_bits(x.c, facts))
    for a, k in x.t:
        parts.append(to_bits(mk(0, {a: k}), facts))
    if any(p is None for p in parts):
        return None
    n = max(map(len, parts))
    out = [0] * n
    for p in parts:
        for i, b in enumerate(p):
            if b != 0:
                if out[i] != 0:
                    return None
                out[i] = b
    return out


def from_bits(bits, facts: Facts):
    v = BitV(bits)
    if all(b in (0, 1) for b in v.bits):
        return sum(b << i for i, b in enumerate(v.bits))
    atoms = {b[0] for b in v.bits if b not in (0, 1)}
    if len(atoms) == 1:
        a = next(iter(atoms))
        lo, hi = facts.range_of(a)
        if lo is not None and lo >= 0 and hi is not None:
            n = hi.bit_length()
            if len(v.bits) <= n and all(
                (v.bits[i] if i < len(v.bits) else 0) == (a, i) for i in range(n)
            ):
                return mk(0, {a: 1})
    return v


def bits_range(v: BitV):
    lo = sum(1 << i for i, b in enumerate(v.bits) if b == 1)
    hi = sum(1 << i for i, b in enumerate(v.bits) if b != 0)
    return lo, hi
