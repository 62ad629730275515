"""Search for a valuation of the input atoms that satisfies a path guard.

Used to tell a real difference of two normal forms from a path that no input
takes or from an incomplete normal form.  It evaluates normal forms (never the
program) and only ever turns a difference into 'undecided'."""
import math
import random
import algebra as al
from algebra import DDS, Poly


def in_atoms(p, acc=None):
    acc = set() if acc is None else acc
    for m in p.t:
        for i, _ in m:
            k = al.A.info[i]
            if k[0] == 'in':
                acc.add(i)
            for a in k[1:]:
                if isinstance(a, Poly):
                    in_atoms(a, acc)
    return acc


def integral(q):
    return bool(q.t) and not q.is_const() and all(c.denominator == 1 and all(i in al.INTS and e > 0 for i, e in m) for m, c in q.t.items())


class Guard:
    def __init__(self, lits, env):
        """lits: [(var, branches)], env: exact substitutions already implied"""
        self.env = env
        self.cons = {}          # q -> [lo, hi, loincl, hiincl]
        self.impossible = False
        for v, js in lits:
            info = DDS.varinfo[v]
            if info[0] != 'sgn':
                continue
            q, t = info[1], info[2]
            thr = al.neval(t, {}, {}) if t.t else 0.0
            if env:
                try:
                    q = al.subst(q, env)
                except Exception:
                    pass
            js = tuple(js)
            if js == (0, 2) or js == (0, 1, 2):
                if js == (0, 2):
                    self.cons.setdefault(q, [-math.inf, math.inf, True, True, []])[4].append(thr)
                continue
            c = self.cons.setdefault(q, [-math.inf, math.inf, True, True, []])
            if js in ((1,), (1, 2)) and thr >= c[0]:
                c[0], c[2] = thr, True
            if js == (2,) and thr >= c[0]:
                c[0], c[2] = thr, False
            if js in ((1,), (0, 1)) and thr <= c[1]:
                c[1], c[3] = thr, True
            if js == (0,) and thr <= c[1]:
                c[1], c[3] = thr, False
        self.items = []
        for q, c in self.cons.items():
            if integral(q):
                if c[0] > -math.inf:
                    c[0], c[2] = (math.ceil(c[0]) if c[2] or c[0] != math.floor(c[0]) else c[0] + 1), True
                if c[1] < math.inf:
                    c[1], c[3] = (math.floor(c[1]) if c[3] or c[1] != math.floor(c[1]) else c[1] - 1), True
            if c[0] > c[1] or (c[0] == c[1] and not (c[2] and c[3])):
                self.impossible = True
            self.items.append((q, c, sorted(in_atoms(q))))

    @staticmethod
    def ok(x, c, mag):
        lo, hi, li, hi_i, ne = c
        if lo == hi:
            return abs(x - lo) <= 1e-9 * max(1e-3, mag, abs(lo))
        tiny = 0.0
        if x < lo - tiny or x > hi + tiny:
            return False
        if x == lo and not li or x == hi and not hi_i:
            return False
        return all(x != n for n in ne)


def magnitude(p, val):
    s = 0.0
    for m, c in p.t.items():
        v = abs(float(c))
        for i, e in m:
            v *= abs(al.natom(i, val, {})) ** e
        s += v
    return s


class Sampler:
    def __init__(self, polys, seed=12345):
        self.rng = random.Random(seed)
        atoms = set()
        for p in polys:
            in_atoms(p, atoms)
        self.atoms = sorted(atoms)

    def draw(self, i, sc):
        x = self._draw(i, sc)
        return float(round(x)) if i in al.INTS else x

    def _draw(self, i, sc):
        b = al.BOUNDS.get(i)
        rng = self.rng
        lo, hi = b if b else (-math.inf, math.inf)
        if lo == -math.inf and hi == math.inf:
            return rng.uniform(-sc, sc)
        if lo == -math.inf:
            return hi - rng.uniform(0, sc)
        if hi == math.inf:
            return max(lo, 0.0) + rng.uniform(0, sc)
        return rng.uniform(lo, hi)

    def clampb(self, i, x):
        b = al.BOUNDS.get(i)
        if b:
            if x < b[0] or x > b[1]:
                return None
        return x

    def value(self, q, base):
        v = dict(base)
        return al.neval(q, v, {})

    def solve(self, q, target, base, i):
        """change atom i so that q == target; returns the new value or None"""
        def f(x):
            b = dict(base)
            b[i] = x
            return al.neval(q, b, {}) - target
        x0 = base[i]
        try:
            f0 = f(x0)
        except (ValueError, ZeroDivisionError, OverflowError):
            return None
        if f0 == 0:
            return x0
        # expanding bracket
        for k in range(12):
            d = (abs(x0) + 1.0) * 10.0 ** self.rng.uniform(-5, 1.5) * self.rng.choice((-1, 1))
            x1 = self.clampb(i, x0 + d)
            if x1 is None:
                continue
            try:
                f1 = f(x1)
            except (ValueError, ZeroDivisionError, OverflowError):
                continue
            if (f0 < 0) != (f1 < 0):
                a, b, fa = x0, x1, f0
                for _ in range(70):
                    m = (a + b) / 2
                    try:
                        fm = f(m)
                    except (ValueError, ZeroDivisionError, OverflowError):
                        return None
                    if fm == 0:
                        return m
                    if (fm < 0) == (fa < 0):
                        a, fa = m, fm
                    else:
                        b = m
                return b
            # secant step for same-signed values
            if f1 != f0:
                x2 = self.clampb(i, x0 - f0 * (x1 - x0) / (f1 - f0))
                if x2 is not None:
                    try:
                        f2 = f(x2)
                    except (ValueError, ZeroDivisionError, OverflowError):
                        continue
                    if abs(f2) <= 1e-14 * (1 + abs(target)):
                        return x2
        return None

    def target(self, c, x):
        lo, hi, li, hi_, ne = c
        rng = self.rng
        if lo == hi:
            return lo
        if lo > -math.inf and hi < math.inf:
            return lo + (hi - lo) * rng.uniform(0.02, 0.98)
        if lo > -math.inf:
            return lo + (abs(lo) + 1) * 10 ** rng.uniform(-4, 1)
        if hi < math.inf:
            return hi - (abs(hi) + 1) * 10 ** rng.uniform(-4, 1)
        return x + rng.uniform(-1, 1)

    def find(self, g, tries=60, repairs=14):
        """yield valuations satisfying guard g"""
        if g.impossible:
            return
        for t in range(tries):
            sc = self.rng.choice([1.0, 1.0, 0.3, 3.0, 1e-2, 1e-4, 30.0])
            base = {i: self.draw(i, sc) for i in self.atoms}
            good = False
            for r in range(repairs):
                bad = []
                err = False
                for q, c, at in g.items:
                    v = dict(base)
                    try:
                        x = al.neval(q, v, {})
                        mag = magnitude(q, v) if c[0] == c[1] else 1.0
                    except (ValueError, ZeroDivisionError, OverflowError, KeyError):
                        err = True
                        break
                    if not Guard.ok(x, c, mag):
                        bad.append((q, c, at, x))
                if err:
                    break
                if not bad:
                    good = True
                    break
                # equalities last: they are the easiest to lose
                bad.sort(key=lambda b: b[1][0] == b[1][1])
                q, c, at, x = bad[0] if self.rng.random() < 0.7 else self.rng.choice(bad)
                at = [i for i in at if i in base]
                if not at:
                    break
                i = self.rng.choice(at)
                y = self.solve(q, self.target(c, x), base, i)
                if y is not None:
                    base[i] = y if i not in al.INTS else float(round(y))
                else:
                    base[i] = self.draw(i, sc)
            if good:
                yield base


def separates(guard, v, env, limit=6, tries=60):
    """None: no valuation satisfying the guard was found;
    False: the difference v vanishes on all found; dict: a separating valuation"""
    g = Guard(guard, env)
    if g.impossible:
        return None
    s = Sampler([v] + [q for q, _, _ in g.items])
    n = 0
    for base in s.find(g, tries):
        val = dict(base)
        try:
            x = al.neval(v, val, {})
            mag = magnitude(v, val)
        except KeyError:
            return base
        except (ValueError, ZeroDivisionError, OverflowError):
            continue
        n += 1
        if x != x:
            continue
        if abs(x) > 1e-6 * max(mag, 1e-12):
            return base
        if n >= limit:
            break
    return False if n else None


def satisfiable(guard, env, tries=80):
    g = Guard(guard, env)
    if g.impossible:
        return None
    s = Sampler([q for q, _, _ in g.items])
    for base in s.find(g, tries):
        return base
    return None


def show(base):
    if not base:
        return ''
    out = []
    for i, x in sorted(base.items()):
        out.append('%s=%.6g' % (al.astr(i), x))
    return ', '.join(out)
