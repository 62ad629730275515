"""Decide the law sinks of one evaluated law function."""
import math
import os
import random
import re
from fractions import Fraction
import algebra as al
import witness
from algebra import (DDS, Poly, ZERO, apply, leaf, ite, dand, dnot, dor, T, Fa, paths, gstr, pstr, psub, TooBig, UNDEF)
from veval import _n, _tobool, _cmp

ROOT = os.environ.get('ALMATH_REPO', '/repo').rstrip('/') + '/'


class Finding:
    def __init__(self, law, tag, msg, loc, guard='', example=''):
        self.example = example
        self.law = law
        self.tag = tag
        self.msg = msg
        self.loc = loc
        self.guard = guard


def eq_substs(guard):
    """atom substitutions implied by the equality literals of a path"""
    env = {}
    at_bounds(guard, env)
    for v, js in guard:
        info = DDS.varinfo[v]
        if info[0] != 'sgn' or tuple(js) != (1,):
            continue
        p = psub(info[1], info[2])
        if env:
            p = al.subst(p, env)
        # an atom occurring linearly, alone, with constant coefficient
        best = None
        for m, c in p.t.items():
            if len(m) == 1 and m[0][1] == 1:
                i = m[0][0]
                if al.A.info[i][0] in ('in', 'sin', 'cos') and not any(
                        i == j for mm in p.t if mm != m for j, _ in mm) and not _inside(i, p, m):
                    if best is None or al.A.info[i][0] == 'in':
                        best = (i, m, c)
        if best is None:
            # x^2 = 0 (or another single even monomial) gives x = 0
            if len(p.t) == 1:
                (m, c), = p.t.items()
                if len(m) == 1 and al.A.info[m[0][0]][0] == 'in':
                    env[m[0][0]] = ZERO
            else:
                # p = k q + c with sqrt(q) elsewhere in the guard
                for i in _sqrts(guard):
                    q = al.A.info[i][1]
                    m0 = next((m for m in q.t if m), None)
                    if i in env or m0 is None or m0 not in p.t:
                        continue
                    k = p.t[m0] / q.t[m0]
                    d = psub(p, al.pscale(q, k))
                    if d.is_const():
                        c = -(d.t.get((), 0) / k)
                        if c >= 0:
                            env[i] = al.psqrt_poly(al.pconst(c))
            continue
        i, m, c = best
        rest = Poly({k: w for k, w in p.t.items() if k != m})
        sol = al.pscale(rest, -1 / c)
        env = {k: al.subst(w, {i: sol}) for k, w in env.items()}
        env[i] = sol
        if al.A.info[i][0] in ('sin', 'cos') and sol.is_const():
            # sin x = 0 -> cos^2 = 1 is not a value; leave to the relation
            pass
    return env


def at_bounds(guard, env):
    """inputs the guard holds at a bound of theirs: k x <= 0 where x >= 0"""
    for v, js in guard:
        info = DDS.varinfo[v]
        if info[0] != 'sgn' or tuple(js) not in ((0, 1), (1, 2)):
            continue
        p = psub(info[1], info[2])
        lin = [(m, c) for m, c in p.t.items() if m]
        if len(lin) != 1 or len(lin[0][0]) != 1 or lin[0][0][0][1] != 1:
            continue
        (m, c), = lin
        i = m[0][0]
        b = al.BOUNDS.get(i)
        if al.A.info[i][0] != 'in' or not b or i in env:
            continue
        x = -p.t.get((), 0) / c
        # x_i <= x when the sign is not positive and c > 0, or the converse
        upper = (tuple(js) == (0, 1)) == (c > 0)
        if x == b[0 if upper else 1]:
            env[i] = al.pconst(x)


def _sqrts(guard):
    out = set()
    for v, js in guard:
        info = DDS.varinfo[v]
        if info[0] == 'sgn':
            for q in info[1:3]:
                out.update(i for m in q.t for i, _ in m if al.A.info[i][0] == 'sqrt')
    return out


def _inside(i, p, skip):
    """atom i occurs inside a function atom of p"""
    def rec(q):
        for m in q.t:
            for j, _ in m:
                if j == i:
                    return True
                for a in al.A.info[j][1:]:
                    if isinstance(a, Poly) and rec(a):
                        return True
        return False
    for m in p.t:
        for j, _ in m:
            for a in al.A.info[j][1:]:
                if isinstance(a, Poly) and rec(a):
                    return True
    return False


def infeasible(guard):
    """cheap contradiction test: after substituting the equalities, every
    literal must still be satisfiable by interval reasoning"""
    env = eq_substs(guard)
    # bounds of single atoms stated by the guard itself
    ov = {}
    for v, js in guard:
        info = DDS.varinfo[v]
        if info[0] != 'sgn' or len(info[1].t) != 1:
            continue
        (m, c), = info[1].t.items()
        if len(m) != 1 or m[0][1] != 1:
            continue
        t = al.neval(info[2], {}, {}) / float(c) if info[2].t else 0.0
        j = tuple(js) if c > 0 else tuple(2 - x for x in reversed(js))
        lo, hi = ov.get(m[0][0], (-1e400, 1e400))
        it = m[0][0] in al.INTS
        if j in ((1,), (1, 2), (2,)):
            lo = max(lo, t if not it else math.floor(t) + 1 if j == (2,) else math.ceil(t))
        if j in ((1,), (0, 1), (0,)):
            hi = min(hi, t if not it else math.ceil(t) - 1 if j == (0,) else math.floor(t))
        if lo > hi:
            return True
        ov[m[0][0]] = (lo, hi)
    nz = {i for i, (lo, hi) in ov.items() if lo > 0 or hi < 0}
    for v, js in guard:
        info = DDS.varinfo[v]
        if info[0] == 'sgn' and len(info[1].t) == 1 and not info[2].t and tuple(js) in ((0,), (2,), (0, 2)):
            (m, c), = info[1].t.items()
            nz.update(i for i, e in m)
    for v, js in guard:
        info = DDS.varinfo[v]
        if info[0] != 'sgn' or 2 in js:
            continue
        p = psub(info[1], info[2])
        # a sum of even monomials <= 0: every monomial is zero
        if p.t and all(c > 0 for c in p.t.values()) and all(e % 2 == 0 for m in p.t for i, e in m):
            if 1 not in js or any(all(i in nz for i, e in m) for m in p.t):
                return True
    for v, js in guard:
        info = DDS.varinfo[v]
        if info[0] == 'sgn' and ov:
            lo, hi = al.interval_under(psub(info[1], info[2]), ov)
            if 2 not in js and 1 not in js and lo >= 0 or 0 not in js and 1 not in js and hi <= 0:
                return True
            if 2 not in js and lo > 0 or 0 not in js and hi < 0:
                return True
    for v, js in guard:
        info = DDS.varinfo[v]
        if info[0] != 'sgn':
            continue
        p = psub(info[1], info[2])
        try:
            q = al.subst(p, env) if env else p
        except TooBig:
            continue
        lo, hi = al.interval(q)
        if q.is_const():
            c = q.const() if q.t else 0
            s = 0 if c < 0 else 1 if c == 0 else 2
            if s not in js:
                return True
            continue
        if 0 not in js and 1 not in js and hi < 0:
            return True
        if js == (1,) and (lo > 0 or hi < 0):
            return True
        if js == (0,) and lo >= 0 or js == (2,) and hi <= 0:
            return True
        if js == (0, 1) and lo > 0 or js == (1, 2) and hi < 0:
            return True
    return root_bound(guard) or polyhedral(guard, env)


def root_bound(guard):
    """N + B sqrt(N) < 0 contradicts N >= B^2 (by its form or by the guard)"""
    for v, js in guard:
        info = DDS.varinfo[v]
        if info[0] != 'sgn' or tuple(js) not in ((0,), (2,)):
            continue
        p = psub(info[1], info[2])
        if tuple(js) == (2,):
            p = al.pscale(p, Fraction(-1))
        roots = {i for m in p.t for i, _ in m if al.A.info[i][0] == 'sqrt'}
        if len(roots) != 1:
            continue
        i = roots.pop()
        n = al.A.info[i][1]
        rest, fac = {}, {}
        for m, c in p.t.items():
            e = dict(m).get(i, 0)
            if e > 1:
                break
            (fac if e else rest)[tuple(x for x in m if x[0] != i)] = c
        else:
            if Poly(rest) != n:
                continue
            b = Poly(fac)
            gap = psub(n, al.pmul(b, b))
            if all(c > 0 and all(e % 2 == 0 for _, e in m) for m, c in gap.t.items()):
                return True
            for w, ks in guard:
                o = DDS.varinfo[w]
                if o[0] != 'sgn':
                    continue
                q = psub(o[1], o[2])
                if q.t and set(q.t) == set(gap.t):
                    k = next(iter(q.t))
                    r = gap.t[k] / q.t[k]
                    if al.pscale(q, r) == gap and (0 if r > 0 else 2) not in ks:
                        return True
    return False


PI_LO, PI_HI = Fraction(314159265358979, 10**14), Fraction(314159265358980, 10**14)


def polyhedral(guard, env):
    return fourier(guard, env, False) or fourier(guard, env, True, 2000)


def fourier(guard, env, linear, maxrows=300):
    """the literals, read as linear constraints over the monomials, have no solution
    (Fourier-Motzkin elimination in exact rationals)"""
    rows = []          # (dict monomial -> coef, const, strict): sum + const >= 0 (> 0)
    used = set()
    for v, js in guard:
        info = DDS.varinfo[v]
        if info[0] != 'sgn':
            continue
        p = psub(info[1], info[2])
        js = tuple(js)
        for q in ((p, al.subst(p, env)) if env else (p,)):
            if len(q.t) > 12:
                continue
            t = dict(q.t)
            c = t.pop((), Fraction(0))
            if js in ((0,), (0, 1), (1,)):
                rows.append(({m: -x for m, x in t.items()}, -c, js == (0,)))
            if js in ((2,), (1, 2), (1,)):
                rows.append((t, c, js == (2,)))
            used.update(t)
            if not env or q == p:
                break
    if linear:
        if all(len(m) == 1 and m[0][1] == 1 for m in used):
            return False
        # the constraints on single inputs only
        rows = [r for r in rows if all(len(m) == 1 and m[0][1] == 1 for m in r[0])]
        used = {m for r in rows for m in r[0]}
    if len(rows) < 2 or len(used) > 14:
        return False
    for m in used:
        lo, hi = al.interval(Poly({m: Fraction(1)}))
        if m == ((al.PI, 1),):
            rows.append(({m: Fraction(1)}, -PI_LO, False))
            rows.append(({m: Fraction(-1)}, PI_HI, False))
            continue
        strict_lo = len(m) == 1 and al.BOUNDS.get(m[0][0], (0,))[0] == 5e-324
        if lo > -math.inf:
            rows.append(({m: Fraction(1)}, -Fraction(lo) if lo > 1e-300 or lo <= 0 else Fraction(0), strict_lo or lo > 0))
        if hi < math.inf:
            rows.append(({m: Fraction(-1)}, Fraction(hi), len(m) == 1 and al._open_at(Poly({m: Fraction(1)}), True)))
    live = set(used)
    while True:
        tight = {}         # of the rows of one direction only the tightest
        for t, c, st in rows:
            t = {m: x for m, x in t.items() if x}
            if not t:
                if c < 0 or (c == 0 and st):
                    return True
                continue
            k = abs(next(iter(sorted(t.items())))[1])
            key = tuple(sorted((m, x / k) for m, x in t.items()))
            old = tight.get(key)
            if old is None or (c / k, not st) < (old[1] / old[3], not old[2]):
                tight[key] = (t, c, st, k)
        rows = [r[:3] for r in tight.values()]
        if not live or not rows:
            return False
        best = None
        for m in live:
            a = sum(1 for t, _, _ in rows if t.get(m, 0) > 0)
            b = sum(1 for t, _, _ in rows if t.get(m, 0) < 0)
            k = a * b - a - b
            if best is None or k < best[0]:
                best = (k, m)
        m = best[1]
        live.discard(m)
        pos = [r for r in rows if r[0].get(m, 0) > 0]
        neg = [r for r in rows if r[0].get(m, 0) < 0]
        rest = [r for r in rows if not r[0].get(m, 0)]
        if len(pos) * len(neg) + len(rest) > maxrows:
            return False
        for t1, c1, s1 in pos:
            for t2, c2, s2 in neg:
                f1, f2 = -t2[m], t1[m]
                t = {}
                for k, x in t1.items():
                    t[k] = x * f1
                for k, x in t2.items():
                    t[k] = t.get(k, 0) + x * f2
                t.pop(m, None)
                rest.append((t, c1 * f1 + c2 * f2, s1 or s2))
        rows = rest


def squares_zero(guard):
    """q == 0 (or <= 0) with q a positive combination of squares of inputs: inputs are 0"""
    env = {}
    for v, js in guard:
        info = DDS.varinfo[v]
        if info[0] != 'sgn' or 2 in js:
            continue
        if tuple(js) == (0,):
            continue
        p = psub(info[1], info[2])
        if p.t and all(c > 0 for c in p.t.values()) and all(
                len(m) == 1 and m[0][1] % 2 == 0 for m in p.t):
            for m in p.t:
                env[m[0][0]] = ZERO
    return env


def random_vals(rng):
    val = {}
    sc = rng.choice([1.0, 1.0, 0.3, 3.0, 1e-2, 1e-4, 30.0])
    for i, k in enumerate(al.A.info):
        if k[0] == 'in':
            b = al.BOUNDS.get(i)
            if b:
                lo, hi = b
                if lo == float('-inf'):
                    lo = -sc
                if hi == float('inf'):
                    hi = max(lo, 0) + sc
                val[i] = rng.uniform(lo, hi)
            else:
                val[i] = rng.uniform(-sc, sc)
    return val


def numeric_nonzero(p, tries=40):
    """True if some valuation of the atoms separates p from 0 (used only to tell a
    genuinely different normal form from an incomplete one)"""
    rng = random.Random(12345)
    ok = 0
    for _ in range(tries):
        val = random_vals(rng)
        try:
            x = al.neval(p, val, {})
        except KeyError:
            return True
        except (ValueError, ZeroDivisionError, OverflowError):
            continue
        ok += 1
        # magnitude of terms for a relative test
        mag = 0.0
        try:
            for m, c in p.t.items():
                v = abs(float(c))
                for i, e in m:
                    v *= abs(al.natom(i, val, {})) ** e
                mag += v
        except (ValueError, ZeroDivisionError, OverflowError):
            continue
        if abs(x) > 1e-7 * max(mag, 1e-12):
            return True
    return ok == 0


class _NonFinite:
    def __repr__(self):
        return 'not finite'


NONFINITE = _NonFinite()


def _infinite(p):
    """None: no infinity or NaN anywhere; True: p itself is not finite (some
    term has an infinite factor and nothing can cancel it); False: cannot tell"""
    top = [m for m in p.t if any(al.A.info[i][0] in ('inf', 'nan', 'div0') for i, e in m)]
    if top:
        return all(e > 0 for m in top for i, e in m if al.A.info[i][0] in ('inf', 'nan', 'div0'))

    def rec(q):
        for m in q.t:
            for i, _ in m:
                if al.A.info[i][0] in ('inf', 'nan', 'div0'):
                    return True
                for x in al.A.info[i][1:]:
                    if isinstance(x, Poly) and rec(x):
                        return True
        return False
    return False if rec(p) else None


def decide_eq(a, b, pc):
    """list of (guard, left, right) where the two values differ"""
    bad = []
    und = []

    def diff(x, y):
        if x == y and type(x) is type(y):
            return ZERO
        if x is UNDEF or y is UNDEF:
            return UNDEF
        x, y = _n(x), _n(y)
        fx, fy = _infinite(x), _infinite(y)
        if (fx is True and fy is None) or (fy is True and fx is None):
            return NONFINITE
        return psub(x, y)
    d = apply('eqdiff', diff, a, b)
    d = ite(pc, d, leaf(ZERO))
    for g, v in paths(d):
        if isinstance(v, Poly) and al.is_zero(v):
            continue
        if infeasible(g):
            continue
        if v is UNDEF or v is NONFINITE:
            w = reach(g) if v is NONFINITE else witness.satisfiable(g, {})
            if w is None:
                und.append((g, v, 'no valuation reaches this path'))
            else:
                bad.append((g, v, w))
            continue
        env = eq_substs(g)
        env.update(squares_zero(g))
        v0 = v
        if env:
            try:
                w = al.subst(v, env)
                if al.is_zero(w):
                    continue
                # a second round: guards under the substitution
                if infeasible([(vv, js) for vv, js in g]):
                    continue
                v = w
            except (TooBig, ZeroDivisionError):
                pass
        ienv = {i: x for i, x in env.items() if al.A.info[i][0] == 'in'}
        w = witness.separates(g, v0 if len(ienv) < len(env) else v, ienv)
        if w is None:
            # no input found on this path: not believed
            und.append((g, v, 'no valuation reaches this path'))
        elif w is False:
            und.append((g, v, 'normal forms differ but no valuation separates them'))
        else:
            bad.append((g, v, w))
    return bad, und


def decide_finite(a, pc):
    """paths on which the value is infinite or no number; denominators must be known not to vanish"""
    bad, und = [], []
    for g, v in paths(ite(pc, a, leaf(ZERO))):
        if infeasible(g):
            continue
        if v is UNDEF:
            und.append((g, v, 'never set'))
            continue
        v = _n(v)
        env = eq_substs(g)
        env.update(squares_zero(g))
        if env:
            try:
                v = al.subst(v, env)
            except (TooBig, ZeroDivisionError):
                pass
        f = _infinite(v)
        if f is None:
            den = {i for m in v.t for i, e in m if e < 0}
            for i in den:
                q = al.A.info[i][1] if al.A.info[i][0] in ('P', 'sqrt') else al.patom(i)
                b, u = decide_true(_cmp('ne', q, ZERO), _conj(g))
                if b or u:
                    und.append((g, q, 'the denominator may vanish'))
                    break
        elif f is True:
            w = reach(g)
            (bad.append((g, v, w)) if w is not None else und.append((g, v, 'no valuation reaches this path')))
        else:
            und.append((g, v, 'an argument is not finite'))
    return bad, und


def _conj(g):
    d = T()
    for v, js in g:
        n = 3 if DDS.varinfo[v][0] == 'sgn' else 2
        d = dand(d, al.mk(v, tuple(T() if j in js else Fa() for j in range(n))))
    return d


def restrict_leaf(d, guard):
    """leaf of diagram d under the (first branch of the) guard"""
    g = {v: js[0] for v, js in guard}
    while d.var is not None:
        j = g.get(d.var)
        if j is None:
            # implied by another threshold of the same polynomial
            for v, k in g.items():
                if v[0] == d.var[0] and DDS.varinfo[v][0] == 'sgn':
                    if k in (0, 1) and v[1] < d.var[1]:
                        j = 0
                    if k in (1, 2) and v[1] > d.var[1]:
                        j = 2
            if j is None:
                return d
        d = d.ch[j]
    return d


def decide_true(c, pc):
    bad = []
    und = []
    d = ite(pc, c, T())
    for g, v in paths(d):
        if v is True:
            continue
        if infeasible(g):
            continue
        w = reach(g)
        if w is None:
            und.append((g, v, 'no valuation reaches this path'))
        else:
            bad.append((g, v, w))
    return bad, und


def reach(g):
    env = eq_substs(g)
    env.update(squares_zero(g))
    env = {i: x for i, x in env.items() if al.A.info[i][0] == 'in'}
    w = witness.satisfiable(g, env)
    if w is None and env:
        w = witness.satisfiable(g, {})
    return w


def unit(v):
    """-1 <= v <= 1, stated on the square; v = F sqrt(cQ)/Q: Q - c F^2 >= 0 (the root and the quotient exist: cQ > 0)"""
    if v.t:
        r = den = None
        m0 = next(iter(v.t))
        for i, e in m0:
            if al.A.info[i][0] == 'sqrt' and e == 1:
                r = i
        for i, e in m0:
            if r is not None and al.A.info[i][0] == 'P' and e == -1:
                n, q = al.A.info[r][1], al.A.info[i][1]
                k = next(iter(q.t))
                c = n.t.get(k, 0) / q.t[k]
                if c > 0 and al.pscale(q, c) == n:
                    den = i
        if den is not None and all(dict(m).get(r) == 1 and dict(m).get(den) == -1 for m in v.t):
            f = Poly({tuple(x for x in m if x[0] not in (r, den)): k for m, k in v.t.items()})
            return _cmp('ge', psub(q, al.pscale(al.pmul(f, f), c)), ZERO)
    return _cmp('ge', psub(al.pconst(1), al.pmul(v, v)), ZERO)


def source_of(module, dbg):
    ch = module.loc_chain(dbg) if dbg is not None else []
    return ' <- '.join('%s:%d(%s)' % ((fi or '?').replace(ROOT, ''), ln, fn) for fn, fi, ln in ch)


def judge(module, law, res, partial=False):
    """returns (n_obligations, findings, undecided); partial: the run stopped at a construct it cannot follow"""
    findings = []
    und = []
    n = 0
    al.DDS.nonzero = set()
    hyp = al.T()
    for c in res.assumed:
        hyp = dand(hyp, c)
    for (what, _), (pc, chain) in res.flaws.items():
        # the innermost function which is not of a library must be one of the repository
        for fn, fi, ln in [x for d in chain if d is not None for x in module.loc_chain(d)]:
            if fi and fi.startswith(ROOT):
                for g, v in paths(dand(pc, hyp)):
                    if v is True and not infeasible(g):
                        w = reach(g)
                        if w is not None:
                            findings.append(Finding(law, 'memory', '%s %s' % (fn, what), '%s:%d(%s)' % (fi[len(ROOT):], ln, fn), gstr(g), witness.show(w)))
                            break
                break
            if fi and re.search(r'/laws/[^/]*$', fi) and not fi.endswith('/rt.cpp'):
                break
    for f, a, pc, dbg in res.domain if res.check_domain else ():
        if f == 'div' and (res.check_domain != 'div' or isinstance(a, list)):
            continue
        n += 1
        pc = dand(pc, hyp)
        if f == 'div':
            bad, u = decide_true(apply(('nz',), lambda x: _cmp('ne', x, ZERO), a), pc)
            for g, v, w in bad:
                findings.append(Finding(law, 'division by zero', 'the denominator is %s' % _show(restrict_leaf(a, g)), source_of(module, dbg), gstr(g), witness.show(w)))
            for g, v, why in u:
                und.append(Finding(law, 'division by zero', 'not established: %s' % _show(restrict_leaf(a, g)), source_of(module, dbg), gstr(g)))
            continue
        lo, hi = {'sqrt': (0, None), 'log': (0, None)}.get(f, (-1, 1))
        c = apply(('ge', lo), lambda x: _cmp('ge', x, al.pconst(lo)), a)
        if hi is not None:
            c = dand(c, apply(('le', hi), lambda x: _cmp('le', x, al.pconst(hi)), a))
        bad, u = decide_true(c, pc)
        if u and lo == -1:
            # the same with the square, where the roots of the argument go away
            b2, u2 = decide_true(apply(('unit',), unit, a), pc)
            if len(u2) < len(u):
                bad, u = b2, u2
        for g, v, w in bad:
            findings.append(Finding(law, 'domain of ' + f, '%s of %s' % (f, _show(restrict_leaf(a, g))), source_of(module, dbg), gstr(g), witness.show(w)))
        for g, v, why in u:
            und.append(Finding(law, 'domain of ' + f, 'domain not established: %s of %s' % (f, _show(restrict_leaf(a, g))), source_of(module, dbg), gstr(g)))
    for tag, kind, args, pc, dbg, mem in res.sinks:
        n += 1
        pc = dand(pc, hyp)
        if pc.var is None and pc.val is False:
            if not res.throws and not res.aborts:
                und.append(Finding(law, tag, 'the obligation is unreachable (vacuous)', source_of(module, dbg)))
            continue
        loc = source_of(module, dbg)
        if kind in ('law_eq', 'law_eqi'):
            bad, u = decide_eq(args[0], args[1], pc)
            for g, v, w in bad:
                l = restrict_leaf(args[0], g)
                r = restrict_leaf(args[1], g)
                findings.append(Finding(law, tag, 'expected %s, the code computes %s' % (_show(r), _show(l)), loc, gstr(g), witness.show(w)))
            for g, v, why in u:
                und.append(Finding(law, tag, '%s: %s' % (why, pstr(v) if isinstance(v, Poly) else v), loc, gstr(g)))
        elif kind == 'law_true':
            c = apply('tobool', _tobool, args[0])
            bad, u = decide_true(c, pc)
            for g, v, w in bad:
                findings.append(Finding(law, tag, 'condition does not hold', loc, gstr(g), witness.show(w)))
            for g, v, why in u:
                und.append(Finding(law, tag, 'condition not established: ' + why, loc, gstr(g)))
        elif kind == 'law_finite':
            bad, u = decide_finite(args[0], pc)
            for g, v, w in bad:
                findings.append(Finding(law, tag, 'the code computes %s' % pstr(v), loc, gstr(g), witness.show(w)))
            for g, v, why in u:
                und.append(Finding(law, tag, why + ': ' + (pstr(v) if isinstance(v, Poly) else str(v)), loc, gstr(g)))
        elif kind == 'law_eqp':
            if args[0] is not args[1]:
                findings.append(Finding(law, tag, 'different objects', loc))
    if partial:
        return n, findings, und
    n += 1
    got = Fa()
    for pc, ti, dbg in res.throws:
        got = dor(got, pc)
    exp = Fa()
    for tag, c, pc, dbg in res.expect_throw:
        exp = dor(exp, dand(pc, c))
    tag = res.expect_throw[0][0] if res.expect_throw else 'no exception is raised'
    d = dand(al.dxor(got, exp), hyp)
    for g, v in paths(d):
        if v is True and not infeasible(g):
            e = restrict_leaf(exp, g)
            loc = ''
            for pc, ti, dbg in res.throws:
                if restrict_leaf(pc, g).val is True:
                    loc = source_of(module, dbg)
            if not loc and res.expect_throw:
                loc = source_of(module, res.expect_throw[0][3])
            w = reach(g)
            (findings if w is not None else und).append(
                Finding(law, tag, 'an exception must be raised here but is not' if e.val is True else
                        'an exception is raised where none is specified', loc, gstr(g), witness.show(w)))
    if res.aborts and not res.may_abort:
        for pc, nm, dbg in res.aborts:
            for g, v in paths(dand(pc, hyp)):
                if v is True and not infeasible(g):
                    w = reach(g)
                    (findings if w is not None else und).append(
                        Finding(law, 'no abort', 'the program is aborted (%s)' % nm, source_of(module, dbg), gstr(g), witness.show(w)))
    elif res.may_abort:
        pass
    return n, findings, und


def _show(d):
    s = repr(d)
    return s if len(s) < 300 else s[:300] + '...'
