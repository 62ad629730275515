"""Square factors of a polynomial normal form (for sqrt)."""
import random
import algebra as al
from algebra import Poly, pmul, pscale, ONE, F1
from fractions import Fraction

_PR = 2147483647


def _uni(p, v, rng):
    """coefficients of p in v, other atoms replaced by random residues"""
    sub = {}
    co = {}
    for m, c in p.items():
        x = c.numerator * pow(c.denominator, _PR - 2, _PR) % _PR
        e = 0
        for i, k in m:
            if i == v:
                e = k
                continue
            if i not in sub:
                sub[i] = rng.randrange(1, _PR)
            x = x * pow(sub[i], k, _PR) % _PR
        co[e] = (co.get(e, 0) + x) % _PR
    d = max(co)
    r = [co.get(i, 0) for i in range(d + 1)]
    while r and r[-1] == 0:
        r.pop()
    return r


def _gcd(a, b):
    while b:
        while len(a) >= len(b):
            k = a[-1] * pow(b[-1], _PR - 2, _PR) % _PR
            s = len(a) - len(b)
            for i, x in enumerate(b):
                a[i + s] = (a[i + s] - k * x) % _PR
            a.pop()
            while a and a[-1] == 0:
                a.pop()
            if not a:
                break
        a, b = b, a
    return a


def maybe_square_factor(t):
    """False only if t is square-free (probabilistic over a large prime)"""
    rng = random.Random(7)
    atoms = {i for m in t for i, _ in m}
    for v in atoms:
        p = _uni(t, v, rng)
        if len(p) <= 2:
            continue
        d = [x * i % _PR for i, x in enumerate(p)][1:]
        while d and d[-1] == 0:
            d.pop()
        if len(_gcd(list(p), d)) > 1:
            return True
    return False


def _sinred(t, s, c):
    """rewrite even powers of sin s through cos"""
    out = {}
    for m, co in t.items():
        d = dict(m)
        e = d.pop(s, 0)
        if e % 2:
            d[s] = 1
        n = e // 2
        b = 1
        for k in range(n + 1):      # (1 - c^2)^n
            f = dict(d)
            f[c] = f.get(c, 0) + 2 * k
            mm = tuple(sorted((i, x) for i, x in f.items() if x))
            out[mm] = out.get(mm, 0) + co * b * (-1) ** k
            b = b * (n - k) // (k + 1)
    return {m: co for m, co in out.items() if co}


def _forms(t):
    """forms of a polynomial in sin/cos (cos reduced) in which a square factor
    can show: homogeneous in a (sin, cos) pair where the degrees have one
    parity, else reduced either way"""
    pairs = {}
    for m in t:
        for i, _ in m:
            k = al.A.info[i]
            if k[0] in ('sin', 'cos'):
                pairs[k[1]] = (al.A.get('sin', k[1]), al.A.get('cos', k[1]))
    forms = [t]
    for s, c in list(pairs.values())[:6]:
        deg = {}
        for m in t:
            d = dict(m)
            deg[m] = d.get(s, 0) + d.get(c, 0)
        D = max(deg.values())
        if any((D - x) % 2 for x in deg.values()):
            forms = forms + [_sinred(f, s, c) for f in forms]
            if len(forms) > 8:
                return forms[:8]
            continue
        new = []
        for f in forms:
            out = {}
            for m, co in f.items():
                d0 = dict(m)
                n = (D - d0.get(s, 0) - d0.get(c, 0)) // 2
                b = 1
                for k in range(n + 1):
                    d = dict(m)
                    d[s] = d.get(s, 0) + 2 * k
                    d[c] = d.get(c, 0) + 2 * (n - k)
                    mm = tuple(sorted((i, e) for i, e in d.items() if e))
                    out[mm] = out.get(mm, 0) + co * b
                    b = b * (n - k) // (k + 1)
            new.append({m: co for m, co in out.items() if co})
        forms = new
    return forms


_cache = {}


def reset():
    _cache.clear()


def split(p):
    """p = prod(f^(2k)) * inside; returns ([(f, k)...], inside) or None"""
    r = _cache.get(p)
    if r is None:
        r = (_split(p),)
        _cache[p] = r
    return r[0]


def _split(p):
    if not p.t or p.is_const() or len(p.t) > 80:
        return None
    outs = []
    # denominators
    neg = {}
    for m in p.t:
        for i, e in m:
            if e < 0:
                neg[i] = min(neg.get(i, 0), e)
    q = p
    if neg:
        try:
            for i in neg:
                n = -neg[i]
                n += n % 2
                if al.A.info[i][0] == 'P':
                    q = al.clear1(q, i, n)
                else:
                    q = pmul(q, al.patom(i, n))
                outs.append((i, -(n // 2)))
        except al.TooBig:
            return None
        if any(e < 0 for m in q.t for _, e in m) or len(q.t) > 80:
            return None
    t = q.t
    inside = q
    fac = []
    for h in _forms(t):
        if len(h) > 120:
            continue
        if maybe_square_factor(h):
            import sympy as S
            atoms = sorted({i for m in h for i, _ in m})
            sym = [S.Symbol('v%d' % i) for i in atoms]
            ix = {i: k for k, i in enumerate(atoms)}
            pd = {}
            for m, c in h.items():
                ev = [0] * len(atoms)
                for i, e in m:
                    ev[ix[i]] = e
                pd[tuple(ev)] = S.Rational(c.numerator, c.denominator)
            sp = S.Poly(pd, *sym)
            c0, fl = sp.sqf_list()
            inside = al.pconst(Fraction(int(c0.p), int(c0.q)))
            for f, k in fl:
                terms = al.ZERO
                for ev, c in f.terms():
                    mm = tuple((atoms[j], e) for j, e in enumerate(ev) if e)
                    x = Poly({(): Fraction(int(c.p), int(c.q))}) if not mm else None
                    if x is None:
                        x = al.pconst(Fraction(int(c.p), int(c.q)))
                        for i, e in mm:
                            for _ in range(e):
                                x = pmul(x, al.patom(i))
                    terms = al.padd(terms, x)
                if k // 2:
                    fac.append((terms, k // 2))
                if k % 2:
                    inside = pmul(inside, terms)
            if fac:
                break
            inside = q
    if not fac and not outs:
        return None
    res = [(f, k) for f, k in fac if not f.is_const()]
    for f, k in fac:
        if f.is_const():
            inside = pmul(inside, al.ppow(f, 2 * k))
    for i, k in outs:
        base = al.A.info[i][1] if al.A.info[i][0] == 'P' else al.patom(i)
        res.append((base, k))
    if fac:
        more = _split(inside)
        if more:
            return res + more[0], more[1]
    return res, inside
