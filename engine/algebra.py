"""Abstract value domain: multi-terminal decision diagrams whose terminals are
normal forms of a commutative ring of real expressions.

* terminals: Laurent polynomials with rational coefficients over atoms
  (inputs, sin/cos, sqrt, atan2, acos, ... ), reduced by
  sin^2+cos^2=1, sqrt(p)^2=p, angle addition, parity of odd/even functions;
* decision variables: three-way sign of (polynomial - threshold), or a boolean
  atom.  Comparisons written in any equivalent way give the same diagram.

Floating point is read as exact real arithmetic ("up to rounding").
"""
import math
import struct
from fractions import Fraction
from decimal import Decimal

F0 = Fraction(0)
F1 = Fraction(1)


class TooBig(Exception):
    pass


# ---------------------------------------------------------------- atoms
class Atoms:
    def __init__(self):
        self.key2idx = {}
        self.info = []

    def get(self, *key):
        i = self.key2idx.get(key)
        if i is None:
            i = len(self.info)
            self.key2idx[key] = i
            self.info.append(key)
        return i


A = Atoms()
PI = A.get('pi')
BOUNDS = {}      # atom -> (lo, hi) user supplied


def reset():
    global A, PI
    A = Atoms()
    PI = A.get('pi')
    BOUNDS.clear()
    INTS.clear()
    NN.clear()
    import sqf
    sqf.reset()
    DDS.reset()


MAXTERMS = 60000
NN = set()      # normal forms known to be >= 0 (sums of squares when they were built)


class Poly:
    __slots__ = ('t', '_h', '_key', '_iv')

    def __init__(self, terms):
        self.t = terms
        self._h = None
        self._key = None
        self._iv = None

    def key(self):
        if self._key is None:
            self._key = tuple(sorted(self.t.items()))
        return self._key

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), F0)

    def __add__(self, o):
        return padd(self, o)

    def __sub__(self, o):
        return psub(self, o)

    def __mul__(self, o):
        return pmul(self, o)

    def __neg__(self):
        return pscale(self, -1)

    def __repr__(self):
        return pstr(self)


_pc = {}


def pconst(c):
    r = _pc.get(c)
    if r is None:
        f = Fraction(c)
        r = Poly({(): f}) if f else ZERO
        if len(_pc) < 100000:
            _pc[c] = r
    return r


ZERO = Poly({})
ONE = Poly({(): F1})


def patom(i, e=1):
    return Poly({((i, e),): F1})


def padd(a, b):
    if not a.t:
        return b
    if not b.t:
        return a
    if len(a.t) < len(b.t):
        a, b = b, a
    t = dict(a.t)
    for m, c in b.t.items():
        v = t.get(m)
        if v is None:
            t[m] = c
        else:
            v = v + c
            if v:
                t[m] = v
            else:
                del t[m]
    r = Poly(t)
    if NN and 1 < len(t) < 400 and (a in NN and _nonneg(b) or b in NN and _nonneg(a)):
        NN.add(r)
    return r


def pscale(a, k):
    k = Fraction(k)
    if not k:
        return ZERO
    if k == 1:
        return a
    return Poly({m: c * k for m, c in a.t.items()})


def psub(a, b):
    return padd(a, pscale(b, -1))


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for i, e in n:
        s = d.get(i, 0) + e
        if s:
            d[i] = s
        else:
            d.pop(i, None)
    return tuple(sorted(d.items()))


_rednames = ('cos', 'sqrt')


def _needs(m):
    for i, e in m:
        k = A.info[i][0]
        if (k == 'cos' and e >= 2) or (k == 'sqrt' and (e >= 2 or e < 0)) or (k == 'P' and e > 0):
            return True
    return False


def _reduce_mono(m):
    """monomial -> Poly with reductions applied once"""
    out = ONE
    rest = []
    for i, e in m:
        info = A.info[i]
        k = info[0]
        if k == 'cos' and e >= 2:
            s = A.get('sin', info[1])
            f = psub(ONE, patom(s, 2))
            for _ in range(e // 2):
                out = pmul(out, f)
            if e % 2:
                rest.append((i, 1))
        elif k == 'sqrt' and (e >= 2 or e < 0):
            q, r = divmod(e, 2)
            if q > 0:
                for _ in range(q):
                    out = pmul(out, info[1])
            elif q < 0:
                iv = pinv(info[1])
                for _ in range(-q):
                    out = pmul(out, iv)
            if r:
                rest.append((i, 1))
        elif k == 'P' and e > 0:
            for _ in range(e):
                out = pmul(out, info[1])
        else:
            rest.append((i, e))
    if rest:
        out = pmul(out, Poly({tuple(rest): F1}))
    return out


def pmul(a, b):
    if not a.t or not b.t:
        return ZERO
    if len(a.t) * len(b.t) > MAXTERMS:
        raise TooBig('product of %d x %d terms' % (len(a.t), len(b.t)))
    t = {}
    red = []
    for m, c in a.t.items():
        for n, d in b.t.items():
            k = mmul(m, n)
            v = t.get(k)
            if v is None:
                t[k] = c * d
            else:
                t[k] = v + c * d
    for k in list(t):
        if not t[k]:
            del t[k]
        elif _needs(k):
            red.append((k, t.pop(k)))
    r = Poly(t)
    for k, c in red:
        r = padd(r, pscale(_reduce_mono(k), c))
    if 1 < len(r.t) < 400 and (a is b or len(a.t) == len(b.t) and a.t == b.t or
                               NN and _nonneg(a) and _nonneg(b)):
        NN.add(r)
    return r


def _nonneg(p):
    return interval(p)[0] >= 0


def ppow(a, n):
    r = ONE
    for _ in range(n):
        r = pmul(r, a)
    return r


def lead(p):
    """deterministic leading monomial (structure based)"""
    return max(p.t, key=lambda m: (sum(e for _, e in m), m))


def content(p):
    """p = c * q with q having integer coprime coefficients, positive lead"""
    num = 0
    den = 1
    for c in p.t.values():
        num = math.gcd(num, abs(c.numerator))
        den = den * c.denominator // math.gcd(den, c.denominator)
    c = Fraction(num, den)
    if p.t[lead(p)] < 0:
        c = -c
    return c, pscale(p, 1 / c)


def common_mono(p):
    """greatest monomial (by min exponent) dividing every term"""
    it = iter(p.t)
    d = dict(next(it))
    for m in it:
        md = dict(m)
        for i in list(d):
            e = min(d[i], md.get(i, 0))
            if e:
                d[i] = e
            else:
                del d[i]
        for i, e in md.items():
            if i not in d and e < 0:
                d[i] = e
        if not d:
            pass
    # atoms absent from some terms have exponent 0
    for m in p.t:
        md = dict(m)
        for i in list(d):
            if i not in md and d[i] > 0:
                del d[i]
    return tuple(sorted(d.items()))


def minv(m):
    return tuple((i, -e) for i, e in m)


def pinv(p):
    if not p.t:
        return patom(A.get('div0'))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        out = Poly({minv(m): 1 / c})
        if _needs(minv(m)):
            return pscale(_reduce_mono(minv(m)), 1 / c)
        return out
    m = common_mono(p)
    q = p
    if m:
        q = Poly({mmul(k, minv(m)): c for k, c in p.t.items()})
    c, q = content(q)
    out = Poly({((A.get('P', q), -1),): 1 / c})
    if m:
        out = pmul(out, pinv(Poly({m: F1})))
    return out


def pdiv(a, b):
    if b.is_const() and b.t:
        return pscale(a, 1 / b.const())
    if a.t and a == b:
        return ONE
    return pmul(a, pinv(b))


def clear(p):
    """numerator of p: multiply by every denominator"""
    for _ in range(60):
        neg = {}
        for m in p.t:
            for i, e in m:
                if e < 0:
                    neg[i] = min(neg.get(i, 0), e)
        if not neg:
            return p
        i = sorted(neg)[-1]
        k = -neg[i]
        info = A.info[i]
        if info[0] == 'P':
            base = info[1]
            pw = [ONE]
            for _ in range(k):
                pw.append(pmul(pw[-1], base))
            groups = {}
            for m, c in p.t.items():
                d = dict(m)
                e = d.pop(i, 0)
                groups.setdefault(e, {})[tuple(sorted(d.items()))] = c
            r = ZERO
            for e, t in groups.items():
                r = padd(r, pmul(Poly(t), pw[k + e]))
            p = r
        else:
            p = pmul(p, patom(i, k))
    return p


def unify_angles(p):
    """rewrite sin/cos of multiples of one angle over the common sub-angle"""
    groups = {}

    def scan(q):
        for m in q.t:
            for i, _ in m:
                k = A.info[i]
                if k[0] in ('sin', 'cos') and len(k[1].t) == 1:
                    (mm, c), = k[1].t.items()
                    groups.setdefault(mm, set()).add(c)
                for a in k[1:]:
                    if isinstance(a, Poly):
                        scan(a)
    scan(p)
    env = {}
    for mm, cs in groups.items():
        if len(cs) < 2:
            continue
        den = 1
        for c in cs:
            den = den * c.denominator // math.gcd(den, c.denominator)
        g = 0
        for c in cs:
            g = math.gcd(g, int(c * den))
        g = Fraction(g, den)
        if any(c / g > 8 for c in cs):
            continue
        bs, bc = _base_sincos(Poly({mm: g}))
        for c in cs:
            if c == g:
                continue
            s, k = ZERO, ONE
            for _ in range(int(c / g)):
                s, k = padd(pmul(s, bc), pmul(k, bs)), psub(pmul(k, bc), pmul(s, bs))
            base = Poly({mm: c})
            for kind, v in (('sin', s), ('cos', k)):
                i = A.key2idx.get((kind, base))
                if i is not None:
                    env[i] = v
    return subst(p, env) if env else p


def is_zero(p):
    if not p.t:
        return True
    try:
        if not clear(p).t:
            return True
        q = unify_angles(p)
        return q is not p and not clear(q).t
    except TooBig:
        return False


# ---------------------------------------------------------------- constants
_cc = {}


def f32(x):
    try:
        return struct.unpack('f', struct.pack('f', x))[0]
    except OverflowError:
        return math.inf


def fpconst(x):
    r = _cc.get(x)
    if r is None:
        r = _fpconst(x)
        _cc[x] = r
    return r


def _fpconst(x):
    if x != x:
        return patom(A.get('nan'))
    if x in (math.inf, -math.inf):
        return pscale(patom(A.get('inf')), 1 if x > 0 else -1)
    if x == 0:
        return ZERO
    isf = f32(x) == x
    rnd = f32 if isf else (lambda v: v)
    tol = 1.3e-7 if isf else 3e-16
    if not (x == int(x) and abs(x) < 1e6):
        for fac, e in ((x / math.pi, 1), (x * math.pi, -1), (x * math.pi ** 2, -2), (x / math.pi ** 2, 2)):
            q = Fraction(fac).limit_denominator(360)
            if q and abs(float(q) / fac - 1) < tol and abs(q.numerator) <= 720 and \
                    (q.denominator in (1, 2, 3, 4, 6, 8, 12, 16, 90, 180, 360)):
                # a short decimal wins over an accidental multiple of pi
                s = _short(x, isf)
                if len(s.replace('-', '').replace('.', '').strip('0')) >= (6 if isf else 12):
                    return Poly({((PI, e),): q})
    if x == int(x) and abs(x) < 1e15:
        return pconst(int(x))
    s = _short(x, isf)
    d = Fraction(Decimal(s))
    if len(s.replace('-', '').replace('.', '').split('e')[0].strip('0')) >= (7 if isf else 14):
        q = Fraction(x).limit_denominator(1000)
        if q and rnd(float(q)) == x:
            return pconst(q)
    return pconst(d)


def _short(x, isf):
    if not isf:
        return repr(x)
    for p in range(1, 10):
        s = '%.*g' % (p, x)
        if f32(float(s)) == x:
            return s
    return repr(x)


# ---------------------------------------------------------------- functions
def split_pi(p):
    """p = k*pi + rest, returns (k, rest)"""
    m = ((PI, 1),)
    k = p.t.get(m, F0)
    if k:
        t = dict(p.t)
        del t[m]
        return k, Poly(t)
    return F0, p


INTS = set()      # atoms that hold integers


def int_part(p):
    """the terms of p that are integers whatever the integer atoms hold"""
    t = {}
    for m, c in p.t.items():
        if c.denominator == 1 and all(i in INTS and e > 0 for i, e in m):
            t[m] = c
    return Poly(t)


def f_frac(z):
    """z - floor(z)"""
    k = int_part(z)
    if k.t:
        z = psub(z, k)
    if not z.t:
        return ZERO
    if z.is_const():
        c = z.const()
        return pconst(c - math.floor(c))
    t = {}
    for m, c in z.t.items():       # frac(z + n frac(w)) = frac(z + n w)
        if c.denominator == 1 and len(m) == 1 and m[0][1] == 1 and A.info[m[0][0]][0] == 'frac':
            w = A.info[m[0][0]][1]
            return f_frac(padd(Poly({n: d for n, d in z.t.items() if n != m}), pscale(w, c)))
        if not m:
            c = c - math.floor(c)
            if not c:
                continue
        t[m] = c
    z = Poly(t)
    if not z.t:
        return ZERO
    lo, hi = interval(z)
    if lo >= 0 and hi < 1:
        return z
    if hi < 0 and lo >= -1:
        return padd(z, ONE)
    return patom(A.get('frac', z))


def inside_unit(z):
    """-1 < z < 1 for every input"""
    lo, hi = interval(z)
    return (lo > -1 or lo == -1 and _open_at(z, False)) and (hi < 1 or hi == 1 and _open_at(z, True))


def _open_at(q, hi):
    """a bound of q is not attained: a term is a multiple of frac() or a positive product"""
    for m, c in q.t.items():
        if len(m) == 1 and m[0][1] == 1 and A.info[m[0][0]][0] == 'frac' and (c > 0) == hi:
            return True
        if (c < 0) == hi and m and all(atom_bounds(i)[0] > 0 for i, _ in m):
            # a product of positive factors is not zero; its computed bound may be
            lo, hi_ = interval(Poly({m: F1}))
            if lo == 0.0:
                return True
    return False


def _whole_turns(p):
    """drop whole turns: 2 pi n frac(z) is 2 pi n z up to a multiple of 2 pi"""
    for m, c in p.t.items():
        if len(m) == 2 and m[0] == (PI, 1) and m[1][1] == 1 and A.info[m[1][0]][0] == 'frac' and \
                c.denominator == 1 and c.numerator % 2 == 0:
            t = dict(p.t)
            del t[m]
            return _whole_turns(padd(Poly(t), pscale(pmul(patom(PI), A.info[m[1][0]][1]), c)))
        if len(m) > 1 and m[0] == (PI, 1) and c.denominator == 1 and c.numerator % 2 == 0 and \
                all(i in INTS and e > 0 for i, e in m[1:]):
            t = dict(p.t)
            del t[m]
            return _whole_turns(Poly(t))
    return p


def sincos(p):
    """(sin p, cos p)"""
    p = _whole_turns(p)
    k, r = split_pi(p)
    s, c = _sincos(r)
    if k:
        q = (k * 2) // 1
        for _ in range(q % 4):
            s, c = c, -s
        k -= Fraction(q, 2)
        if k:
            a = _const_sincos(k)
            s, c = padd(pmul(s, a[1]), pmul(c, a[0])), psub(pmul(c, a[1]), pmul(s, a[0]))
    return s, c


def _const_sincos(k):
    """sine and cosine of k pi, 0 < k < 1/2"""
    h = Fraction(1, 2)
    if k == Fraction(1, 4):
        r = pscale(psqrt_poly(pconst(2)), h)
        return r, r
    if k in (Fraction(1, 6), Fraction(1, 3)):
        r = pscale(psqrt_poly(pconst(3)), h)
        return (pconst(h), r) if k < Fraction(1, 4) else (r, pconst(h))
    return patom(A.get('sin', pscale(patom(PI), k))), patom(A.get('cos', pscale(patom(PI), k)))


def _sincos(p):
    if not p.t:
        return ZERO, ONE
    s, c = ZERO, ONE
    for m, co in sorted(p.t.items()):
        n = co
        neg = n < 0
        n = abs(n)
        if n.denominator == 1 and n <= 6:
            base = Poly({m: F1})
            mult = int(n)
        else:
            base = Poly({m: n})
            mult = 1
        bs, bc = _base_sincos(base)
        ts, tc = ZERO, ONE
        for _ in range(mult):
            ts, tc = padd(pmul(ts, bc), pmul(tc, bs)), psub(pmul(tc, bc), pmul(ts, bs))
        if neg:
            ts = -ts
        s, c = padd(pmul(s, tc), pmul(c, ts)), psub(pmul(c, tc), pmul(s, ts))
    return s, c


def _abs_known(q):
    lo, hi = interval(q)
    return q if lo >= 0 else -q if hi <= 0 else None


def _sqrt_known(n):
    q = perfect_square(n)
    if q is not None:
        a = _abs_known(q)
        if a is not None:
            return a
    import sqf
    sp = sqf.split(n)
    if sp is not None and not (sp[1].is_const() and sp[1].const() < 0):
        out, inside = ONE, sp[1]
        for f, k in sp[0]:
            a = _abs_known(f)
            if a is None and k < 0:
                return psqrt_poly(n)
            if a is None:
                inside = pmul(inside, ppow(f, 2 * k))
            elif k > 0:
                out = pmul(out, ppow(a, k))
            else:
                out = pmul(out, ppow(pinv(a), -k))
        if out is not ONE:
            return pmul(out, psqrt_poly(inside))
    return psqrt_poly(n)


def divexact(p, q):
    """p / q when q divides p exactly (q monic in one of its plain atoms), else None"""
    if len(q.t) > 40 or len(p.t) > 600:
        return None
    for v in sorted({i for m in q.t for i, _ in m}):
        if A.info[v][0] in ('sin', 'cos', 'sqrt', 'P'):
            continue
        qc = _incoeffs(q, v)
        if qc is None:
            continue
        n = max(qc)
        if n == 0 or not qc[n].is_const():
            continue
        pc = _incoeffs(p, v)
        if pc is None or max(pc) < n:
            return None
        ic = 1 / qc[n].const()
        out = ZERO
        for e in range(max(pc), n - 1, -1):
            c = pc.get(e)
            if c is None or not c.t:
                continue
            c = pscale(c, ic)
            out = padd(out, pmul(c, patom(v, e - n)) if e > n else c)
            for k, x in qc.items():
                if k < n:
                    pc[e - n + k] = psub(pc.get(e - n + k, ZERO), pmul(c, x))
        if any(pc[e].t for e in pc if e < n):
            return None
        return out
    return None


def _incoeffs(p, v):
    co = {}
    for m, c in p.t.items():
        d = dict(m)
        e = d.pop(v, 0)
        if e < 0:
            return None
        co.setdefault(e, {})[tuple(sorted(d.items()))] = c
    return {e: Poly(t) for e, t in co.items()}


def _base_sincos(b):
    (m, co), = b.t.items()
    if len(m) == 1 and m[0][1] == 1 and co == 1:
        info = A.info[m[0][0]]
        if info[0] == 'atan2':
            y, x = info[1], info[2]
            n = padd(pmul(y, y), pmul(x, x))
            iv = pinv(_sqrt_known(n))
            return pmul(y, iv), pmul(x, iv)
        if info[0] == 'acos':
            x = info[1]
            return psqrt_poly(psub(ONE, pmul(x, x))), x
        if info[0] == 'asin':
            x = info[1]
            return x, psqrt_poly(psub(ONE, pmul(x, x)))
    return patom(A.get('sin', b)), patom(A.get('cos', b))


def isqrt_frac(c):
    n = math.isqrt(c.numerator)
    d = math.isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator:
        return Fraction(n, d)
    return None


def perfect_square(p):
    """q with q*q == p (normal forms), or None"""
    if not p.t:
        return ZERO
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c > 0 and all(e % 2 == 0 for _, e in m):
            r = isqrt_frac(c)
            if r is not None:
                return Poly({tuple((i, e // 2) for i, e in m): r})
        return None
    if len(p.t) > 60:
        return None
    # monomial with trig: 1 - sin^2 -> cos^2
    for i in {i for m in p.t for i, _ in m if A.info[i][0] == 'sin'}:
        q = _div_one_minus_sq(p, i)
        if q is not None:
            r = perfect_square(q)
            if r is not None:
                return pmul(r, patom(A.get('cos', A.info[i][1])))
    # common even monomial
    cm = common_mono(p)
    if any(e < 0 for _, e in cm) or any(e > 1 for _, e in cm):
        ev = tuple((i, (e // 2) * 2) for i, e in cm if e // 2)
        if ev:
            q = Poly({mmul(m, minv(ev)): c for m, c in p.t.items()})
            r = perfect_square(q) if q != p else None
            if r is not None:
                return pmul(r, Poly({tuple((i, e // 2) for i, e in ev): F1}))
    # generic polynomial square root by leading terms (lex order)
    if any(e < 0 for m in p.t for _, e in m):
        return None
    atoms = sorted({i for m in p.t for i, _ in m})
    if any(A.info[i][0] in ('cos', 'sqrt') for i in atoms):
        return None

    def vec(m):
        d = dict(m)
        return tuple(d.get(i, 0) for i in atoms)
    rem = p
    root = ZERO
    lm = None
    for _ in range(12):
        if not rem.t:
            return root
        m = max(rem.t, key=vec)
        c = rem.t[m]
        if lm is None:
            if c <= 0 or any(e % 2 for _, e in m):
                return None
            r = isqrt_frac(c)
            if r is None:
                return None
            lm = tuple((i, e // 2) for i, e in m)
            lc = r
            root = Poly({lm: r})
        else:
            q = mmul(m, minv(lm))
            if any(e < 0 for _, e in q):
                return None
            root = padd(root, Poly({q: c / (2 * lc)}))
        rem = psub(p, pmul(root, root))
    return None


def _div_one_minus_sq(p, i):
    """p / (1 - a_i^2) if exact"""
    # as polynomial in a_i
    co = {}
    for m, c in p.t.items():
        d = dict(m)
        e = d.pop(i, 0)
        if e < 0:
            return None
        co.setdefault(e, {})[tuple(sorted(d.items()))] = c
    deg = max(co)
    if deg < 2:
        return None
    co = {e: Poly(t) for e, t in co.items()}
    out = ZERO
    for e in range(deg, 1, -1):
        c = co.get(e, ZERO)
        if c.t:
            # c a^e = -c a^(e-2) (1 - a^2) + c a^(e-2)
            out = padd(out, pmul(-c, patom(i, e - 2) if e > 2 else ONE))
            co[e - 2] = padd(co.get(e - 2, ZERO), c)
            co[e] = ZERO
    if co.get(0, ZERO).t or co.get(1, ZERO).t:
        return None
    return out


def psqrt_poly(p):
    """sqrt of p for p known not to be a perfect square of unknown sign"""
    if not p.t:
        return ZERO
    if p.is_const():
        c = p.const()
        if c < 0:
            return patom(A.get('fn', 'sqrtneg', p))
        r = isqrt_frac(c)
        if r is not None:
            return pconst(r)
        n = c.numerator * c.denominator
        k = 1
        f = 2
        while f * f <= n and f < 2000:
            while n % (f * f) == 0:
                n //= f * f
                k *= f
            f += 1
        return pscale(patom(A.get('sqrt', pconst(n))), Fraction(k, c.denominator))
    c, q = content(p)
    if c < 0:
        c = -c
        q = -q
    r = isqrt_frac(c)
    if r is None:
        n = c.numerator * c.denominator
        k = 1
        f = 2
        while f * f <= n and f < 2000:
            while n % (f * f) == 0:
                n //= f * f
                k *= f
            f += 1
        # sqrt(c q) = k/den * sqrt(n q)
        r = Fraction(k, c.denominator)
        q = pscale(q, n)
    return pscale(patom(A.get('sqrt', q)), r)


# ---------------------------------------------------------------- intervals
def atom_bounds(i):
    b = BOUNDS.get(i)
    if b is not None:
        return b
    info = A.info[i]
    k = info[0]
    if k == 'pi':
        return (math.pi, math.pi)
    if k in ('sin', 'cos'):
        lo, hi = interval(info[1])
        if k == 'sin':
            lo, hi = lo - math.pi / 2, hi - math.pi / 2
        h = math.pi / 2
        if lo > -h and hi < h:
            return (max(0.0, min(math.cos(lo), math.cos(hi)) * (1 - 1e-9) - 1e-16) or 5e-324, 1.0)
        return (-1.0, 1.0)
    if k == 'sqrt':
        lo, hi = interval(info[1])
        return (math.sqrt(max(lo, 0.0)) if lo != -math.inf else 0.0, math.sqrt(hi) if hi >= 0 and hi != math.inf else math.inf)
    if k == 'acos':
        return (0.0, math.pi)
    if k == 'asin':
        return (-math.pi / 2, math.pi / 2)
    if k == 'atan2':
        ylo, yhi = interval(info[1])
        if ylo >= 0:
            return (0.0, math.pi)
        return (-math.pi, math.pi)
    if k == 'P':
        return interval(info[1])
    if k == 'inf':
        return (math.inf, math.inf)
    if k == 'nonneg':
        return (0.0, math.inf)
    if k == 'frac':
        return (0.0, 1.0)
    return (-math.inf, math.inf)


def _imul(a, b):
    vals = []
    for x in a:
        for y in b:
            if x == 0 or y == 0:
                vals.append(0.0)
            else:
                vals.append(x * y)
    return min(vals), max(vals)


def _ipow(b, e):
    lo, hi = b
    if e < 0:
        if lo > 0 or hi < 0:
            r = sorted((1 / lo if lo not in (math.inf, -math.inf) else 0.0,
                        1 / hi if hi not in (math.inf, -math.inf) else 0.0))
            return _ipow((r[0], r[1]), -e)
        if lo == 0 and e % 1 == 0:
            return (0.0, math.inf)
        if e % 2 == 0:
            return (0.0, math.inf)
        return (-math.inf, math.inf)
    if e % 2 == 0:
        m = max(abs(lo), abs(hi))
        l = 0.0 if lo <= 0 <= hi else min(abs(lo), abs(hi))
        return (_fp(l, e), _fp(m, e))
    return (_fp(lo, e), _fp(hi, e))


def _fp(x, e):
    try:
        return x ** e
    except OverflowError:
        return math.inf


def interval(p):
    if p._iv is None:
        lo = hi = 0.0
        for m, c in p.t.items():
            iv = (1.0, 1.0)
            for i, e in m:
                iv = _imul(iv, _ipow(atom_bounds(i), e))
            iv = _imul(iv, (float(c), float(c)))
            lo += iv[0]
            hi += iv[1]
            if lo != lo:
                lo = -math.inf
            if hi != hi:
                hi = math.inf
        # exact end for single-signed sums is what matters, widen for rounding
        if lo not in (0.0, -math.inf, math.inf) and lo != int(lo):
            lo -= abs(lo) * 1e-12
        if hi not in (0.0, -math.inf, math.inf) and hi != int(hi):
            hi += abs(hi) * 1e-12
        if lo < 0 and p in NN:
            lo = 0.0
        p._iv = (lo, hi)
    return p._iv


def interval_under(p, ov):
    """interval of p with the atom bounds of ov (atom -> (lo, hi)) added"""
    def ab(i):
        b = atom_bounds(i)
        o = ov.get(i)
        if o:
            b = (max(b[0], o[0]), min(b[1], o[1]))
        return b
    lo = hi = 0.0
    for m, c in p.t.items():
        iv = (1.0, 1.0)
        for i, e in m:
            iv = _imul(iv, _ipow(ab(i), e))
        iv = _imul(iv, (float(c), float(c)))
        lo += iv[0]
        hi += iv[1]
        if lo != lo:
            lo = -math.inf
        if hi != hi:
            hi = math.inf
    return lo, hi


# ---------------------------------------------------------------- printing
def astr(i):
    k = A.info[i]
    if k[0] == 'in':
        return '%s[%s]' % (k[1], k[2]) if k[2] is not None else str(k[1])
    if k[0] in ('pi', 'inf', 'nan', 'div0'):
        return k[0]
    if k[0] == 'P':
        return '(%s)' % pstr(k[1])
    if k[0] == 'fn':
        return '%s(%s)' % (k[1], ','.join(pstr(x) if isinstance(x, Poly) else str(x) for x in k[2:]))
    return '%s(%s)' % (k[0], ','.join(pstr(x) if isinstance(x, Poly) else str(x) for x in k[1:]))


def pstr(p, limit=12):
    if not p.t:
        return '0'
    out = []
    for m, c in sorted(p.t.items(), key=lambda x: str(x[0])):
        f = '*'.join(astr(i) + ('^%d' % e if e != 1 else '') for i, e in m)
        if not f:
            out.append(str(c))
        elif c == 1:
            out.append(f)
        elif c == -1:
            out.append('-' + f)
        else:
            out.append('%s*%s' % (c, f))
        if len(out) >= limit and len(p.t) > limit:
            out.append('...(%d terms)' % len(p.t))
            break
    return ' + '.join(out)


# ---------------------------------------------------------------- substitution
def subst(p, env, memo=None):
    """replace atoms by polynomials everywhere (through functions).

    returns a Poly; functions that need a case split are rebuilt without one,
    which is only sound for equality of values, so abs-like cases are opaque."""
    if memo is None:
        memo = {}
    key = p
    if key in memo:
        return memo[key]
    r = ZERO
    for m, c in p.t.items():
        t = pconst(c)
        for i, e in m:
            v = _satom(i, env, memo)
            if e < 0:
                v = pinv(v)
                e = -e
            for _ in range(e):
                t = pmul(t, v)
        r = padd(r, t)
    memo[key] = r
    return r


def _satom(i, env, memo):
    if i in env:
        return env[i]
    info = A.info[i]
    k = info[0]
    if k in ('in', 'pi', 'nan', 'inf', 'div0', 'nonneg'):
        return patom(i)
    args = [subst(x, env, memo) if isinstance(x, Poly) else x for x in info[1:]]
    if all(a == b for a, b in zip(args, info[1:])):
        return patom(i)
    if k == 'sin':
        return sincos(args[0])[0]
    if k == 'cos':
        return sincos(args[0])[1]
    if k == 'sqrt':
        q = perfect_square(args[0])
        if q is not None:
            lo, hi = interval(q)
            if lo >= 0:
                return q
            if hi <= 0:
                return -q
        return psqrt_poly(args[0])
    if k == 'P':
        return args[0]
    if k == 'acos':
        return f_acos(args[0])
    if k == 'asin':
        return f_asin(args[0])
    if k == 'atan2':
        return f_atan2(args[0], args[1])
    if k == 'frac':
        return f_frac(args[0])
    return patom(A.get(k, *args))


def _argof(p, kind):
    """b when p is the atom kind(b)"""
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and A.info[m[0][0]][0] == kind:
            return A.info[m[0][0]][1]
    return None


def f_acos(p):
    b = _argof(p, 'cos')
    if b is not None:
        lo, hi = interval(b)
        if lo >= 0 and hi <= math.pi + 1e-6:
            return b
        if hi <= 0 and lo >= -math.pi - 1e-6:
            return -b
    if p.is_const():
        c = p.const()
        if c == 1:
            return ZERO
        if c == -1:
            return patom(PI)
        if c == 0:
            return pscale(patom(PI), Fraction(1, 2))
    if p.t and p.t[lead(p)] < 0:
        return psub(patom(PI), patom(A.get('acos', -p)))
    return patom(A.get('acos', p))


def f_asin(p):
    if not p.t:
        return ZERO
    b = _argof(p, 'sin')
    if b is not None:
        lo, hi = interval(b)
        if lo >= -math.pi / 2 - 1e-6 and hi <= math.pi / 2 + 1e-6:
            return b
    if p.is_const():
        c = p.const()
        if abs(c) == 1:
            return pscale(patom(PI), Fraction(int(c), 2))
    if p.t[lead(p)] < 0:
        return -patom(A.get('asin', -p))
    return patom(A.get('asin', p))


def f_atan2(y, x):
    if not y.t and x.is_const():  # atan2(0, 0): zeros carry no sign
        return ZERO if x.const() >= 0 else patom(PI)
    if y.is_const() and x.is_const():
        c, d = y.const(), x.const() if x.t else 0
        if d == 0 or abs(c) == abs(d):
            q = Fraction(1, 2) if d == 0 else Fraction(1, 4) if d > 0 else Fraction(3, 4)
            return pscale(patom(PI), q if c > 0 else -q)
    # (sin a, cos a) pairs with a in ]-pi, pi[ by user bound
    if y.t:
        c, q = content(y)
        k = abs(c)
        y = pscale(y, 1 / k)
        x = pscale(x, 1 / k)
        if y.t[lead(y)] < 0:
            return -_mk_atan2(-y, x)
    elif x.t:
        c, _ = content(x)
        x = pscale(x, 1 / abs(c))
    return _mk_atan2(y, x)


def _mk_atan2(y, x):
    # strip a common strictly positive factor monomial
    if y.t:
        ms = set()
        for p in (y, x):
            for m in p.t:
                ms.add(m)
        cand = None
        for m in ms:
            d = dict(m)
            if cand is None:
                cand = d
            else:
                cand = {i: min(e, d.get(i, 0)) if True else 0 for i, e in cand.items()}
                cand = {i: e for i, e in cand.items() if e}
        cand = cand or {}
        strip = {}
        for i, e in cand.items():
            if e and atom_bounds(i)[0] > 0 or (e and A.info[i][0] == 'sqrt' and False):
                strip[i] = e
        # negative powers common to all terms are handled by min as well
        if strip:
            mi = minv(tuple(sorted(strip.items())))
            y = pmul(y, Poly({mi: F1}))
            x = pmul(x, Poly({mi: F1}))
    if len(y.t) == 1 and len(x.t) == 1:
        (my, cy), = y.t.items()
        (mx, cx), = x.t.items()
        if cy == cx == 1 and len(my) == 1 and len(mx) == 1 and my[0][1] == 1 and mx[0][1] == 1:
            iy, ix = A.info[my[0][0]], A.info[mx[0][0]]
            if iy[0] == 'sin' and ix[0] == 'cos' and iy[1] == ix[1]:
                lo, hi = interval(iy[1])
                if lo > -math.pi and hi <= math.pi:
                    return iy[1]
    return patom(A.get('atan2', y, x))


# ---------------------------------------------------------------- numeric value
def neval(p, val, memo):
    k = id(p)
    if k in memo:
        return memo[k][0]
    s = 0.0
    for m, c in p.t.items():
        v = float(c)
        for i, e in m:
            v *= natom(i, val, memo) ** e
        s += v
    memo[k] = (s, p)
    return s


def natom(i, val, memo):
    if i in val:
        return val[i]
    info = A.info[i]
    k = info[0]
    if k == 'pi':
        return math.pi
    a = [neval(x, val, memo) if isinstance(x, Poly) else x for x in info[1:]]
    if k == 'sin':
        r = math.sin(a[0])
    elif k == 'cos':
        r = math.cos(a[0])
    elif k == 'sqrt':
        if a[0] < 0:
            if a[0] > -1e-9:
                a[0] = 0.0
            else:
                raise ValueError('sqrt<0')
        r = math.sqrt(a[0])
    elif k == 'acos':
        r = math.acos(a[0])
    elif k == 'asin':
        r = math.asin(a[0])
    elif k == 'atan2':
        r = math.atan2(a[0], a[1])
    elif k == 'frac':
        r = a[0] - math.floor(a[0])
    elif k == 'P':
        r = a[0]
    elif k == 'in':
        raise KeyError(i)
    elif k == 'fn' and a[0] in NUMFN:
        r = NUMFN[a[0]](*a[1:])
    else:
        raise ValueError(k)
    val[i] = r
    return r


# ---- poses (laws/posefn.cpp): Rz(yaw) Ry(pitch) Rx(roll) and a translation
def _rot(r):
    (sa, ca), (sb, cb), (sc, cc) = [(math.sin(x), math.cos(x)) for x in r]
    return [[cc * cb, cc * sb * sa - sc * ca, cc * sb * ca + sc * sa],
            [sc * cb, sc * sb * sa + cc * ca, sc * sb * ca - cc * sa],
            [-sb, cb * sa, cb * ca]]


def _angles(m):
    b = math.atan2(-m[2][0], math.hypot(m[0][0], m[1][0]))
    c = math.atan2(m[1][0], m[0][0])
    return [math.atan2(math.sin(c) * m[0][2] - math.cos(c) * m[1][2], math.cos(c) * m[1][1] - math.sin(c) * m[0][1]), b, c]


def _tr(m):
    return [list(x) for x in zip(*m)]


def _small(f):
    def g(i, *a):
        r = f(a)[int(i)]
        return 0.0 if abs(r) < 1e-12 else r
    return g


def _mv(m, v):
    return [sum(x * y for x, y in zip(l, v)) for l in m]


NUMFN = {
    # the digits lost are drawn large, so that a witness shows them beyond the
    # tolerance of numeric evaluation
    'digits': lambda x, p: x if float('%.*g' % (int(p), x)) == x else x * 1.001,
    'exp': math.exp, 'log': math.log, 'log2': math.log2, 'log10': math.log10, 'tan': math.tan, 'sinh': math.sinh, 'cosh': math.cosh, 'tanh': math.tanh,
    'cbrt': lambda x: math.copysign(abs(x) ** (1. / 3), x), 'pow': lambda x, y: math.pow(x, y), 'fmod': math.fmod, 'hypot': math.hypot,
    'idiv': lambda x, y: float(int(round(x) / round(y))), 'irem': lambda x, y: math.fmod(round(x), round(y)),
    'ashr': lambda x, y: float(math.floor(round(x) / round(y))),
    'rotated': _small(lambda a: _mv(_rot(a[:3]), a[3:])),
    'rotated_back': _small(lambda a: _mv(_tr(_rot(a[:3])), a[3:])),
    'rpy_inverse': _small(lambda a: _angles(_tr(_rot(a)))),
    'rpy_product': _small(lambda a: _angles(_tr([_mv(_rot(a[:3]), c) for c in _tr(_rot(a[3:]))]))),
}


def _inverse_of(r):
    """q when r is the angles of the inverse of the rotation of angles q"""
    q = None
    for i, p in enumerate(r):
        if len(p.t) != 1:
            return None
        (m, c), = p.t.items()
        if c != 1 or len(m) != 1 or m[0][1] != 1 or A.info[m[0][0]][:3] != ('fn', 'rpy_inverse', i):
            return None
        x = A.info[m[0][0]][3:]
        if q is not None and x != q:
            return None
        q = x
    return q


def rotated(i, r, x):
    if not any(p.t for p in x):
        return ZERO
    if not any(p.t for p in r):
        return x[i]
    q = _inverse_of(r)
    if q is not None:
        return patom(A.get('fn', 'rotated_back', i, *q, *x))
    return patom(A.get('fn', 'rotated', i, *r, *x))


def rotated_back(i, r, x):
    if not any(p.t for p in x):
        return ZERO
    q = _inverse_of(r)
    if q is not None:
        return patom(A.get('fn', 'rotated', i, *q, *x))
    return patom(A.get('fn', 'rotated_back', i, *r, *x))


def posefn(name, i, a):
    x, r = tuple(a[:3]), tuple(a[3:6])
    nor = not any(p.t for p in r)
    if name == 'pose_inverse':
        if nor:
            return -x[i] if i < 3 else ZERO
        if i < 3:
            return -rotated_back(i, r, x)
        return patom(A.get('fn', 'rpy_inverse', i - 3, *r))
    y, s = tuple(a[6:9]), tuple(a[9:12])
    nos = not any(p.t for p in s)
    if i < 3:
        return padd(x[i], rotated(i, r, y))
    if nor or nos:
        return s[i - 3] if nor else r[i - 3]
    if _inverse_of(r) == s or _inverse_of(s) == r:
        return ZERO
    return patom(A.get('fn', 'rpy_product', i - 3, *r, *s))


# ---------------------------------------------------------------- diagrams
class Ptr:
    """address: object id + byte offset (Poly)"""
    __slots__ = ('obj', 'off', 'k', '_h')

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off
        # the offset as an integer, None when it is not constant
        self.k = (int(off.const()) if off.t else 0) if off.is_const() else None
        self._h = hash((obj, off))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj == o.obj and self.off == o.off

    def __repr__(self):
        return '&%s+%s' % (self.obj, self.off)


class Tag:
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


UNDEF = Tag('undef')


class Bytes:
    """raw bytes of several cells, moved around as one integer"""
    __slots__ = ('cells',)

    def __init__(self, cells):
        self.cells = tuple(cells)      # (rel, size, DD)

    def __hash__(self):
        return hash(self.cells)

    def __eq__(self, o):
        return isinstance(o, Bytes) and self.cells == o.cells


class DD:
    __slots__ = ('var', 'ch', 'val', 'id')

    def __repr__(self):
        return dstr(self)


class _DDS:
    def __init__(self):
        self.reset()

    def reset(self):
        self.leafs = {}
        self.nodes = {}
        self.n = 0
        self.memo = {}
        self.varinfo = {}
        self.polyorder = {}
        self.limit = 400000
        self.nonzero = set()   # sign variables assumed not to be 0 in the whole law


DDS = _DDS()


def leaf(v):
    k = v
    d = DDS.leafs.get((type(v), k))
    if d is None:
        d = DD()
        d.var = None
        d.ch = None
        d.val = v
        d.id = DDS.n
        DDS.n += 1
        DDS.leafs[(type(v), k)] = d
    return d


def mk(var, ch):
    if DDS.varinfo[var][0] == 'sgn':
        lo, eq, hi = ch
        p = var[0]
        # thresholds of one polynomial are adjacent and ascending
        while lo.var is not None and lo.var[0] == p:
            lo = lo.ch[0]
        while eq.var is not None and eq.var[0] == p:
            eq = eq.ch[0]
        ch = (lo, lo if var in DDS.nonzero else eq, hi)
    f = ch[0]
    if all(c is f for c in ch):
        return f
    k = (var, tuple(c.id for c in ch))
    d = DDS.nodes.get(k)
    if d is None:
        d = DD()
        d.var = var
        d.ch = tuple(ch)
        d.val = None
        d.id = DDS.n
        DDS.n += 1
        if DDS.n > DDS.limit:
            raise TooBig('decision diagram nodes')
        DDS.nodes[k] = d
    return d


def T():
    return leaf(True)


def Fa():
    return leaf(False)


def apply(name, fn, *args):
    """pointwise application; fn maps leaf values to a DD or a leaf value.
    name must identify fn for memoisation"""
    memo = DDS.memo
    n = len(args)
    if n == 2:
        a, b = args
        k = (name, a.id, b.id)
    elif n == 1:
        a = b = args[0]
        k = (name, a.id)
    else:
        k = None
    if k is not None:
        r = memo.get(k)
        if r is not None:
            return r
        if a.var is None and b.var is None:
            r = fn(a.val, b.val) if n == 2 else fn(a.val)
            if not isinstance(r, DD):
                r = leaf(r)
            memo[k] = r
            return r

    def rec(a):
        k = (name,) + tuple([x.id for x in a])
        r = memo.get(k)
        if r is not None:
            return r
        v = None
        for x in a:
            if x.var is not None and (v is None or x.var < v):
                v = x.var
        if v is None:
            r = fn(*[x.val for x in a])
            if not isinstance(r, DD):
                r = leaf(r)
        else:
            n = 3 if DDS.varinfo[v][0] == 'sgn' else 2
            ch = []
            for j in range(n):
                ch.append(rec(tuple(cof(x, v, j) for x in a)))
            r = mkg(v, ch)
        memo[k] = r
        if len(memo) > 3000000:
            raise TooBig('memo')
        return r
    return rec(args)


def cof(x, v, j):
    """cofactor of x on variable v taking value j"""
    if x.var is None:
        return x
    if x.var == v:
        x = x.ch[j]
        # implied thresholds
        if DDS.varinfo[v][0] == 'sgn' and j < 2:
            while x.var is not None and x.var[0] == v[0]:
                x = x.ch[0]
        return x
    if DDS.varinfo[v][0] == 'sgn' and j < 2:
        while x.var is not None and x.var[0] == v[0] and x.var > v:
            x = x.ch[0]
    return x


def mkg(v, ch):
    """node whose children may contain variables above v (from case splitting
    inside fn): rebuild by ite when needed"""
    if all(c.var is None or c.var > v for c in ch):
        return mk(v, ch)
    # general: combine with ite on fresh node
    n = len(ch)
    sel = [mk(v, tuple(T() if i == j else Fa() for i in range(n))) for j in range(n)]
    r = ch[-1]
    for j in range(n - 2, -1, -1):
        r = ite(sel[j], ch[j], r)
    return r


def ite(c, a, b):
    if c.var is None:
        return a if c.val else b
    if a is b:
        return a
    memo = DDS.memo

    def rec(c, a, b):
        if c.var is None:
            return a if c.val is True else b
        if a is b:
            return a
        k = ('ite', c.id, a.id, b.id)
        r = memo.get(k)
        if r is not None:
            return r
        v = c.var
        for x in (a, b):
            if x.var is not None and x.var < v:
                v = x.var
        n = 3 if DDS.varinfo[v][0] == 'sgn' else 2
        r = mk(v, tuple(rec(cof(c, v, j), cof(a, v, j), cof(b, v, j)) for j in range(n)))
        memo[k] = r
        return r
    return rec(c, a, b)


def dnot(a):
    return ite(a, Fa(), T())


def dand(a, b):
    return ite(a, b, Fa())


def dor(a, b):
    return ite(a, T(), b)


def dxor(a, b):
    return ite(a, dnot(b), b)


# variables are tuples (order index, threshold float, uid)
def _polyvar(q, thr):
    """q: nonconstant normalised poly, thr: Poly constant part"""
    o = DDS.polyorder.get(q)
    if o is None:
        o = len(DDS.polyorder)
        DDS.polyorder[q] = o
    t = neval(thr, {}, {}) if thr.t else 0.0
    v = (o, t)
    if v not in DDS.varinfo:
        DDS.varinfo[v] = ('sgn', q, thr)
    return v


def boolvar(*key):
    k = ('bool',) + key
    o = DDS.polyorder.get(k)
    if o is None:
        o = len(DDS.polyorder)
        DDS.polyorder[k] = o
    v = (o, 0.0)
    if v not in DDS.varinfo:
        DDS.varinfo[v] = ('bool', key)
    return mk(v, (Fa(), T()))


def _is_constatom(i):
    k = A.info[i]
    return k[0] == 'pi' or (k[0] == 'sqrt' and k[1].is_const())


def _split_const(p):
    c = {}
    r = {}
    for m, v in p.t.items():
        if all(_is_constatom(i) for i, _ in m):
            c[m] = v
        else:
            r[m] = v
    return Poly(c), Poly(r)


def sign3(p, res):
    """DD choosing res[0|1|2] by the sign of polynomial p"""
    if p.t and all(m and m[0][0] == PI and m[0][1] > 0 for m in p.t):
        return sign3(pmul(p, patom(PI, -1)), res)
    c, r = _split_const(p)
    if not r.t:
        x = neval(c, {}, {}) if c.t else 0.0
        return res[0] if x < 0 else res[1] if x == 0 else res[2]
    if NN and len(p.t) < 400:
        if p in NN:
            res = (res[1], res[1], res[2])
        elif -p in NN:
            res = (res[0], res[1], res[1])
    if any(e < 0 for m in r.t for _, e in m):
        cm = common_mono(p)
        # sign(p) = sign(p * m^2): clear even, keep odd positive powers
        mul = {}
        for m in p.t:
            for i, e in m:
                if e < 0:
                    mul[i] = max(mul.get(i, 0), (-e + 1) // 2 * 2)
        try:
            q = p
            for i, e in mul.items():
                b = A.info[i][1] if A.info[i][0] == 'P' else patom(i)
                lo, hi = atom_bounds(i)
                n = e
                if lo >= 0:
                    n = max(-dict(m).get(i, 0) for m in q.t)
                    q = pmul(q, ppow(patom(i), n)) if A.info[i][0] != 'P' else clear1(q, i, n)
                elif A.info[i][0] == 'P':
                    q = clear1(q, i, n)
                else:
                    q = pmul(q, patom(i, n))
            for i in mul:
                if A.info[i][0] != 'P':
                    continue
                base = A.info[i][1]
                known = [x for x in (base, -base) if x in NN or interval(x)[0] >= 0]
                if known:
                    while q.t:
                        d = divexact(q, known[0])
                        if d is None:
                            break
                        q = d
            if q != p and len(q.t) < 400 and not any(e < 0 for m in q.t for _, e in m):
                p = q
                c, r = _split_const(p)
                if not r.t:
                    return sign3(p, res)
        except TooBig:
            pass
    # sign of a common monomial factor times the sign of the rest
    if not c.t:
        cm = common_mono(r)
        pos = []
        for i, e in cm:
            lo, hi = atom_bounds(i)
            if lo > 0:
                pos.append((i, e))
        if pos:
            r = pmul(r, Poly({minv(tuple(pos)): F1}))
            return sign3(r, res)
        ev = tuple((i, e) for i, e in cm if e > 0)
        if ev and len(r.t) > 1:
            rest = pmul(r, Poly({minv(ev): F1}))
            neg = sign3(rest, (res[2], res[1], res[0]))
            posd = sign3(rest, res)
            return sel3(mono_sign(ev), (neg, res[1], posd))
    if len(r.t) == 1 and not c.t:
        (mm, cc), = r.t.items()
        if len(mm) == 1 and mm[0][1] == 1 and A.info[mm[0][0]][0] == 'sqrt':
            z, d = (res[1], res[2]) if cc > 0 else (res[1], res[0])
            return sign3(A.info[mm[0][0]][1], (z, z, d))
    k, q = content(r)
    thr = pscale(c, -1 / k)
    if k < 0:
        res = (res[2], res[1], res[0])
    lo, hi = interval(q)
    # factor single even monomials: sign(x^2)
    t = neval(thr, {}, {}) if thr.t else 0.0
    if thr.t and len(q.t) == 1 and thr.is_const():
        (mm, cc), = q.t.items()
        if cc == 1 and len(mm) == 1 and mm[0][1] == 1 and A.info[mm[0][0]][0] == 'sqrt':
            if t < 0:
                return res[2]
            return sign3(psub(A.info[mm[0][0]][1], pconst(thr.const() ** 2)), res)
    lo0, hi0 = lo, hi
    if t < lo0:
        return res[2]
    if t > hi0:
        return res[0]
    if t == lo0 and _open_at(q, False):
        return res[2]
    if t == hi0 and _open_at(q, True):
        return res[0]
    if not thr.t and len(q.t) == 1:
        (m, cc), = q.t.items()
        # sign of monomial = product of signs
        if len(m) > 1 or m[0][1] != 1:
            neg = mono_sign(m)
            return apply('s3sel', None, neg) if False else sel3(neg, res)
    if not thr.t and lo >= 0:
        sq = perfect_square(q)
        if sq is not None and sq.t:
            return sign3(sq, (res[2], res[1], res[2]))
    v = _polyvar(q, thr)
    a, b, d = res
    if t == lo0:
        a = b
    if t == hi0:
        d = b
    return mkg(v, (a, b, d))


def clear1(q, i, n):
    base = A.info[i][1]
    r = ZERO
    pw = [ONE]
    for _ in range(n):
        pw.append(pmul(pw[-1], base))
    groups = {}
    for m, c in q.t.items():
        d = dict(m)
        e = d.pop(i, 0)
        groups.setdefault(e, {})[tuple(sorted(d.items()))] = c
    for e, t in groups.items():
        r = padd(r, pmul(Poly(t), pw[n + e]))
    return r


def mono_sign(m):
    """DD with leaves -1/0/1 (as Poly consts) for the sign of a monomial"""
    N, Z, P_ = leaf(pconst(-1)), leaf(ZERO), leaf(ONE)
    r = P_
    for i, e in m:
        b = patom(i)
        lo, hi = atom_bounds(i)
        if e % 2 == 0:
            s = P_ if (lo > 0 or hi < 0 or e < 0) else sign_atom(b, P_, Z, P_)
        else:
            s = sign_atom(b, N, Z, P_)
        r = apply('smul', lambda x, y: pmul(x, y), r, s)
    return r


def sign_atom(b, N, Z, P_):
    (m, c), = b.t.items()
    lo, hi = atom_bounds(m[0][0])
    if lo > 0:
        return P_
    if hi < 0:
        return N
    if A.info[m[0][0]][0] == 'sqrt':
        # sign(sqrt p) = [p != 0]
        return sign3(A.info[m[0][0]][1], (Z, Z, P_))
    v = _polyvar(b, ZERO)
    a, z, d = N, Z, P_
    if lo == 0:
        a = z
    if hi == 0:
        d = z
    return mk(v, (a, z, d))


def sel3(s, res):
    def rec(d):
        if d.var is None:
            c = d.val.const() if d.val.t else 0
            return res[0] if c < 0 else res[1] if c == 0 else res[2]
        return mkg(d.var, [rec(x) for x in d.ch])
    return rec(s)


def paths(d, limit=20000):
    """yield (list of (var, branch)), leaf)"""
    out = []

    def rec(d, acc):
        if d.var is None:
            out.append((list(acc), d.val))
            if len(out) > limit:
                raise TooBig('paths')
            return
        # merge identical children for shorter guards
        seen = {}
        for j, c in enumerate(d.ch):
            seen.setdefault(c.id, []).append(j)
        for cid, js in seen.items():
            acc.append((d.var, tuple(js)))
            rec(d.ch[js[0]], acc)
            acc.pop()
    rec(d, [])
    return out


def gstr(g):
    out = []
    for v, js in g:
        info = DDS.varinfo[v]
        if info[0] == 'sgn':
            op = {(0,): '<', (1,): '==', (2,): '>', (0, 1): '<=', (1, 2): '>=', (0, 2): '!='}[tuple(js)]
            out.append('%s %s %s' % (pstr(info[1], 6), op, pstr(info[2])))
        else:
            k = info[1]
            out.append(('' if 1 in js else '!') + '/'.join(str(x) for x in k))
    return ' && '.join(out) if out else 'always'


def dstr(d, lim=6):
    try:
        ps = paths(d, 200)
    except TooBig:
        return '<diagram>'
    if len(ps) == 1:
        return str(ps[0][1])
    return '{' + '; '.join('%s -> %s' % (gstr(g), v) for g, v in ps[:lim]) + ('; ...' if len(ps) > lim else '') + '}'
