"""Forward value-graph dataflow over the LLVM IR of one law function.

Every SSA value is mapped to an abstract value of algebra.py.  Control-flow
joins build decision-diagram nodes (gated SSA), so every path of the function
is covered by a single pass over the flow graph; loops whose exit tests fold to
constants are traversed completely.  Nothing is executed and no solver is used.
"""
import heapq
import math
import re
from fractions import Fraction
import algebra as al
import sqf
from algebra import (DDS, DD, leaf, mk, apply, ite, dand, dor, dnot, T, Fa, Poly, ZERO, ONE, pconst, padd, psub,
                     pmul, pdiv, patom, Ptr, UNDEF, Bytes, TooBig, fpconst, sign3)


class Unsupported(Exception):
    pass


class Loop:
    def __init__(self, header):
        self.header = header
        self.blocks = set()
        self.latches = set()
        self.parent = None


def cfg_info(f):
    if hasattr(f, '_cfg'):
        return f._cfg
    succ = {b: f.blocks[b].succs() for b in f.order}
    # reachable
    entry = f.order[0]
    seen = set()
    st = [entry]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(succ[x])
    pred = {b: [] for b in seen}
    for b in seen:
        for s in succ[b]:
            pred[s].append(b)
    # rpo
    order = []
    vis = set()
    stack = [(entry, iter(succ[entry]))]
    vis.add(entry)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in vis:
                vis.add(s)
                stack.append((s, iter(succ[s])))
                break
        else:
            order.append(b)
            stack.pop()
    order.reverse()
    num = {b: i for i, b in enumerate(order)}
    # dominators
    idom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            new = None
            for p in pred[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        a, c = new, p
                        while a != c:
                            while num[a] > num[c]:
                                a = idom[a]
                            while num[c] > num[a]:
                                c = idom[c]
                        new = a
            if idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while num[b] > num[a]:
            b = idom[b]
        return a == b
    loops = {}
    for b in order:
        for s in succ[b]:
            if num[s] <= num[b]:
                if not dom(s, b):
                    raise Unsupported('irreducible control flow')
                lp = loops.setdefault(s, Loop(s))
                lp.latches.add(b)
                lp.blocks.add(s)
                st = [b]
                while st:
                    x = st.pop()
                    if x in lp.blocks:
                        continue
                    lp.blocks.add(x)
                    st.extend(pred[x])
    inner = {}
    for b in order:
        best = None
        for lp in loops.values():
            if b in lp.blocks and (best is None or len(lp.blocks) < len(best.blocks)):
                best = lp
        inner[b] = best
    for lp in loops.values():
        best = None
        for o in loops.values():
            if o is not lp and lp.header in o.blocks and lp.blocks < o.blocks and \
                    (best is None or len(o.blocks) < len(best.blocks)):
                best = o
        lp.parent = best

    chains = {}

    def chain(b):
        r = chains.get(b)
        if r is None:
            c = []
            lp = inner[b]
            while lp:
                c.append(lp)
                lp = lp.parent
            r = chains[b] = c[::-1]
        return r
    # loop-contiguous topological numbering
    pos = {}

    def number(level_blocks, header, loop):
        """topological order of blocks of `loop` (None=function) with inner loops collapsed"""
        def rep(b):
            c = chain(b)
            if loop is None:
                return c[0].header if c else b
            i = c.index(loop)
            return c[i + 1].header if i + 1 < len(c) else b
        nodes = {}
        for b in level_blocks:
            nodes.setdefault(rep(b), []).append(b)
        ed = {r: set() for r in nodes}
        indeg = {r: 0 for r in nodes}
        for b in level_blocks:
            for s in succ[b]:
                if s not in level_set(level_blocks) or s == header and loop is not None:
                    continue
                rb, rs = rep(b), rep(s)
                if rb != rs and rs not in ed[rb]:
                    ed[rb].add(rs)
                    indeg[rs] += 1
        q = [(num[r], r) for r in nodes if indeg[r] == 0]
        heapq.heapify(q)
        i = 0
        while q:
            _, r = heapq.heappop(q)
            pos[(loop.header if loop else None, r)] = i
            i += 1
            for s in ed[r]:
                indeg[s] -= 1
                if indeg[s] == 0:
                    heapq.heappush(q, (num[s], s))
            if len(nodes[r]) > 1 or (inner[r] is not loop):
                lp = loops[r]
                number(nodes[r], r, lp)
    _ls = {}

    def level_set(lb):
        k = id(lb)
        if k not in _ls:
            _ls[k] = (set(lb), lb)
        return _ls[k][0]
    number([b for b in order], entry, None)
    f._cfg = (succ, pred, inner, chain, pos, loops)
    f._prio0 = {}
    f._edges = {}
    return f._cfg


def prio(f, b, iters):
    pos, loops = f._cfg[4:]
    if not iters:
        r = f._prio0.get(b)
        if r is None:
            r = f._prio0[b] = (pos[(None, b)],)
        return r
    c = f._cfg[3](b)
    out = []
    par = None
    for lp, it in zip(c, iters):
        out.append(pos[(par, lp.header)])
        out.append(it)
        par = lp.header
    out.append(pos[(par, b)])
    return tuple(out)


MATH1 = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sqrt', 'fabs', 'floor', 'ceil', 'exp', 'log', 'round', 'rint',
         'trunc', 'nearbyint', 'cbrt', 'log10', 'log2', 'exp2', 'sinh', 'cosh', 'tanh'}
MATH2 = {'atan2', 'fmod', 'pow', 'hypot', 'fmin', 'fmax', 'copysign', 'minnum', 'maxnum', 'remainder'}


class Result:
    def __init__(self):
        self.sinks = []        # (tag, kind, args DDs, pc, dbg)
        self.throws = []       # (pc, type, dbg)
        self.aborts = []
        self.may_abort = False
        self.check_domain = False
        self.expect_throw = []
        self.notes = []
        self.insts = 0
        self.domain = []       # (op, DD, pc, dbg)
        self.unknown_calls = {}
        self.events = []
        self.assumed = []      # conditions that hold throughout (nonzero numbers)
        self.flaws = {}        # (what, dbg) -> condition, [dbg of the site, dbg of the calls around it]


class Evaluator:
    MAXITER = 80
    MAXSTEPS = 400000

    def __init__(self, module):
        self.m = module
        self.res = Result()
        self.nobj = 0
        self.obj = {}         # id -> dict(kind, ...)
        self.steps = 0
        self.throwmem = []
        self.frame = []
        self.typeids = {}
        self.depth = 0
        self.hooks = {}
        self.prune = True
        self.maxdepth = 40
        self.shape = False    # documents and containers of named shapes: concrete text, tokens, static initialisers
        self.picks = []       # [(tag, n, choice)] in order of first use
        self.preset = []
        self.toks = []        # numbers written to text
        self.tokidx = {}
        self.fns = set()
        self.chars = 0
        self.cconst = {}      # constants already built
        self.goff = {}
        self.gmemo = {}
        self.freed = set()
        self.calls = []       # call sites of the functions being followed
        self.at = None

    # ------------------------------------------------------------ values
    def new_obj(self, kind, **kw):
        i = '%s%d' % (kind, self.nobj)
        self.nobj += 1
        kw['kind'] = kind
        self.obj[i] = kw
        return i

    def ptr(self, obj, off=ZERO):
        return leaf(Ptr(obj, off))

    def const(self, ty, v, env):
        k = v[0]
        if k == 'loc':
            r = env.get(v[1])
            if r is None:
                raise Unsupported('use of undefined ' + v[1])
            return r
        ck = (id(v), id(ty))
        r = self.cconst.get(ck)
        if r is None:
            r = self.const1(ty, v, env)
            if k != 'agg' and k != 'splat':
                self.cconst[ck] = r, v, ty
            return r
        return r[0]

    def const1(self, ty, v, env):
        k = v[0]
        if k == 'glob':
            return self.ptr(('g', v[1]))
        if k == 'int':
            if ty == ('int', 1):
                return leaf(bool(v[1]))
            return leaf(pconst(v[1]))
        if k == 'fp':
            return leaf(fpconst(v[1]))
        if k == 'null':
            return self.ptr('null')
        if k == 'zero':
            return self.zero(ty)
        if k == 'undef':
            return self.undef(ty)
        if k == 'agg':
            return [self.const(t, x, env) for t, x in v[1]]
        if k == 'splat':
            return [self.const(v[2], v[1], env)] * ty[1]
        if k == 'cgep':
            return self.gep(v[1], [(t, self.const(t, x, env)) for t, x in v[2]])
        if k == 'ccast':
            return self.const(v[2], v[3], env)
        if k == 'meta':
            return leaf(UNDEF)
        if k == 'opaque':
            return leaf(patom(al.A.get('in', 'constexpr', str(v[1]))))
        raise Unsupported('constant %r' % (v,))

    def zero(self, ty):
        ty = self.m.types.resolve(ty)
        if ty == ('int', 1):
            return leaf(False)
        if ty[0] in ('int', 'float', 'double', 'x86_fp80'):
            return leaf(ZERO)
        if ty[0] == 'ptr':
            return self.ptr('null')
        if ty[0] in ('array', 'vec'):
            return [self.zero(ty[2])] * ty[1]
        if ty[0] == 'struct':
            return [self.zero(t) for t in ty[1]]
        raise Unsupported('zero %r' % (ty,))

    def undef(self, ty):
        ty = self.m.types.resolve(ty)
        if ty[0] in ('array', 'vec'):
            return [self.undef(ty[2])] * ty[1]
        if ty[0] == 'struct':
            return [self.undef(t) for t in ty[1]]
        return leaf(UNDEF)

    def num(self, d):
        """view booleans as 0/1"""
        return apply('b2n', _b2n, d)

    def gep(self, bt, ops):
        base = ops[0][1]
        try:
            k = (id(bt),) + tuple([idx.id for _, idx in ops])
        except AttributeError:
            raise Unsupported('vector gep')
        r = self.gmemo.get(k)
        if r is None:
            r = self.gmemo[k] = self.gep1(bt, base, ops), bt
        return r[0]

    def gep1(self, bt, base, ops):
        off = leaf(ZERO)
        t = bt
        first = True
        if all(type(idx) is not list and idx.var is None and type(idx.val) is Poly and idx.val.is_const() for _, idx in ops[1:]):
            n = self.gepoff(bt, tuple([idx.val.const() for _, idx in ops[1:]]))
            return apply('padd', _padd, base, leaf(pconst(n)))
        for ty, idx in ops[1:]:
            if isinstance(idx, list):
                raise Unsupported('vector gep')
            if first:
                sz = self.m.types.size(bt)
                off = apply('add', _add, off, apply(('mulc', sz), lambda x, s=sz: _mulc(x, s), idx))
                first = False
                continue
            rt = self.m.types.resolve(t)
            if rt[0] == 'struct':
                if idx.var is not None:
                    raise Unsupported('struct index')
                i = int(idx.val.const()) if idx.val.t else 0
                o = self.m.types.layout(rt)[0][i]
                off = apply('add', _add, off, leaf(pconst(o)))
                t = rt[1][i]
            elif rt[0] in ('array', 'vec'):
                sz = self.m.types.size(rt[2])
                off = apply('add', _add, off, apply(('mulc', sz), lambda x, s=sz: _mulc(x, s), idx))
                t = rt[2]
            else:
                raise Unsupported('gep into %r' % (rt,))
        return apply('padd', _padd, base, off)

    def gepoff(self, bt, idx):
        """offset of constant indices"""
        k = (id(bt), idx)
        r = self.goff.get(k)
        if r is not None:
            return r[0]
        t = self.m.types.resolve(bt)
        n = self.m.types.size(bt) * idx[0]
        for i in idx[1:]:
            if t[0] == 'struct':
                n += self.m.types.layout(t)[0][int(i)]
                t = self.m.types.resolve(t[1][int(i)])
            elif t[0] in ('array', 'vec'):
                n += self.m.types.size(t[2]) * i
                t = self.m.types.resolve(t[2])
            else:
                raise Unsupported('gep into %r' % (t,))
        self.goff[k] = n, bt
        return n

    # ------------------------------------------------------------ memory
    def load_cell(self, mem, obj, off, ty):
        """value of type ty at constant offset"""
        rt = self.m.types.resolve(ty)
        if rt[0] in ('struct', 'array', 'vec'):
            if rt[0] == 'struct':
                offs = self.m.types.layout(rt)[0]
                return [self.load_cell(mem, obj, off + o, t) for o, t in zip(offs, rt[1])]
            sz = self.m.types.size(rt[2])
            return [self.load_cell(mem, obj, off + i * sz, rt[2]) for i in range(rt[1])]
        size = self.m.types.size(rt)
        cells = mem.get(obj)
        if cells is None:
            cells = self.initial(mem, obj)
        c = cells.get(off)
        if c is not None and c[0] == size:
            return self.retype(c[1], rt)
        # composite
        parts = []
        covered = 0
        for o, (s, v) in cells.items():
            if o < off + size and o + s > off:
                if o < off or o + s > off + size:
                    # partial overlap: bytes of a wider cell
                    return self.slice(v, off - o, size, rt, s)
                parts.append((o - off, s, v))
                covered += s
        if parts:
            if covered < size:
                have = sorted(parts)
                pos = 0
                for o, s, v in have:
                    if o > pos:
                        parts.append((pos, o - pos, self.fresh(mem, obj, off + pos, o - pos)))
                    pos = o + s
                if pos < size:
                    parts.append((pos, size - pos, self.fresh(mem, obj, off + pos, size - pos)))
            parts.sort(key=lambda x: x[0])
            allc = [(o, s, v) for o, s, v in parts]
            if all(v.var is None and isinstance(v.val, Poly) and not v.val.t for _, _, v in allc):
                return self.zero(rt)
            if self.shape:
                return apply(('cat', tuple((o, s) for o, s, _ in allc), rt),
                             lambda *vs: self.concat([(o, s, x) for (o, s, _), x in zip(allc, vs)], rt), *[v for _, _, v in allc])
            return leaf(Bytes([(o, s, v) for o, s, v in allc]))
        return self.fresh(mem, obj, off, size, rt)

    def concat(self, cells, rt):
        if all(isinstance(x, (Poly, bool)) and (isinstance(x, bool) or x.is_const() and x.const().denominator == 1)
               for _, _, x in cells):
            n = 0
            for o, s, x in cells:
                k = int(x) if isinstance(x, bool) else int(x.const()) if x.t else 0
                n |= (k & ((1 << (8 * s)) - 1)) << (8 * o)
            return self.frombits(n, rt).val
        if all(x is UNDEF for _, _, x in cells):
            return UNDEF
        return Bytes([(o, s, leaf(x)) for o, s, x in cells])

    def slice(self, v, rel, size, rt, whole):
        if v.var is None and isinstance(v.val, Poly):
            if not v.val.t:
                return self.zero(rt)
            if v.val.is_const() and v.val.const().denominator == 1 and rt[0] in ('int', 'float', 'double'):
                n = int(v.val.const()) & ((1 << (8 * whole)) - 1)
                b = n.to_bytes(whole, 'little')[rel:rel + size]
                return self.frombits(int.from_bytes(b, 'little'), rt)
        if v.var is None and isinstance(v.val, Bytes):
            for o, s, x in v.val.cells:
                if o == rel and s == size:
                    return self.retype(x, rt)
            sub = [(o - rel, s, x) for o, s, x in v.val.cells if o >= rel and o + s <= rel + size]
            if sub and sum(s for _, s, _ in sub) == size:
                return leaf(Bytes(sub))
        if v.var is None and v.val is UNDEF:
            return self.undef(rt)
        if self.shape and v.var is not None:
            return apply(('slice', rel, size, rt, whole), lambda x: self.slice(leaf(x), rel, size, rt, whole), v)
        return leaf(patom(al.A.get('fn', 'slice', v.id, rel, size)))

    def frombits(self, n, rt):
        import struct
        if rt[0] == 'int':
            if rt[1] == 1:
                return leaf(bool(n & 1))
            if n >> (rt[1] - 1) & 1:
                n -= 1 << rt[1]
            return leaf(pconst(n))
        if rt[0] == 'float':
            return leaf(fpconst(struct.unpack('<f', n.to_bytes(4, 'little'))[0]))
        if rt[0] == 'double':
            return leaf(fpconst(struct.unpack('<d', n.to_bytes(8, 'little'))[0]))
        if rt[0] == 'ptr' and n == 0:
            return self.ptr('null')
        return leaf(patom(al.A.get('fn', 'bits', n)))

    def fresh(self, mem, obj, off, size, rt=None):
        ver = mem.get(('ver', obj), 0)
        info = self.obj.get(obj) if not isinstance(obj, tuple) else {'kind': 'global'}
        k = info['kind'] if info else 'obj'
        if k in ('alloca', 'heap') and not ver:
            return leaf(UNDEF)
        if rt is not None and rt[0] == 'ptr':
            # pointer stored in opaque memory: a distinct opaque object
            o = ('o', obj, off if not ver else '%s@%d' % (off, ver))
            return self.ptr(o)
        a = al.A.get('in', 'mem:%s+%d%s' % (objname(obj), off, '@%d' % ver if ver else ''), size)
        if rt == ('int', 1):
            return al.boolvar('mem', objname(obj), off, ver)
        if rt is not None and rt[0] == 'int' and False:
            al.BOUNDS[a] = (0, math.inf)
        return leaf(patom(a))

    def retype(self, v, rt):
        if isinstance(v, list):
            return v
        if rt == ('int', 1):
            return apply('tobool', _tobool, v)
        if v.var is None:
            x = v.val
            if rt[0] == 'ptr' and isinstance(x, Poly) and not x.t:
                return self.ptr('null')
            if isinstance(x, Bytes) and rt[0] != 'int':
                if len(x.cells) == 1:
                    return self.retype(x.cells[0][2], rt)
        return v

    def initial(self, mem, obj):
        cells = {}
        if isinstance(obj, tuple) and obj[0] == 'g':
            g = self.m.global_init(obj[1])
            if g and g['init'] is not None and (g['const'] or self.shape and obj[1][1:].strip('"').startswith(('_ZGV', '_ZL', '_ZZ'))):
                self.fill(cells, 0, g['ty'], g['init'])
        mem[obj] = cells
        return cells

    def fill(self, cells, off, ty, init):
        rt = self.m.types.resolve(ty)
        if init[0] == 'cstr':
            from irparse import unescape
            s = init[1]
            b = unescape(s[s.index('"') + 1:-1])
            for i, c in enumerate(b):
                cells[off + i] = (1, leaf(pconst(c)))
            return
        if rt[0] == 'struct':
            offs = self.m.types.layout(rt)[0]
            subs = init[1] if init[0] == 'agg' else [(t, init) for t in rt[1]]
            for o, (t, x) in zip(offs, subs):
                self.fill(cells, off + o, t, x)
            return
        if rt[0] in ('array', 'vec'):
            if rt[1] > 5000:
                return
            sz = self.m.types.size(rt[2])
            subs = init[1] if init[0] == 'agg' else [(rt[2], init)] * rt[1]
            for i, (t, x) in enumerate(subs):
                self.fill(cells, off + i * sz, t, x)
            return
        cells[off] = (self.m.types.size(rt), self.const(rt, init, {}))

    def store_cell(self, mem, obj, off, size, val):
        cells = mem.get(obj)
        if cells is None:
            cells = self.initial(mem, obj)
        cells = dict(cells)
        for o in list(cells):
            s, v = cells[o]
            if o < off + size and o + s > off and not (o == off and s == size):
                if o >= off and o + s <= off + size:
                    del cells[o]
                else:
                    # split wider cell
                    del cells[o]
                    lo = off - o
                    hi = o + s - (off + size)
                    if lo > 0:
                        self._put(cells, o, lo, self.slice(v, 0, lo, ('int', lo * 8), s))
                    if hi > 0:
                        self._put(cells, off + size, hi, self.slice(v, s - hi, hi, ('int', hi * 8), s))
        self._put(cells, off, size, val)
        mem[obj] = cells

    def _put(self, cells, off, size, val):
        if val.var is None and isinstance(val.val, Bytes):
            for o, s, v in val.val.cells:
                self._put(cells, off + o, s, v)
        else:
            cells[off] = (size, val)

    def store_val(self, mem, obj, off, ty, val):
        rt = self.m.types.resolve(ty)
        if rt[0] == 'struct':
            for o, t, v in zip(self.m.types.layout(rt)[0], rt[1], val):
                self.store_val(mem, obj, off + o, t, v)
            return
        if rt[0] in ('array', 'vec'):
            sz = self.m.types.size(rt[2])
            for i, v in enumerate(val):
                self.store_val(mem, obj, off + i * sz, rt[2], v)
            return
        self.store_cell(mem, obj, off, self.m.types.size(rt), val)

    def ptr_leaves(self, p, pc):
        """[(guard DD, Ptr)] for the leaves of a pointer diagram compatible with pc"""
        if p.var is None:
            return [(T(), p.val)]
        leaves = {}
        g = apply('and', _and, pc, T())

        def collect(d, seen):
            if d.id in seen:
                return
            seen.add(d.id)
            if d.var is None:
                leaves[d.val] = None
            else:
                for c in d.ch:
                    collect(c, seen)
        restr = ite(pc, p, leaf(UNDEF))
        collect(restr, set())
        out = []
        for v in leaves:
            if v is UNDEF:
                continue
            guard = apply(('is', v), lambda x, v=v: x == v, p)
            out.append((guard, v))
        return out

    def flaw(self, what, pc):
        """memory is misused when pc holds"""
        if (what, self.at) not in self.res.flaws and len(self.res.flaws) < 50:
            self.res.flaws[what, self.at] = pc, [self.at] + self.calls[::-1]

    def access(self, mem, p, size, pc, verb):
        v = p.val
        if v is UNDEF:
            return self.flaw('%s through a pointer that was never set' % verb, pc)
        if type(v) is not Ptr:
            return
        if v.obj == 'null':
            return self.flaw('%s through a null pointer' % verb, pc)
        info = self.obj.get(v.obj) if type(v.obj) is str else None
        if info is None or info['kind'] not in ('heap', 'alloca'):
            return
        if v.obj in self.freed and v.obj not in mem:
            return self.flaw('%s memory that was released' % verb, pc)
        n = info.get('bytes')
        if n is None:
            n = -1
            if info['kind'] == 'alloca':
                if info.get('ty') is not None:
                    n = self.m.types.size(info['ty'])
            elif info['size'].var is None and isinstance(info['size'].val, Poly) and info['size'].val.is_const():
                n = int(info['size'].val.const()) if info['size'].val.t else 0
            info['bytes'] = n
        if n >= 0 and v.off.is_const():
            o = int(v.off.const()) if v.off.t else 0
            if o < 0 or o + size > n:
                self.flaw('%s outside of an object (at %d of %d bytes)' % (verb, o, n), pc)

    def undecidable(self, c, pc):
        if c.var is not None and all(x.var is None for x in c.ch) and 'undef' in str(al.DDS.varinfo.get(c.var, '')):
            self.flaw('a decision depends on a value that was never set', pc)

    def load(self, mem, p, ty, pc):
        if p.var is None and type(p.val) is Ptr and p.val.k is not None:
            cells = mem.get(p.val.obj)
            if cells is not None:
                c = cells.get(p.val.k)
                if c is not None and ty[0] in ('int', 'ptr', 'double', 'float') and c[0] == self.m.types.size(ty):
                    return self.retype(c[1], ty)
        if p.var is None:
            self.access(mem, p, self.m.types.size(ty), pc, 'reads')
        ls = self.ptr_leaves(p, pc)
        if not ls:
            return self.undef(ty)
        r = None
        for g, v in ls:
            x = self.load1(mem, v, ty)
            r = x if r is None else self.vite(g, x, r)
        return r

    def load1(self, mem, v, ty):
        if not isinstance(v, Ptr):
            if v is UNDEF:
                return self.undef(ty)
            raise Unsupported('load through %r' % (v,))
        if v.obj == 'null':
            return self.undef(ty)
        if not v.off.is_const():
            size = self.m.types.size(ty)
            rt = self.m.types.resolve(ty)
            # symbolic index into an object: usable only when nothing was stored there
            cells = mem.get(v.obj)
            if cells:
                r = self.sym_load(mem, v, rt, cells)
                if r is not None:
                    return r
            if rt[0] in ('vec', 'array', 'struct'):
                raise Unsupported('aggregate load at symbolic offset')
            if rt[0] == 'ptr':
                return self.ptr(('o', v.obj, v.off))
            return leaf(patom(al.A.get('fn', 'at:' + objname(v.obj) + ':%d' % mem.get(('ver', v.obj), 0), v.off, size)))
        off = int(v.off.const()) if v.off.t else 0
        return self.load_cell(mem, v.obj, off, ty)

    def sym_load(self, mem, v, rt, cells):
        if isinstance(v.obj, tuple) and v.obj[0] == 'g':
            g = self.m.global_init(v.obj[1])
            if g and g['const']:
                size = self.m.types.size(rt)
                # constant table: opaque but determined by contents
                return leaf(patom(al.A.get('fn', 'table:' + repr([(o, repr(c[1])) for o, c in sorted(cells.items())][:64]),
                                           v.off, size)))
        raise Unsupported('load at symbolic offset of %s' % objname(v.obj))

    def vite(self, g, a, b):
        if a is b:
            return a
        if isinstance(a, list) or isinstance(b, list):
            if not isinstance(a, list):
                a = [a] * len(b)
            if not isinstance(b, list):
                b = [b] * len(a)
            return [self.vite(g, x, y) for x, y in zip(a, b)]
        return ite(g, a, b)

    def store(self, mem, p, ty, val, pc):
        if p.var is None and type(p.val) is Ptr and p.val.k is not None and type(val) is not list:
            cells = mem.get(p.val.obj)
            if cells is not None:
                c = cells.get(p.val.k)
                if c is not None and c[0] == self.m.types.size(ty) and not (val.var is None and type(val.val) is Bytes):
                    cells = dict(cells)
                    cells[p.val.k] = (c[0], val)
                    mem[p.val.obj] = cells
                    return
        if p.var is None:
            self.access(mem, p, self.m.types.size(ty), pc, 'writes')
        ls = self.ptr_leaves(p, pc)
        for g, v in ls:
            if not isinstance(v, Ptr):
                if v is UNDEF:
                    continue
                raise Unsupported('store through %r' % (v,))
            if v.obj == 'null':
                continue
            if not v.off.is_const():
                self.sym_store(mem, v, ty, val, pc)
                continue
            off = int(v.off.const()) if v.off.t else 0
            if len(ls) > 1:
                old = self.load_cell(mem, v.obj, off, ty)
                nv = self.vite(g, val, old)
            else:
                nv = val
            self.store_val(mem, v.obj, off, ty, nv)

    def sym_store(self, mem, v, ty, val, pc):
        raise Unsupported('store at symbolic offset of %s' % objname(v.obj))

    def copy(self, mem, dst, src, n, pc):
        dl = self.ptr_leaves(dst, pc)
        sl = self.ptr_leaves(src, pc)
        if len(dl) != 1 or len(sl) != 1:
            if not self.shape or len(dl) * len(sl) > 64:
                raise Unsupported('memcpy through merged pointers')
            outs = []
            for g, d in dl:
                for h, q in sl:
                    c = dand(g, h)
                    if c.var is None and c.val is False:
                        continue
                    m = dict(mem)
                    self.copy(m, leaf(d), leaf(q), n, pc)
                    outs.append((c, m))
            m = self.merge_mem(outs)
            mem.clear()
            mem.update(m)
            return
        d, s = dl[0][1], sl[0][1]
        if not isinstance(d, Ptr) or not isinstance(s, Ptr):
            if n == 0:
                return
            raise Unsupported('memcpy operands')
        if n == 0 or d.obj == 'null' or s.obj == 'null':
            return
        if not d.off.is_const() or not s.off.is_const():
            raise Unsupported('memcpy at symbolic offset')
        do = int(d.off.const()) if d.off.t else 0
        so = int(s.off.const()) if s.off.t else 0
        cells = mem.get(s.obj)
        if cells is None:
            cells = self.initial(mem, s.obj)
        put = []
        pos = so
        inside = sorted((o, c) for o, c in cells.items() if o < so + n and o + c[0] > so)
        info = self.obj.get(s.obj) if not isinstance(s.obj, tuple) else None
        opaque = not (info and info['kind'] in ('alloca', 'heap')) or mem.get(('ver', s.obj), 0)
        for o, (sz, v) in inside:
            if o < so or o + sz > so + n:
                lo = max(o, so)
                hi = min(o + sz, so + n)
                put.append((lo - so, hi - lo, self.slice(v, lo - o, hi - lo, ('int', 8 * (hi - lo)), sz)))
            else:
                put.append((o - so, sz, v))
        if opaque:
            # uncovered bytes of opaque memory: keep as 4-byte words when aligned
            cov = sorted((o, s_) for o, s_, _ in put)
            pos = 0
            gaps = []
            for o, s_ in cov:
                if o > pos:
                    gaps.append((pos, o))
                pos = max(pos, o + s_)
            if pos < n:
                gaps.append((pos, n))
            for a, b in gaps:
                q = a
                while q < b:
                    w = 4 if b - q >= 4 and (so + q) % 4 == 0 else 1
                    put.append((q, w, self.fresh(mem, s.obj, so + q, w)))
                    q += w
        # clear destination then write
        dc = mem.get(d.obj)
        if dc is None:
            dc = self.initial(mem, d.obj)
        dc = dict(dc)
        mem[d.obj] = dc
        for o in list(dc):
            sz, v = dc[o]
            if o < do + n and o + sz > do:
                if o >= do and o + sz <= do + n:
                    del dc[o]
                else:
                    self.store_cell(mem, d.obj, max(o, do), min(o + sz, do + n) - max(o, do), leaf(UNDEF))
                    dc = mem[d.obj]
        for o, sz, v in put:
            self.store_cell(mem, d.obj, do + o, sz, v)

    def merge_mem(self, edges):
        """edges: [(cond, mem)]"""
        if len(edges) == 1:
            return dict(edges[0][1])
        base = edges[-1][1]
        out = {}
        keys = set()
        for _, m in edges:
            keys.update(m)
        for k in keys:
            vals = [m.get(k) for _, m in edges]
            v0 = vals[0]
            if all(v is v0 for v in vals):
                out[k] = v0
                continue
            if isinstance(k, tuple) and k[0] == 'ver':
                out[k] = max(v or 0 for v in vals)
                if any((v or 0) != out[k] for v in vals):
                    out[k] += 1
                continue
            cellsl = []
            for (c, m), v in zip(edges, vals):
                if v is None:
                    v = self.initial({}, k)
                cellsl.append(v)
            offs = set()
            for c in cellsl:
                offs.update(c)
            res = {}
            # make cell boundaries agree
            for o in sorted(offs):
                sizes = {c[o][0] for c in cellsl if o in c}
                if len(sizes) > 1:
                    sizes = {max(sizes)}
                size = sizes.pop()
                r = None
                same = None
                for (cond, m), c in zip(reversed(edges), reversed(cellsl)):
                    if o in c and c[o][0] == size:
                        x = c[o][1]
                    else:
                        x = self.load_cell({k: c, ('ver', k): m.get(('ver', k), 0)}, k, o, ('int', size * 8))
                    r = x if r is None else ite(cond, x, r)
                res[o] = (size, r)
            # drop cells overlapped by wider ones
            last = -1
            final = {}
            for o in sorted(res):
                if o < last:
                    continue
                final[o] = res[o]
                last = o + res[o][0]
            out[k] = final
        return out

    # ------------------------------------------------------------ running
    def run(self, fname, args=None, mem=None, pc=None):
        f = self.m.function(fname)
        if f is None:
            raise Unsupported('no function ' + fname)
        args = args or []
        mem = mem if mem is not None else {}
        pc = pc if pc is not None else T()
        self.depth += 1
        outer, self.frame = self.frame, []
        self.fns.add(fname)
        if self.depth > self.maxdepth:
            raise Unsupported('recursion depth')
        succ, pred, inner, chain, pos, loops = cfg_info(f)
        ecache = f._edges
        env0 = {}
        for (t, nm), v in zip(f.params, args):
            env0[nm] = v
        inc = {}
        heap = []

        def push(b, iters, edge):
            k = (b, iters)
            if k not in inc:
                inc[k] = []
                heapq.heappush(heap, (prio(f, b, iters), b, iters))
            inc[k].append(edge)
        e = f.order[0]
        push(e, tuple(0 for _ in chain(e)), (pc, env0, mem, None))
        rets = []
        while heap:
            _, b, iters = heapq.heappop(heap)
            edges = inc.pop((b, iters))
            cond = edges[0][0]
            for x in edges[1:]:
                cond = dor(cond, x[0])
            if cond.var is None and cond.val is False:
                continue
            if len(edges) == 1:
                # every edge owns its environment and its memory
                env, m = edges[0][1], edges[0][2]
            else:
                env = dict(edges[0][1])
                exc = env.get('$exc')
                for x in edges[1:]:
                    env.update(x[1])
                    if '$exc' in x[1]:
                        exc = x[1]['$exc'] if exc is None else self.vite(x[0], x[1]['$exc'], exc)
                if exc is not None:
                    env['$exc'] = exc
                m = self.merge_mem([(x[0], x[2]) for x in edges])
            blk = f.blocks[b]
            phis = []
            i = 0
            insts = blk.insts
            while insts[i].op == 'phi':
                ins = insts[i]
                d = {lab: v for v, lab in ins.x}
                r = None
                for c, ev, _, frm in reversed(edges):
                    x = self.const(ins.ty, d[frm], ev)
                    r = x if r is None else self.vite(c, x, r)
                phis.append((ins.res, r))
                i += 1
            for nm, v in phis:
                env[nm] = v
            outs = self.block(f, blk, i, env, m, cond, rets)
            # outs: [(cond, target)] or, for exceptions, [(cond, target, memory, type)]
            outs = [out for out in outs if not (out[0].var is None and out[0].val is False)]
            own = max([k for k, out in enumerate(outs) if len(out) == 2], default=-1)
            for k, out in enumerate(outs):
                c, tgt = out[:2]
                ek = (b, tgt)
                e = ecache.get(ek)
                if e is None:
                    tc, bc = chain(tgt), chain(b)
                    lp = loops.get(tgt)
                    if lp is not None and b in lp.blocks:
                        e = True, tc.index(lp), None
                    else:
                        j = 0
                        while j < len(tc) and j < len(bc) and bc[j] is tc[j]:
                            j += 1
                        e = False, j, (0,) * (len(tc) - j)
                    ecache[ek] = e
                back, j, pad = e
                if back:
                    n = iters[j] + 1
                    if n > self.MAXITER:
                        raise Unsupported('loop without constant trip count (%s)' % self.locstr(blk.insts[-1].dbg))
                    nit = iters[:j] + (n,)
                elif j or pad:
                    nit = iters[:j] + pad
                else:
                    nit = ()
                if len(out) > 2:
                    e2 = dict(env)
                    e2['$exc'] = out[3]
                    push(tgt, nit, (c, e2, out[2], b))
                elif k == own:
                    push(tgt, nit, (c, env, m, b))
                else:
                    push(tgt, nit, (c, dict(env), dict(m), b))
        self.depth -= 1
        frame, self.frame = self.frame, outer
        if not rets:
            return None, None, Fa()
        pcs = rets[0][0]
        for c, _, _ in rets[1:]:
            pcs = dor(pcs, c)
        val = None
        for c, v, _ in reversed(rets):
            if v is None:
                continue
            val = v if val is None else self.vite(c, v, val)
        if self.depth:
            for _, _, mm in rets:
                for o in frame:     # the variables of this call are gone
                    mm.pop(o, None)
                    mm.pop(('ver', o), None)
        m = self.merge_mem([(c, mm) for c, _, mm in rets]) if len(rets) > 1 else rets[0][2]
        return val, m, pcs

    def locstr(self, dbg):
        ch = self.m.loc_chain(dbg) if dbg is not None else []
        for fn, fi, ln in ch:
            if fi and ('/repo/' in fi or '/almath/' in fi):
                return '%s:%d' % (fi, ln)
        return '%s:%d' % (ch[0][1], ch[0][2]) if ch else '?'

    def block(self, f, blk, i, env, mem, pc, rets):
        n = len(blk.insts)
        while i < n:
            ins = blk.insts[i]
            i += 1
            self.steps += 1
            if self.steps > self.MAXSTEPS:
                raise Unsupported('step limit')
            op = ins.op
            if op == 'ret':
                v = None
                if ins.args:
                    v = self.const(ins.args[0][0], ins.args[0][1], env)
                rets.append((pc, v, mem))
                return []
            if op == 'br':
                if len(ins.x) == 1:
                    return [(pc, ins.x[0])]
                c = self.const(ins.args[0][0], ins.args[0][1], env)
                c = apply('tobool', _tobool, c)
                if ins.x[0] == ins.x[1]:
                    return [(pc, ins.x[0])]
                if c.var is not None:
                    self.at = ins.dbg
                    self.undecidable(c, pc)
                return [(dand(pc, c), ins.x[0]), (dand(pc, dnot(c)), ins.x[1])]
            if op == 'switch':
                v = self.const(ins.args[0][0], ins.args[0][1], env)
                outs = []
                rest = pc
                by = {}
                for cv, lab in ins.x[1]:
                    g = apply(('eqc', cv), lambda x, cv=cv: _cmp('eq', x, pconst(cv)), v)
                    c = dand(rest, g)
                    rest = dand(rest, dnot(g))
                    by[lab] = dor(by[lab], c) if lab in by else c
                d = ins.x[0]
                by[d] = dor(by[d], rest) if d in by else rest
                return [(c, lab) for lab, c in by.items()]
            if op == 'unreachable':
                return []
            if op == 'resume':
                self.throw(pc, env.get('$exc', leaf('?')), ins.dbg, mem)
                return []
            if op in ('call', 'invoke'):
                nthrow = len(self.res.throws)
                self.at = ins.dbg
                self.calls.append(ins.dbg)
                r = self.call(ins, env, mem, pc)
                self.calls.pop()
                unwind = []
                if op == 'invoke' and len(self.res.throws) > nthrow:
                    # exceptions leaving the callee continue at the landing pad
                    new = list(zip(self.res.throws[nthrow:], self.throwmem[nthrow:]))
                    del self.res.throws[nthrow:], self.throwmem[nthrow:]
                    upc, exc, um = None, None, []
                    for (tpc, ti, _), (tm, te) in new:
                        upc = tpc if upc is None else dor(upc, tpc)
                        exc = te if exc is None else self.vite(tpc, te, exc)
                        um.append((tpc, tm))
                    um = self.merge_mem(um) if len(um) > 1 else um[0][1]
                    unwind = [(upc, ins.x['unwind'], um, exc)]
                if r == 'stop':
                    return unwind
                if isinstance(r, tuple) and len(r) == 2 and r[0] == 'pc':
                    val, pc = r[1]
                    if ins.res:
                        env[ins.res] = val
                    if pc.var is None and pc.val is False:
                        return unwind
                elif ins.res:
                    env[ins.res] = r
                if op == 'invoke':
                    return [(pc, ins.x['normal'])] + unwind
                continue
            v = self.inst(ins, env, mem, pc)
            if ins.res:
                env[ins.res] = v
        raise Unsupported('block without terminator')

    def lift(self, name, fn, *vals):
        if any(isinstance(v, list) for v in vals):
            n = max(len(v) for v in vals if isinstance(v, list))
            return [self.lift(name, fn, *[v[i] if isinstance(v, list) else v for v in vals]) for i in range(n)]
        return apply(name, fn, *vals)

    def inst(self, ins, env, mem, pc):
        op = ins.op
        if op == 'gep':
            c = self.const
            return self.gep(ins.x, [(t, c(t, v, env)) for t, v in ins.args])
        A = lambda k: self.const(ins.args[k][0], ins.args[k][1], env)
        if op == 'load':
            self.at = ins.dbg
            return self.load(mem, A(0), ins.ty, pc)
        if op == 'store':
            self.at = ins.dbg
            self.store(mem, A(1), ins.args[0][0], A(0), pc)
            return None
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a, b = A(0), A(1)
            if op == 'fdiv':
                self.res.domain.append(('div', b, pc, ins.dbg))
            return self.lift(op, _FOPS[op], a, b)
        if op == 'frem':
            return self.lift('fmod', lambda x, y: _fnn('fmod', x, y), A(0), A(1))
        if op == 'fneg':
            return self.lift('fneg', lambda x: -_n(x), A(0))
        if op in ('add', 'sub', 'mul'):
            if ins.ty == ('int', 1):
                return self.lift('xor1', lambda x, y: _b(x) != _b(y), A(0), A(1))
            return self.lift('i' + op, _IOPS[op], A(0), A(1))
        if op in ('sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            w = ins.ty[1] if ins.ty[0] == 'int' else (ins.ty[2][1] if ins.ty[0] == 'vec' else 64)
            if w == 1:
                if op == 'and':
                    return self.lift('andb', lambda x, y: _bb('and', x, y), A(0), A(1))
                if op == 'or':
                    return self.lift('orb', lambda x, y: _bb('or', x, y), A(0), A(1))
                if op == 'xor':
                    return self.lift('xorb', lambda x, y: _bb('xor', x, y), A(0), A(1))
            return self.lift((op, w), lambda x, y: self.intop(op, w, x, y), A(0), A(1))
        if op == 'icmp':
            return self.lift(('icmp', ins.x), lambda x, y: self.icmp(ins.x, x, y), A(0), A(1))
        if op == 'fcmp':
            p = ins.x
            if p in ('uno', 'ord'):
                return self.lift(('fcmpf', p), lambda x, y: leaf((_isnan(x) or _isnan(y)) == (p == 'uno')), A(0), A(1))
            if p in ('false', 'true'):
                a = A(0)
                return [leaf(p == 'true')] * len(a) if isinstance(a, list) else leaf(p == 'true')
            q = {'olt': 'lt', 'ult': 'lt', 'ole': 'le', 'ule': 'le', 'ogt': 'gt', 'ugt': 'gt', 'oge': 'ge',
                 'uge': 'ge', 'oeq': 'eq', 'ueq': 'eq', 'one': 'ne', 'une': 'ne'}[p]
            return self.lift(('fcmpf', p), lambda x, y: leaf(p[0] == 'u') if _isnan(x) or _isnan(y) else _cmp(q, x, y), A(0), A(1))
        if op == 'select':
            c, a, b = A(0), A(1), A(2)
            if isinstance(c, list):
                return [self.vite(apply('tobool', _tobool, x), y, z) for x, y, z in zip(c, a, b)]
            return self.vite(apply('tobool', _tobool, c), a, b)
        if op == 'freeze' and self.shape:
            v = A(0)
            if type(v) is not list and v.var is None and v.val is UNDEF and ins.ty[0] == 'int':
                return al.boolvar('frozen') if ins.ty[1] == 1 else leaf(patom(al.A.get('in', 'frozen', None)))
            return v
        if op in ('fptrunc', 'fpext', 'freeze'):
            return A(0)
        if op in ('sitofp', 'uitofp'):
            return self.lift('b2n', _b2n, A(0))
        if op in ('fptosi', 'fptoui'):
            return self.lift(op, _fptoi, A(0))
        if op in ('zext', 'sext'):
            a = A(0)
            src = ins.args[0][0]
            if src == ('int', 1) or (src[0] == 'vec' and src[2] == ('int', 1)):
                if op == 'sext':
                    return self.lift('b2m', lambda x: _b2m(x), a)
                return self.lift('b2n', _b2n, a)
            if op == 'zext':
                w = src[1] if src[0] == 'int' else src[2][1]
                return self.lift(('zext', w), lambda x: _zext(x, w), a)
            return a
        if op == 'trunc':
            a = A(0)
            w = ins.ty[1] if ins.ty[0] == 'int' else ins.ty[2][1]
            return self.lift(('trunc', w), lambda x: self.trunc(x, w), a)
        if op == 'bitcast':
            return self.bitcast(A(0), ins.args[0][0], ins.ty)
        if op in ('ptrtoint', 'inttoptr'):
            return A(0)
        if op == 'alloca':
            o = self.new_obj('alloca', ty=ins.x[0])
            self.frame.append(o)
            mem[o] = {}
            return self.ptr(o)
        if op == 'extractvalue':
            v = A(0)
            for k in ins.x:
                if not isinstance(v, list):
                    return leaf(UNDEF)
                v = v[k]
            return v
        if op == 'insertvalue':
            return self.insert(A(0), ins.x, A(1))
        if op == 'extractelement':
            v, k = A(0), A(1)
            if k.var is not None or not k.val.is_const():
                raise Unsupported('extractelement')
            return v[int(k.val.const()) if k.val.t else 0]
        if op == 'insertelement':
            v, x, k = list(A(0)), A(1), A(2)
            if k.var is not None or not k.val.is_const():
                raise Unsupported('insertelement')
            v[int(k.val.const()) if k.val.t else 0] = x
            return v
        if op == 'shufflevector':
            a, b = A(0), A(1)
            m = ins.args[2][1]
            c = list(a) + list(b)
            if m[0] == 'zero':
                idx = [0] * ins.ty[1]
            elif m[0] == 'agg':
                idx = [x[1] if x[0] == 'int' else None for _, x in m[1]]
            elif m[0] == 'splat':
                idx = [m[1][1]] * ins.ty[1]
            else:
                idx = [None] * ins.ty[1]
            return [c[k] if k is not None else leaf(UNDEF) for k in idx]
        if op == 'landingpad':
            exc = env.get('$exc', leaf('?'))
            if self.shape:
                mem[('$caught',)] = {0: (8, exc)}
            return [self.ptr('exc'), apply(('selector', tuple(ins.x)), lambda t: self.selector(t, ins.x), exc)]
        if op == 'nop':
            return None
        raise Unsupported('%s: %s' % (op, ins.text[:100] if ins.text else ''))

    # exception types: what a catch clause for a type accepts
    BASES = {'_ZTISt13runtime_error': '_ZTISt9exception', '_ZTISt11logic_error': '_ZTISt9exception',
             '_ZTISt16invalid_argument': '_ZTISt11logic_error', '_ZTISt12out_of_range': '_ZTISt11logic_error',
             '_ZTISt12length_error': '_ZTISt11logic_error', '_ZTISt12domain_error': '_ZTISt11logic_error',
             '_ZTISt9bad_alloc': '_ZTISt9exception', '_ZTISt11range_error': '_ZTISt13runtime_error',
             '_ZTISt14overflow_error': '_ZTISt13runtime_error'}

    def typeid(self, name):
        return pconst(1 + self.typeids.setdefault(name, len(self.typeids)))

    def selector(self, ti, clauses):
        if 'null' in clauses and clauses.index('null') == 0 + ('cleanup' in clauses):
            return self.typeid('null')
        if ti == '?':
            if [c for c in clauses if c != 'cleanup']:
                raise Unsupported('exception of unknown type')
            return ZERO
        for c in clauses:
            if c == 'cleanup':
                continue
            if c == 'null':
                return self.typeid('null')
            t = ti
            while t:
                if t == c.lstrip('@'):
                    return self.typeid(c.lstrip('@'))
                t = self.BASES.get(t)
        return ZERO

    def throw(self, pc, ti, dbg, mem):
        name = ti.val if ti.var is None else '?'
        self.res.throws.append((pc, name, dbg))
        self.throwmem.append((dict(mem), ti))

    def insert(self, agg, idx, v):
        if not isinstance(agg, list):
            raise Unsupported('insertvalue')
        a = list(agg)
        if len(idx) == 1:
            a[idx[0]] = v
        else:
            a[idx[0]] = self.insert(a[idx[0]], idx[1:], v)
        return a

    def trunc(self, x, w):
        if isinstance(x, Bytes):
            b = w // 8
            if b:
                for o, s, v in x.cells:
                    if o == 0 and s == b:
                        return v
                sub = [(o, s, v) for o, s, v in x.cells if o + s <= b]
                if sub and sum(s for _, s, _ in sub) == b:
                    return Bytes(sub)
        if isinstance(x, Poly) and x.is_const():
            n = int(x.const()) if x.t else 0
            n &= (1 << w) - 1
            if w == 1:
                return bool(n)
            if n >> (w - 1):
                n -= 1 << w
            return pconst(n)
        if w == 1:
            return _tobool(x)
        return x

    def bitcast(self, v, ft, tt):
        ft = self.m.types.resolve(ft)
        tt = self.m.types.resolve(tt)
        if ft == tt:
            return v
        mem = {}
        o = self.new_obj('alloca')
        mem[o] = {}
        self.store_val(mem, o, 0, ft, v)
        r = self.load_cell(mem, o, 0, tt)
        if not isinstance(r, list) and r.var is None and isinstance(r.val, Poly) and r.val.is_const() and r.val.t:
            # constant reinterpretation
            import struct
            c = r.val.const()
            if tt[0] in ('float', 'double') and ft[0] == 'int':
                return self.frombits(int(c) & ((1 << ft[1]) - 1), tt)
            if ft[0] in ('float', 'double') and tt[0] == 'int':
                return leaf(patom(al.A.get('fn', 'bitsof', r.val)))
        return r

    def intop(self, op, w, x, y):
        if isinstance(x, bool):
            x = pconst(int(x))
        if isinstance(y, bool):
            y = pconst(int(y))
        if x is UNDEF or y is UNDEF:
            return UNDEF
        if isinstance(x, Bytes) and isinstance(y, Poly) and y.is_const():
            k = int(y.const()) if y.t else 0
            if op == 'lshr' and k % 8 == 0:
                b = k // 8
                sub = [(o - b, s, v) for o, s, v in x.cells if o >= b]
                tot = max(o + s for o, s, v in x.cells)
                if sub and sum(s for _, s, _ in sub) == tot - b:
                    return Bytes(sub + ([(tot - b, b, leaf(ZERO))] if b else []))
            if op == 'shl' and k % 8 == 0:
                b = k // 8
                tot = w // 8
                sub = [(o + b, s, v) for o, s, v in x.cells if o + b + s <= tot]
                return Bytes([(0, b, leaf(ZERO))] + sub)
            if op == 'and':
                b = w // 8
                keep = []
                for o, s, v in x.cells:
                    mk_ = (k >> (8 * o)) & ((1 << (8 * s)) - 1)
                    if mk_ == (1 << (8 * s)) - 1:
                        keep.append((o, s, v))
                    elif mk_ == 0:
                        keep.append((o, s, leaf(ZERO)))
                    else:
                        raise Unsupported('byte mask')
                return Bytes(keep)
            if op == 'or' and k == 0:
                return x
        if op == 'or' and (isinstance(x, Bytes) or isinstance(y, Bytes)):
            def cells(z):
                if isinstance(z, Bytes):
                    return list(z.cells)
                return None
            cx, cy = cells(x), cells(y)
            if cx is None or cy is None:
                z, c = (x, cy) if cx is None else (y, cx)
                # zero-extended scalar in the low part
                nz = [(o, s, v) for o, s, v in c if not (v.var is None and isinstance(v.val, Poly) and not v.val.t)]
                lo = min(o for o, s, v in nz) if nz else 0
                if lo:
                    return Bytes([(0, lo, leaf(z))] + nz)
                raise Unsupported('byte merge')
            out = {}
            for o, s, v in cx + cy:
                z = v.var is None and isinstance(v.val, Poly) and not v.val.t
                if z:
                    continue
                out[o] = (s, v)
            cells_ = [(o, s, v) for o, (s, v) in sorted(out.items())]
            pos = 0
            fin = []
            for o, s, v in cells_:
                if o > pos:
                    fin.append((pos, o - pos, leaf(ZERO)))
                fin.append((o, s, v))
                pos = o + s
            if pos < w // 8:
                fin.append((pos, w // 8 - pos, leaf(ZERO)))
            return Bytes(fin)
        if not isinstance(x, Poly) or not isinstance(y, Poly):
            if op in ('and',) and isinstance(x, Ptr):
                return patom(al.A.get('fn', 'ptrbits', repr(x), y))
            return patom(al.A.get('fn', op, repr(x), repr(y)))
        if x.is_const() and y.is_const():
            a = int(x.const()) if x.t else 0
            b = int(y.const()) if y.t else 0
            M = (1 << w) - 1
            sg = lambda v: v - (1 << w) if v >> (w - 1) & 1 else v
            try:
                if op == 'sdiv':
                    q = abs(a) // abs(b)
                    r = q if (a < 0) == (b < 0) else -q
                elif op == 'udiv':
                    r = (a & M) // (b & M)
                elif op == 'srem':
                    r = abs(a) % abs(b)
                    r = -r if a < 0 else r
                elif op == 'urem':
                    r = (a & M) % (b & M)
                elif op == 'shl':
                    r = sg((a << b) & M)
                elif op == 'lshr':
                    r = sg((a & M) >> b)
                elif op == 'ashr':
                    r = a >> b
                elif op == 'and':
                    r = sg((a & M) & (b & M))
                elif op == 'or':
                    r = sg((a & M) | (b & M))
                else:
                    r = sg((a & M) ^ (b & M))
                return pconst(r)
            except ZeroDivisionError:
                return UNDEF
        if y.is_const():
            k = int(y.const()) if y.t else 0
            if op in ('shl',):
                return al.pscale(x, 1 << k)
            if op in ('ashr', 'lshr') and _divisible(x, 1 << k):
                return al.pscale(x, Fraction(1, 1 << k))
            if op in ('sdiv', 'udiv') and k and _divisible(x, k):
                return al.pscale(x, Fraction(1, k))
            if op in ('or', 'xor') and k == 0:
                return x
            if op == 'and' and k == 0:
                return ZERO
            if op == 'and' and (k == -1 or k == (1 << w) - 1):
                return x
            if op == 'xor' and k == -1:
                return psub(pconst(-1), x)
            if op == 'or' and _divisible(x, 1 << k.bit_length()) and k > 0:
                return padd(x, y)
        if op in ('ashr', 'lshr'):
            # x >> k == floor(x / 2^k), which is x / 2^k in the language if x >= 0
            if y.is_const():
                k = int(y.const()) if y.t else 0
                return patom(al.A.get('fn', 'idiv' if op == 'lshr' or al.interval(x)[0] >= 0 else 'ashr', x, pconst(1 << k)))
        if op in ('sdiv', 'udiv'):
            return patom(al.A.get('fn', 'idiv', x, y))
        if op in ('srem', 'urem'):
            if y.is_const() and y.t:  # x == y * (x / y) + x % y
                return psub(x, al.pscale(patom(al.A.get('fn', 'idiv', x, y)), y.const()))
            return patom(al.A.get('fn', 'irem', x, y))
        if op in ('and', 'or', 'xor'):
            if x.key() > y.key() if _cmpkey(x, y) else False:
                x, y = y, x
        return patom(al.A.get('fn', op, x, y))

    def icmp(self, pred, x, y):
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if isinstance(x, Poly) and not x.t:
                x = Ptr('null', ZERO)
            if isinstance(y, Poly) and not y.t:
                y = Ptr('null', ZERO)
            if isinstance(x, Ptr) and isinstance(y, Ptr):
                if x.obj == y.obj:
                    q = {'eq': 'eq', 'ne': 'ne', 'ult': 'lt', 'ule': 'le', 'ugt': 'gt', 'uge': 'ge', 'slt': 'lt',
                         'sle': 'le', 'sgt': 'gt', 'sge': 'ge'}[pred]
                    return _cmp(q, x.off, y.off)
                if pred in ('eq', 'ne'):
                    eq = self.ptr_eq(x, y)
                    if eq is not None:
                        return eq if pred == 'eq' else dnot(eq if isinstance(eq, DD) else leaf(eq))
                elif self.shape and self.ptr_eq(x, y) is False:
                    # distinct objects: any fixed order of the addresses is possible
                    a, b = (objname(o) if isinstance(o, tuple) else '0%09d' % int(re.sub(r'\D', '', o) or 0) for o in (x.obj, y.obj))
                    if a != b:
                        return (a < b) if pred[1] == 'l' else (a > b)
            return al.boolvar('ptrcmp', pred, repr(x), repr(y))
        if x is UNDEF or y is UNDEF:
            return UNDEF
        if isinstance(x, bool) or isinstance(y, bool):
            x, y = _b2n(x), _b2n(y)
        q = {'eq': 'eq', 'ne': 'ne', 'ult': 'lt', 'ule': 'le', 'ugt': 'gt', 'uge': 'ge', 'slt': 'lt',
             'sle': 'le', 'sgt': 'gt', 'sge': 'ge'}[pred]
        if isinstance(x, Poly) and isinstance(y, Poly):
            if pred[0] == 'u' and x.is_const() and y.is_const():
                # signed representation: negative constants are the upper half
                return _cmp(q, _upper(x), _upper(y))
            if pred[0] == 'u' and x.is_const():
                return self.icmp({'ult': 'ugt', 'ule': 'uge', 'ugt': 'ult', 'uge': 'ule'}[pred], y, x)
            if pred[0] == 'u' and y.is_const() and not x.is_const():
                # unsigned compare of a non-negative quantity
                c = y.const() if y.t else 0
                if pred == 'ult' and c > (1 << 31):
                    return True
                if c < 0:
                    # a constant of the upper half: negative values are above all the others
                    neg = _cmp('lt', x, ZERO)
                    neg = neg if isinstance(neg, DD) else leaf(neg)
                    r = _cmp(q, x, y)
                    r = r if isinstance(r, DD) else leaf(r)
                    if pred in ('ult', 'ule'):
                        return dor(dnot(neg), r)
                    return dand(neg, r)
                if al.interval(x)[0] < 0 and pred in ('ult', 'ule') and c > 0:
                    # 0 <= x < c as one range test
                    r = _cmp(q, x, y)
                    lo = _cmp('ge', x, ZERO)
                    return dand(r if isinstance(r, DD) else leaf(r), lo if isinstance(lo, DD) else leaf(lo))
                if al.interval(x)[0] < 0 and pred in ('ugt', 'uge') and c >= 0:
                    r = _cmp(q, x, y)
                    lo = _cmp('lt', x, ZERO)
                    return dor(r if isinstance(r, DD) else leaf(r), lo if isinstance(lo, DD) else leaf(lo))
            return _cmp(q, x, y)
        return al.boolvar('cmp', pred, _vkey(x), _vkey(y))

    def ptr_eq(self, x, y):
        def local(o):
            return not isinstance(o, tuple) and o != 'null' and o in self.obj
        if x.obj == 'null' or y.obj == 'null':
            o = y.obj if x.obj == 'null' else x.obj
            if local(o) or (isinstance(o, tuple) and o[0] == 'g'):
                return False
            return None
        if local(x.obj) or local(y.obj):
            return False
        if isinstance(x.obj, tuple) and isinstance(y.obj, tuple) and x.obj[0] == y.obj[0] == 'g':
            return False
        return None

    # ------------------------------------------------------------ calls
    def cstr(self, v):
        if v.var is None and isinstance(v.val, Ptr) and isinstance(v.val.obj, tuple) and v.val.obj[0] == 'g':
            s = self.m.cstring(v.val.obj[1])
            if s is not None and v.val.off.is_const():
                return s[int(v.val.off.const()) if v.val.off.t else 0:]
        return None

    def call(self, ins, env, mem, pc):
        name = ins.x['callee']
        args = [self.const(t, v, env) for t, v in ins.args]
        if name[0] == '%':
            fp = env.get(name)
            ls = self.ptr_leaves(fp, pc) if fp is not None else []
            tg = [(g, v.obj[1]) for g, v in ls if isinstance(v, Ptr) and isinstance(v.obj, tuple) and v.obj[0] == 'g'
                  and not v.off.t]
            if len(tg) != len(ls) or not tg:
                return self.unknown(name, ins, args, mem, pc)
            if len(tg) == 1:
                return self.call_named(tg[0][1], ins, args, env, mem, pc)
            return self.dispatch(tg, ins, args, env, mem, pc)
        return self.call_named(name, ins, args, env, mem, pc)

    def dispatch(self, tg, ins, args, env, mem, pc):
        """call through a pointer with several targets: every one under its guard"""
        outs = []
        base = dict(mem)
        for g, name in tg:
            c = dand(pc, g)
            if c.var is None and c.val is False:
                continue
            m = dict(base)
            r = self.call_named(name, ins, args, env, m, c)
            if r == 'stop':
                continue
            if isinstance(r, tuple) and len(r) == 2 and r[0] == 'pc':
                v, c = r[1]
            else:
                v = r
            if c.var is None and c.val is False:
                continue
            outs.append((c, v, m))
        if not outs:
            return 'stop'
        val, tot = outs[-1][1], outs[-1][0]
        for c, v, _ in outs[-2::-1]:
            tot = dor(tot, c)
            if v is not None:
                val = self.vite(c, v, val)
        m = self.merge_mem([(c, mm) for c, _, mm in outs])
        mem.clear()
        mem.update(m)
        return ('pc', (val, tot))

    def call_named(self, name, ins, args, env, mem, pc):
        n = name[1:].strip('"')
        h = self.hooks.get(n)
        if h is not None:
            r = h(self, n, args, mem, pc, ins)
            if r is not NotImplemented:
                return r
        if n.startswith('llvm.eh.typeid.for'):
            return leaf(self.typeid(args[0].val.obj[1].strip('@"')))
        if n.startswith('llvm.'):
            return self.intrinsic(n, args, mem, pc, ins)
        if n.startswith('law_'):
            return self.lawcall(n, args, mem, pc, ins)
        base = n[:-1] if n.endswith('f') and n[:-1] in MATH1 | MATH2 else n
        if base in MATH1:
            return self.math1(base, args[0], pc, ins)
        if base in MATH2:
            return self.math2(base, args[0], args[1], pc, ins)
        if n in ('_Znwm', '_Znam', 'malloc'):
            o = self.new_obj('heap', size=args[0])
            mem[o] = {}
            return self.ptr(o)
        if n in ('_ZdlPv', '_ZdaPv', 'free', '_ZdlPvm', '_ZdaPvm'):
            p = args[0]
            if p.var is None and isinstance(p.val, Ptr) and self.obj.get(p.val.obj, {}).get('kind') == 'heap':
                if p.val.obj in self.freed and p.val.obj not in mem:
                    self.flaw('releases memory twice', pc)
                if pc.var is None:
                    self.freed.add(p.val.obj)
                mem.pop(p.val.obj, None)
                mem.pop(('ver', p.val.obj), None)
            return None
        if n == '__cxa_allocate_exception':
            o = self.new_obj('exc')
            return self.ptr(o)
        if n == '__cxa_throw':
            ti = '?'
            if args[1].var is None and isinstance(args[1].val, Ptr) and isinstance(args[1].val.obj, tuple):
                ti = args[1].val.obj[1].strip('@"')
            self.throw(pc, leaf(ti), ins.dbg, mem)
            return 'stop'
        if n in ('__assert_fail', 'abort', '_ZSt9terminatev', '__clang_call_terminate', 'exit'):
            self.res.aborts.append((pc, n, ins.dbg))
            return 'stop'
        if n == '_ZSt16__throw_bad_castv':
            return 'stop'       # std::endl on a stream without a locale facet
        if n.startswith('_ZSt') and 'throw' in n:
            self.throw(pc, leaf({'length': '_ZTISt12length_error', 'out_of': '_ZTISt12out_of_range'}.get(
                re.sub(r'^_ZSt\d+__throw_(.{6}).*$', r'\1', n), n)), ins.dbg, mem)
            return 'stop'
        if n in ('memcmp', 'bcmp', 'strlen', 'strcmp') or n == 'memchr' and self.shape:
            return self.memfn(n, args, mem, pc, ins)
        if n in ('__cxa_guard_acquire',):
            return leaf(ONE)
        if n == '__cxa_rethrow':
            self.throw(pc, mem.get(('$caught',), {}).get(0, (0, leaf('?')))[1], ins.dbg, mem)
            return 'stop'
        if self.shape and n == '__cxa_guard_release':
            self.store(mem, args[0], ('int', 8), leaf(ONE), pc)
            return None
        if n in ('__cxa_guard_release', '__cxa_atexit', '__cxa_begin_catch', '__cxa_end_catch', '__cxa_free_exception',
                 '__cxa_guard_abort'):
            return self.ptr('exc')
        f = self.m.function(name)
        if f is not None:
            v, m2, rpc = self.run(name, args, mem, pc)
            if m2 is None:
                return 'stop'
            if m2 is not mem:   # mem itself when a single path returns
                mem.clear()
                mem.update(m2)
            return ('pc', (v, rpc))
        return self.unknown(n, ins, args, mem, pc)

    def known_bytes(self, mem, p, n, pc):
        """the bytes at p when they are known constants"""
        ls = self.ptr_leaves(p, pc)
        if len(ls) != 1 or not isinstance(ls[0][1], Ptr) or not ls[0][1].off.is_const():
            return None
        o = ls[0][1].obj
        off = int(ls[0][1].off.const()) if ls[0][1].off.t else 0
        out = bytearray()
        for k in range(n):
            c = self.load_cell(mem, o, off + k, ('int', 8))
            if c.var is not None:
                c = ite(pc, c, leaf(UNDEF))
                vs = {v for g, v in al.paths(c) if v is not UNDEF}
                if len(vs) != 1:
                    return None
                c = leaf(vs.pop())
            if not isinstance(c.val, Poly) or not c.val.is_const():
                return None
            out.append(int(c.val.const()) & 255 if c.val.t else 0)
        return bytes(out)

    def known_int(self, v, pc):
        if v.var is not None:
            v = ite(pc, v, leaf(UNDEF))
            vs = {x for g, x in al.paths(v) if x is not UNDEF}
            if len(vs) != 1:
                return None
            v = leaf(vs.pop())
        if not isinstance(v.val, Poly) or not v.val.is_const():
            return None
        return int(v.val.const()) if v.val.t else 0

    def textfn(self, n, args, mem, pc):
        if n in ('memcmp', 'bcmp'):
            k = self.known_int(args[2], pc)
            if k is None:
                return None
            a, b = self.known_bytes(mem, args[0], k, pc), self.known_bytes(mem, args[1], k, pc)
            if a is None or b is None:
                return None
            return leaf(pconst((a > b) - (a < b)))
        if n in ('strlen', 'strcmp'):
            def cstr(p):
                out = b''
                while len(out) < 4000:
                    c = self.known_bytes(mem, apply('padd', _padd, p, leaf(pconst(len(out)))), 1, pc)
                    if c is None:
                        return None
                    if c == b'\0':
                        return out
                    out += c
                return None
            a = cstr(args[0])
            if n == 'strlen':
                return None if a is None else leaf(pconst(len(a)))
            b = cstr(args[1])
            return None if a is None or b is None else leaf(pconst((a > b) - (a < b)))
        if n == 'memchr':
            k = self.known_int(args[2], pc)
            c = self.known_int(args[1], pc)
            if k is None or c is None:
                return None
            a = self.known_bytes(mem, args[0], k, pc)
            if a is None:
                return None
            i = a.find(bytes([c & 255]))
            return self.ptr('null') if i < 0 else apply('padd', _padd, args[0], leaf(pconst(i)))

    def memfn(self, n, args, mem, pc, ins):
        if self.shape:
            r = self.textfn(n, args, mem, pc)
            if r is not None:
                return r
            raise Unsupported('%s of unknown text' % n)
        if n in ('strlen',):
            s = self.cstr(args[0])
            if s is not None:
                return leaf(pconst(len(s)))
        return self.unknown(n, ins, args, mem, pc)

    PUREUNK = ('_ZNSolsE', '_ZNSo', '_ZStls', '_ZSt4endl', '_ZNSt8ios_base', '_ZNKSt', '_ZSt16__ostream_insert',
               '_ZNSt13runtime_error', '_ZNSt16invalid_argument', '_ZNSt9exception', '_ZNSt11logic_error',
               '_ZNSt12out_of_range', '_ZNSt12domain_error')

    def unknown(self, n, ins, args, mem, pc):
        if self.shape and not re.search(r'D[012]Ev$', n):
            raise Unsupported('no model of ' + n)
        self.res.unknown_calls[n] = self.res.unknown_calls.get(n, 0) + 1
        stream = n.startswith(self.PUREUNK)
        if not stream:
            # unknown memory effects: forget escaped objects
            seen = set()

            def esc(d):
                if isinstance(d, list):
                    for x in d:
                        esc(x)
                    return
                if d.var is not None:
                    for c in d.ch:
                        esc(c)
                    return
                if isinstance(d.val, Ptr) and d.val.obj in mem and d.val.obj not in seen:
                    o = d.val.obj
                    if isinstance(o, tuple) and o[0] == 'g':
                        g = self.m.global_init(o[1])
                        if g and g['const']:
                            return
                    seen.add(o)
                    for s, v in list(mem[o].values()):
                        esc(v)
            for a in args:
                esc(a)
            self.steps += 0
            for o in seen:
                self.nobj += 1
                mem[o] = {}
                mem[('ver', o)] = self.nobj
        rt = ins.ty
        return self.opaque(rt, 'call:%s#%d' % (n, self.nobj))

    def opaque(self, rt, nm):
        if rt is None or rt[0] == 'void':
            return None
        rt = self.m.types.resolve(rt)
        if rt[0] == 'ptr':
            return self.ptr(('o', nm, 0))
        if rt[0] in ('struct',):
            return [self.opaque(t, nm + '.%d' % i) for i, t in enumerate(rt[1])]
        if rt[0] in ('vec', 'array'):
            return [self.opaque(rt[2], nm + '.%d' % i) for i in range(rt[1])]
        if rt == ('int', 1):
            return al.boolvar('opaque', nm)
        return leaf(patom(al.A.get('in', nm, None)))

    def intrinsic(self, n, args, mem, pc, ins):
        p = n.split('.')[1]
        if p in ('dbg', 'lifetime', 'experimental', 'assume', 'donothing', 'var', 'invariant', 'stacksave',
                 'stackrestore', 'prefetch'):
            if p == 'experimental' and 'noalias' not in n:
                raise Unsupported(n)
            return leaf(UNDEF)
        if p == 'expect':
            return args[0]
        if p in ('memcpy', 'memmove', 'memset'):
            ln = args[2]
            if ln.var is not None:
                ln = ite(pc, ln, leaf(UNDEF))
                vals = {v for g, v in al.paths(ln) if v is not UNDEF}
                if len(vals) == 1:
                    ln = leaf(vals.pop())
            if ln.var is not None or not isinstance(ln.val, Poly) or not ln.val.is_const():
                raise Unsupported(p + ' of symbolic length %s' % (str(ln)[:300] + self.locstr(ins.dbg)))
            k = int(ln.val.const()) if ln.val.t else 0
            if p == 'memset':
                v = args[1]
                if k == 0:
                    return None
                ls = self.ptr_leaves(args[0], pc)
                if len(ls) != 1 or not ls[0][1].off.is_const():
                    raise Unsupported('memset target')
                d = ls[0][1]
                off = int(d.off.const()) if d.off.t else 0
                b = int(v.val.const()) & 255 if v.val.t else 0
                for o, w in _chunks(off, k):
                    if b == 0:
                        x = leaf(ZERO)
                    else:
                        x = leaf(pconst(int.from_bytes(bytes([b]) * w, 'little', signed=True)))
                    self.store_cell(mem, d.obj, o, w, x)
                return None
            self.copy(mem, args[0], args[1], k, pc)
            return None
        if p in ('sqrt', 'fabs', 'floor', 'ceil', 'sin', 'cos', 'exp', 'log', 'round', 'rint', 'trunc', 'nearbyint', 'tan'):
            return self.math1(p, args[0], pc, ins)
        if p in ('minnum', 'maxnum', 'copysign', 'pow'):
            return self.math2(p, args[0], args[1], pc, ins)
        if p in ('fmuladd', 'fma'):
            return self.lift('fadd', _FOPS['fadd'], self.lift('fmul', _FOPS['fmul'], args[0], args[1]), args[2])
        if p in ('umin', 'umax', 'smin', 'smax'):
            pred = {'umin': 'lt', 'umax': 'gt', 'smin': 'lt', 'smax': 'gt'}[p]
            up = _upper if p[0] == 'u' else lambda v: v  # constants of the upper half
            c = self.lift(('fcmp', p), lambda x, y: _cmp(pred, up(x), up(y)), args[0], args[1])
            if isinstance(c, list):
                return [ite(x, a, b) for x, a, b in zip(c, args[0], args[1])]
            return ite(c, args[0], args[1])
        if p == 'abs':
            return self.lift('fabs', _fabs, args[0])
        if p in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul'):
            k = p[1:]
            if 'sat' in n and k == 'sub':
                up = _upper if p[0] == 'u' else lambda v: v
                c = self.lift(('fcmp', p[0] + 'gt'), lambda x, y: _cmp('gt', up(x), up(y)), args[0], args[1])
                return ite(c, self.lift('isub', _IOPS['sub'], args[0], args[1]), leaf(ZERO))
            return [self.lift('i' + k, _IOPS[k], args[0], args[1]), leaf(False)]
        if p == 'vector' and 'reduce' in n:
            k = n.split('.')[3]
            if k in ('fadd', 'fmul'):
                r = args[0]
                for x in args[1]:
                    r = self.lift(k, _FOPS[k], r, x)
                return r
            if k in ('and', 'or'):
                r = None
                for x in args[0]:
                    x = apply('tobool', _tobool, x)
                    r = x if r is None else (dand(r, x) if k == 'and' else dor(r, x))
                return r
            if k == 'add':
                r = leaf(ZERO)
                for x in args[0]:
                    r = self.lift('iadd', _IOPS['add'], r, x)
                return r
        if p == 'is' and 'fpclass' in n:
            return leaf(False)
        if p == 'eh':
            return leaf(ONE)
        if p == 'trap' or p == 'ubsantrap':
            return 'stop'
        if p in ('objectsize',):
            return leaf(pconst(-1))
        if p in ('ctlz', 'cttz'):
            k = self.known_int(args[0], pc)
            if k is None:
                raise Unsupported(n)
            w = int(n.rsplit('i', 1)[1])
            k &= (1 << w) - 1
            return leaf(pconst(w - k.bit_length() if p == 'ctlz' else ((k & -k).bit_length() - 1 if k else w)))
        if p == 'ctpop':
            return self.lift('ctpop', lambda x: pconst(bin(int(x.const())).count('1')) if x.is_const() else
                             patom(al.A.get('fn', 'ctpop', x)), args[0])
        if p == 'lround' or p == 'lrint':
            return self.lift('lround', lambda x: _fn1('round', x), args[0])
        raise Unsupported(n)

    def math1(self, f, a, pc, ins):
        if f in ('sqrt', 'acos', 'asin', 'log') and not isinstance(a, list):
            self.res.domain.append((f, a, pc, ins.dbg))
        return self.lift(f, lambda x: _fn1(f, x), a)

    def math2(self, f, a, b, pc, ins):
        if f in ('fmin', 'minnum', 'fmax', 'maxnum'):
            pred = 'lt' if f in ('fmin', 'minnum') else 'gt'
            c = self.lift(('fcmp', pred), lambda x, y: _cmp(pred, x, y), a, b)
            return self.vite(c, a, b)
        if f == 'pow' and b.var is None and isinstance(b.val, Poly) and b.val.is_const():
            c = b.val.const()
            if c.denominator == 1 and 0 <= c <= 8:
                n = int(c)
                return self.lift(('pow', n), lambda x: al.ppow(_n(x), n), a)
            if c == Fraction(1, 2):
                return self.lift('sqrt', lambda x: _fn1('sqrt', x), a)
        if f == 'hypot':
            return self.lift('hypot', lambda x, y: _fn1('sqrt', padd(pmul(x, x), pmul(y, y))), a, b)
        if f == 'copysign':
            return self.lift('copysign', lambda x, y: sign3(y, (apply('fneg', lambda z: -_n(z), _tod(_fabs(x))),
                                                               _tod(_fabs(x)), _tod(_fabs(x)))), a, b)
        if f == 'atan2':
            return self.lift('atan2', lambda y, x: al.f_atan2(_n(y), _n(x)), a, b)
        return self.lift(f, lambda x, y: _fnn(f, x, y), a, b)

    # ------------------------------------------------------------ law API
    def lawcall(self, n, args, mem, pc, ins):
        if n == 'law_quarter':
            k = args[0].val.const() if args[0].val.t else 0
            return leaf(al.pscale(patom(al.PI), Fraction(int(k), 2)))
        if n in ('law_in', 'law_pos', 'law_nonneg', 'law_range', 'law_ini', 'law_inl', 'law_inb', 'law_unit'):
            nm = self.cstr(args[0])
            idx = args[1].val.const() if args[1].val.t else 0
            if n == 'law_inb':
                return al.boolvar('in', nm, int(idx))
            a = al.A.get('in', nm, int(idx))
            if n in ('law_ini', 'law_inl'):
                al.INTS.add(a)
            if n == 'law_pos':
                al.BOUNDS[a] = (5e-324, math.inf)
            elif n == 'law_nonneg':
                al.BOUNDS[a] = (0.0, math.inf)
            elif n == 'law_unit':
                al.BOUNDS[a] = (-1.0, 1.0)
            elif n == 'law_range':
                lo = al.neval(args[2].val, {}, {})
                hi = al.neval(args[3].val, {}, {})
                # open interval
                al.BOUNDS[a] = (lo + abs(lo) * 1e-15 if lo else 5e-324, hi - abs(hi) * 1e-15 if hi else -5e-324)
            return leaf(patom(a))
        if n in ('law_eq', 'law_eqi', 'law_true', 'law_eqp', 'law_finite'):
            self.res.sinks.append((self.cstr(args[0]), n, args[1:], pc, ins.dbg, dict(mem) if n == 'law_eqp' else None))
            return None
        if n == 'law_assume':
            c = apply('tobool', _tobool, args[0])
            if self.shape and pc.var is None and pc.val is True and c.var is not None and al.DDS.varinfo[c.var][0] == 'sgn' and \
                    [x.val for x in c.ch] == [True, False, True]:
                # a condition of the whole law: case distinctions on it are not made at all
                self.res.assumed.append(c)
                al.DDS.nonzero.add(c.var)
                return None
            return ('pc', (None, dand(pc, c)))
        if n == 'law_throws_iff':
            self.res.expect_throw.append((self.cstr(args[0]), apply('tobool', _tobool, args[1]), pc, ins.dbg))
            return None
        if n == 'law_touch':
            return None
        if n == 'law_pick':
            t = self.cstr(args[0])
            k = self.known_int(args[1], pc)
            for tag, _, c in self.picks:
                if tag == t:
                    return leaf(pconst(c))
            c = self.preset[len(self.picks)] if len(self.picks) < len(self.preset) else 0
            self.picks.append((t, k, c))
            return leaf(pconst(c))
        if n == 'law_fn':
            nm, i = self.cstr(args[0]), self.known_int(args[1], pc)
            return apply((nm, i), lambda *x: al.posefn(nm, i, [_n(y) for y in x]), *args[2:])
        if n in ('law_dtok', 'law_itok'):
            v = args[0]
            if n == 'law_dtok':
                prec, fl = self.known_int(args[1], pc), self.known_int(args[2], pc)
                fl &= ~0xC00  # showpoint and showpos: reads the same
                if fl or prec is None:
                    v = apply(('fmt', prec, fl), lambda x: patom(al.A.get('fn', 'fmt%s' % fl, _n(x), pconst(prec or 0))), v)
                elif prec < 17:
                    v = apply(('digits', prec), lambda x: _digits(_n(x), prec), v)
            else:
                fl = self.known_int(args[1], pc)
                if fl:
                    v = apply(('fmt', fl), lambda x: patom(al.A.get('fn', 'ifmt', _n(x), pconst(fl))), v)
            if v.id not in self.tokidx:
                self.tokidx[v.id] = len(self.toks)
                self.toks.append(v)
            return leaf(pconst(self.tokidx[v.id]))
        if n == 'law_tokval':
            return self.toks[self.known_int(args[0], pc)]
        if n == 'law_scan':
            k = self.known_int(args[1], pc)
            kind = self.known_int(args[2], pc)
            b = self.known_bytes(mem, args[0], max(0, min(k, 64)), pc)
            if b is None:
                raise Unsupported('number in unknown text')
            m = re.match(rb'#([di])(\d+);', b)
            if m:
                if m.group(1) == b'd' and kind == 1:
                    v, used = leaf(ZERO), 0
                else:
                    v, used = self.toks[int(m.group(2))], m.end()
            else:
                m = re.match(rb'[+-]?\d+' if kind == 1 else rb'[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?', b)
                if m:
                    v, used = leaf(pconst(Fraction(m.group(0).decode()))), m.end()
                else:
                    v, used = leaf(ZERO), 0
            self.store(mem, args[3], ('double',), v, pc)
            return leaf(pconst(used))
        if n == 'law_text':
            # the text of a stream or string, as one constant
            return None
        if n == 'law_domain':
            self.res.check_domain = True
            return None
        if n == 'law_domain_div':
            self.res.check_domain = 'div'
            return None
        if n == 'law_may_abort':
            self.res.may_abort = True
            return None
        if n == 'law_opaque':
            # pointer to an opaque object named by the tag
            return self.ptr(('o', self.cstr(args[0]), int(args[1].val.const()) if args[1].val.t else 0))
        if n == 'law_event':
            self.res.events.append((self.cstr(args[0]), args[1:], pc, ins.dbg))
            return None
        raise Unsupported(n)


def _digits(x, prec):
    """x written with prec significant digits and read back"""
    if x.is_const():
        c = x.const() if x.t else Fraction(0)
        if Fraction('%.*g' % (prec, float(c))) == c:
            return x
    return patom(al.A.get('fn', 'digits', x, pconst(prec)))


def _tod(x):
    return x if isinstance(x, DD) else leaf(x)


def objname(o):
    if isinstance(o, tuple):
        if o[0] == 'g':
            return o[1]
        return '%s.%s' % (objname(o[1]), o[2])
    return str(o)


def _chunks(off, k):
    out = []
    o = off
    end = off + k
    while o < end:
        for w in (4, 2, 1):
            if o % w == 0 and o + w <= end:
                out.append((o, w))
                o += w
                break
    return out


def _n(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if x is UNDEF:
        return patom(al.A.get('in', 'undef', None))
    if isinstance(x, Ptr):
        if objname(x.obj) == 'null':
            return x.off
        return patom(al.A.get('fn', 'addr', objname(x.obj), x.off))
    if isinstance(x, Bytes):
        return patom(al.A.get('fn', 'bytes', repr([(o, s, v.id) for o, s, v in x.cells])))
    raise Unsupported('number from %r' % (x,))


def _vkey(x):
    if isinstance(x, Poly):
        return al.pstr(x)
    if isinstance(x, Bytes):
        return repr([(o, s, v.id) for o, s, v in x.cells])
    return repr(x)


def _b2n(x):
    if isinstance(x, bool):
        return ONE if x else ZERO
    return x


def _b2m(x):
    if isinstance(x, bool):
        return pconst(-1) if x else ZERO
    return x


def _b(x):
    return _tobool(x)


def _bb(op, x, y):
    x, y = _tobool(x), _tobool(y)
    if isinstance(x, DD) or isinstance(y, DD) or x is UNDEF or y is UNDEF:
        x = leaf(x) if not isinstance(x, DD) else x
        y = leaf(y) if not isinstance(y, DD) else y
        if x.val is UNDEF or y.val is UNDEF:
            return UNDEF
        return {'and': dand, 'or': dor, 'xor': al.dxor}[op](x, y)
    return {'and': x and y, 'or': x or y, 'xor': x != y}[op]


def _tobool(x):
    if isinstance(x, bool):
        return x
    if isinstance(x, Poly):
        if x.is_const():
            return bool(x.t)
        return sign3(x, (T(), Fa(), T()))
    if x is UNDEF:
        return al.boolvar('undef')
    if isinstance(x, Ptr):
        return x.obj != 'null'
    return al.boolvar('truth', _vkey(x))


def _zext(x, w):
    if isinstance(x, Poly) and x.is_const() and x.t and x.const() < 0:
        return pconst(int(x.const()) & ((1 << w) - 1))
    return x


def _mulc(x, s):
    return al.pscale(_n(x), s)


def _add(x, y):
    if isinstance(x, Ptr):
        return Ptr(x.obj, padd(x.off, _n(y)))
    if isinstance(y, Ptr):
        return Ptr(y.obj, padd(y.off, _n(x)))
    if x is UNDEF or y is UNDEF:
        return UNDEF
    return padd(_n(x), _n(y))


def _sub(x, y):
    if isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj == y.obj:
        return psub(x.off, y.off)
    if isinstance(x, Ptr) and isinstance(y, Poly):
        return Ptr(x.obj, psub(x.off, y))
    if isinstance(x, Ptr) and isinstance(y, Ptr):
        # same buffer delimited by two opaque pointers
        return psub(_n(x), _n(y))
    if x is UNDEF or y is UNDEF:
        return UNDEF
    return psub(_n(x), _n(y))


def _imul(x, y):
    if x is UNDEF or y is UNDEF:
        return UNDEF
    return pmul(_n(x), _n(y))


def _padd(p, o):
    if isinstance(p, Ptr):
        if isinstance(o, Ptr):
            return Ptr(p.obj, padd(p.off, _n(o)))
        return Ptr(p.obj, padd(p.off, _n(o)))
    if p is UNDEF:
        return UNDEF
    if isinstance(p, Poly) and isinstance(o, Ptr):
        return Ptr(o.obj, padd(o.off, p))
    if isinstance(p, Poly):
        return padd(p, _n(o))
    raise Unsupported('address arithmetic on %r' % (p,))


_IOPS = {'add': _add, 'sub': _sub, 'mul': _imul}


NOT_FINITE = ('inf', 'nan', 'div0')


def _isnan(x):
    """known to be no number (opaque inputs always are)"""
    return isinstance(x, Poly) and any(e > 0 and al.A.info[i][0] == 'nan' for m in x.t for i, e in m)


def _fadd(x, y):
    return padd(_n(x), _n(y))


def _fsub(x, y):
    return psub(_n(x), _n(y))


def _fmul(x, y):
    x, y = _n(x), _n(y)
    if not x.t or not y.t:
        # zero times an infinity (or a NaN) is a NaN
        if any(al.A.info[i][0] in NOT_FINITE and e > 0 for m in (x.t or y.t) for i, e in m):
            return al.patom(al.A.get('nan'))
    return pmul(x, y)


def _fdiv(x, y):
    x, y = _n(x), _n(y)
    if not x.t and not y.t:
        return al.patom(al.A.get('nan'))
    return pdiv(x, y)


_FOPS = {'fadd': _fadd, 'fsub': _fsub, 'fmul': _fmul, 'fdiv': _fdiv}


def _cmp(q, x, y):
    if x is UNDEF or y is UNDEF:
        return al.boolvar('undefcmp')
    d = psub(_n(x), _n(y))
    # INF comparisons fold through intervals
    r = {'lt': (True, False, False), 'le': (True, True, False), 'gt': (False, False, True),
         'ge': (False, True, True), 'eq': (False, True, False), 'ne': (True, False, True)}[q]
    return sign3(d, tuple(leaf(v) for v in r))


def _upper(x):
    return pconst(x.const() + (1 << 64)) if isinstance(x, Poly) and x.t and x.is_const() and x.const() < 0 else x


def _fabs(x):
    x = _n(x)
    return sign3(x, (leaf(-x), leaf(ZERO if False else x), leaf(x)))


def _and(x, y):
    return x and y


def _fptoi(x):
    x = _n(x)
    if x.is_const():
        c = x.const() if x.t else Fraction(0)
        return pconst(int(c))
    return _trunc(x)


def _floor(x):
    return psub(x, al.f_frac(x))


def _trunc(x):
    if not psub(x, al.int_part(x)).t:
        return x
    if al.inside_unit(x):
        return pconst(0)
    return sign3(x, (leaf(-_floor(-x)), leaf(pconst(0)), leaf(_floor(x))))


def _round(x):
    if not psub(x, al.int_part(x)).t:
        return x
    h = pconst(Fraction(1, 2))
    return sign3(x, (leaf(-_floor(padd(-x, h))), leaf(pconst(0)), leaf(_floor(padd(x, h)))))


def _divisible(x, k):
    """x is an integer polynomial whose coefficients are multiples of k"""
    return all(c.denominator == 1 and c.numerator % k == 0 for c in x.t.values())


def _cmpkey(x, y):
    return True


def _fn1(f, x):
    x = _n(x)
    if f == 'sin':
        return al.sincos(x)[0]
    if f == 'cos':
        return al.sincos(x)[1]
    if f == 'tan':
        s, c = al.sincos(x)
        return pdiv(s, c)
    if f == 'fabs':
        return _fabs(x)
    if f == 'sqrt':
        return _sqrt(x)
    if f == 'acos':
        return al.f_acos(x)
    if f == 'asin':
        return al.f_asin(x)
    if f == 'atan':
        return al.f_atan2(x, ONE)
    if x.is_const() and f in ('floor', 'ceil', 'round', 'rint', 'trunc'):
        c = x.const() if x.t else Fraction(0)
        return pconst({'floor': math.floor, 'ceil': math.ceil, 'trunc': int,
                       'round': lambda v: math.floor(v + Fraction(1, 2)) if v >= 0 else -math.floor(-v + Fraction(1, 2)),
                       'rint': round}[f](c))
    if x.is_const() and not x.t and f == 'exp':
        return ONE
    if f == 'floor':
        return _floor(x)
    if f == 'ceil':
        return -_floor(-x)
    if f == 'trunc':
        return _trunc(x)
    if f == 'round':
        return _round(x)
    return patom(al.A.get('fn', f, x))


def _absdd(q):
    lo, hi = al.interval(q)
    if lo >= 0:
        return leaf(q)
    if hi <= 0:
        return leaf(-q)
    return sign3(q, (leaf(-q), leaf(q), leaf(q)))


def _sqrt(x):
    if not x.t:
        return ZERO
    q = al.perfect_square(x)
    if q is not None:
        return _absdd(q)
    sp = sqf.split(x)
    if sp is None:
        return al.psqrt_poly(x)
    fac, inside = sp
    if inside.is_const() and inside.const() < 0:
        return al.psqrt_poly(x)
    q = None
    if len(inside.t) and not inside.is_const():
        q = al.perfect_square(inside)
    r = _absdd(q) if q is not None else leaf(al.psqrt_poly(inside))
    for f, k in fac:
        a = _absdd(f)
        if k < 0:
            a = apply('inv', lambda z: al.pinv(z), a)
        for _ in range(abs(k)):
            r = apply('fmul', lambda u, v: pmul(u, v), r, a)
    return r


def _fnn(f, x, y):
    x, y = _n(x), _n(y)
    if f == 'fmod' and x.is_const() and y.is_const() and y.t:
        c = x.const() if x.t else Fraction(0)
        return pconst(math.fmod(c, y.const()))
    if f == 'fmod' and y.is_const() is False and al.interval(y)[0] > 0 or f == 'fmod' and y.is_const() and y.t:
        q = pdiv(x, y)
        lo, hi = al.interval(y)
        if hi < 0:
            q, y = -q, -y
        if al.inside_unit(q):
            return x
        a, b = pmul(y, al.f_frac(q)), -pmul(y, al.f_frac(-q))
        return sign3(q, (leaf(b), leaf(pconst(0)), leaf(a)))
    return patom(al.A.get('fn', f, x, y))
