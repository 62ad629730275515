"""Parser for the textual LLVM IR (LLVM 18, opaque pointers) that clang/opt emit.

Only what a value analysis needs is kept: functions, basic blocks, instructions
with typed operands, struct layouts, constant globals and debug locations.
"""
import re
import struct as _struct

TOK = re.compile(r'''
    \s+
  | (?P<str>c?"(?:[^"\\]|\\.)*")
  | (?P<meta>![A-Za-z_.][\w.]*(?=[\s(,]|$)|!\d+|!(?="))
  | (?P<id>[%@](?:"(?:[^"\\]|\\.)*"|[-\w$.]+))
  | (?P<attr>\#\d+)
  | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)
  | (?P<word>[A-Za-z_$][\w$.]*)
  | (?P<p>\.\.\.|[][(){}<>,=*:|!])
''', re.X)


class ParseError(Exception):
    pass


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise ParseError('tok %r' % s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        if k:
            out.append((k, m.group(k)))
    return out


# types: ('int',n) ('float',) ('double',) ('ptr',) ('void',) ('array',n,t)
# ('vec',n,t) ('struct',[t],packed) ('named',name) ('label',) ('meta',) ('fn',..)
class Types:
    def __init__(self):
        self.named = {}
        self._lay = {}
        self._size = {}

    def resolve(self, t):
        while t[0] == 'named':
            r = self.named.get(t[1])
            if r is None:
                raise ParseError('opaque type %s' % t[1])
            t = r
        return t

    def size_align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'int':
            n = (t[1] + 7) // 8
            p = 1
            while p < n:
                p *= 2
            return p, min(p, 16)
        if k == 'float':
            return 4, 4
        if k == 'double':
            return 8, 8
        if k == 'x86_fp80':
            return 16, 16
        if k == 'ptr':
            return 8, 8
        if k == 'array':
            s, a = self.size_align(t[2])
            return s * t[1], a
        if k == 'vec':
            s, a = self.size_align(t[2])
            return s * t[1], s * t[1]
        if k == 'struct':
            return self.layout(t)[1:]
        raise ParseError('size of %r' % (t,))

    def size(self, t):
        r = self._size.get(id(t))
        if r is None:
            r = self._size[id(t)] = self.size_align(t)[0], t
        return r[0]

    def layout(self, t):
        t = self.resolve(t)
        key = repr(t)
        r = self._lay.get(key)
        if r:
            return r
        off = 0
        al = 1
        offs = []
        for f in t[1]:
            s, a = self.size_align(f)
            if t[2]:
                a = 1
            off = (off + a - 1) // a * a
            offs.append(off)
            off += s
            al = max(al, a)
        off = (off + al - 1) // al * al
        r = (offs, off, al)
        self._lay[key] = r
        return r


class Inst:
    __slots__ = ('op', 'res', 'ty', 'args', 'x', 'dbg', 'text')

    def __init__(self, op, res=None, ty=None, args=None, x=None, dbg=None, text=None):
        self.op = op
        self.res = res
        self.ty = ty
        self.args = args or []
        self.x = x
        self.dbg = dbg
        self.text = text


class Block:
    def __init__(self, name):
        self.name = name
        self.insts = []

    def succs(self):
        if not self.insts:
            return []
        t = self.insts[-1]
        if t.op == 'br':
            return list(t.x)
        if t.op == 'switch':
            return [t.x[0]] + [l for _, l in t.x[1]]
        if t.op == 'invoke':
            return [t.x['normal'], t.x['unwind']]
        return []


class Function:
    def __init__(self, name):
        self.name = name
        self.params = []
        self.blocks = {}
        self.order = []
        self.dbg = None
        self.ret = None


PARAM_ATTRS = set('''noundef nonnull signext zeroext inreg noalias nocapture
readonly writeonly readnone returned immarg noreturn nest allocalign allocptr
swiftself swifterror swiftasync nofree captures initializes dead_on_unwind writable'''.split())
PAREN_ATTRS = set('''dereferenceable dereferenceable_or_null sret byval byref
inalloca preallocated elementtype align nofpclass range captures memory'''.split())
FAST = set('nnan ninf nsz arcp contract afn reassoc fast nuw nsw exact disjoint nneg inbounds'.split())
CCONV = set('fastcc ccc coldcc tailcc swiftcc'.split())


class P:
    """token cursor"""

    def __init__(self, toks, types):
        self.t = toks
        self.i = 0
        self.types = types

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def next(self):
        r = self.t[self.i]
        self.i += 1
        return r

    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v and self.t[self.i][0] != 'str':
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise ParseError('expected %r at %r' % (v, self.t[self.i - 3:self.i + 5]))

    def type(self):
        k, v = self.next()
        if k == 'word':
            if v[0] == 'i' and v[1:].isdigit():
                t = ('int', int(v[1:]))
            elif v in ('float', 'double', 'ptr', 'void', 'label', 'x86_fp80', 'token', 'half'):
                t = (v,)
            elif v == 'metadata':
                t = ('meta',)
            else:
                raise ParseError('type word %s' % v)
        elif k == 'id':
            t = ('named', v)
        elif v == '[':
            n = int(self.next()[1])
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('array', n, e)
        elif v == '<':
            if self.peek()[1] == '{':
                self.next()
                t = self._struct(True)
                self.expect('>')
            else:
                n = int(self.next()[1])
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('vec', n, e)
        elif v == '{':
            t = self._struct(False)
        else:
            raise ParseError('type at %r' % (self.t[self.i - 1:self.i + 4],))
        # function type
        while self.peek()[1] == '(' and t[0] != 'fn_done':
            # a function type only appears in calls: "ret (args)"
            save = self.i
            try:
                self.next()
                ps = []
                if not self.accept(')'):
                    while True:
                        if self.accept('...'):
                            pass
                        else:
                            ps.append(self.type())
                        if self.accept(')'):
                            break
                        self.expect(',')
                if self.peek()[0] != 'id' and self.peek()[0] is not None:
                    raise ParseError('notfn')
                t = ('fn', t, ps)
            except ParseError:
                self.i = save
                break
        return t

    def _struct(self, packed):
        fs = []
        if not self.accept('}'):
            while True:
                fs.append(self.type())
                if self.accept('}'):
                    break
                self.expect(',')
        return ('struct', fs, packed)

    def attrs(self):
        while True:
            k, v = self.peek()
            if k == 'word' and v in PAREN_ATTRS:
                self.next()
                if self.accept('('):
                    d = 1
                    while d:
                        x = self.next()[1]
                        d += (x == '(') - (x == ')')
                elif v == 'align':
                    self.next()
            elif k == 'word' and v in PARAM_ATTRS:
                self.next()
                if self.peek()[1] == '(':
                    d = 0
                    while True:
                        x = self.next()[1]
                        d += (x == '(') - (x == ')')
                        if d == 0:
                            break
            elif k == 'str' and self.peek(1)[1] == '=':
                self.i += 3
            elif k == 'str':
                self.next()
            else:
                return

    def value(self, ty):
        k, v = self.next()
        if k == 'id':
            return ('loc' if v[0] == '%' else 'glob', v)
        if k == 'num':
            if ty[0] == 'int':
                return ('int', int(v))
            if ty[0] in ('float', 'double'):
                if v.startswith('0x'):
                    return ('fp', _struct.unpack('>d', _struct.pack('>Q', int(v, 16)))[0])
                return ('fp', float(v))
            if ty[0] == 'x86_fp80':
                return ('opaque', v)
            raise ParseError('num of %r' % (ty,))
        if k == 'str':
            return ('cstr', v)
        if k == 'word':
            if v == 'true':
                return ('int', 1)
            if v == 'false':
                return ('int', 0)
            if v == 'null':
                return ('null',)
            if v == 'zeroinitializer':
                return ('zero',)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'none':
                return ('undef',)
            if v == 'splat':
                self.expect('(')
                t = self.type()
                e = self.value(t)
                self.expect(')')
                return ('splat', e, t)
            if v == 'getelementptr':
                while self.peek()[1] in ('inbounds', 'nuw', 'nusw', 'inrange'):
                    self.next()
                    if self.peek()[1] == '(' and self.peek(1)[0] == 'num':
                        while self.next()[1] != ')':
                            pass
                self.expect('(')
                bt = self.type()
                ops = []
                while self.accept(','):
                    if self.accept('inrange'):
                        if self.peek()[1] == '(':
                            while self.next()[1] != ')':
                                pass
                    t = self.type()
                    ops.append((t, self.value(t)))
                self.expect(')')
                return ('cgep', bt, ops)
            if v in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.expect('(')
                t = self.type()
                x = self.value(t)
                self.expect('to')
                t2 = self.type()
                self.expect(')')
                return ('ccast', v, t, x, t2)
            if v in ('sub', 'add', 'mul', 'xor', 'and', 'or', 'icmp', 'select', 'shl'):
                d = 0
                while True:
                    x = self.next()[1]
                    d += (x == '(') - (x == ')')
                    if d == 0 and x == ')':
                        break
                return ('opaque', v)
            if v in ('blockaddress', 'dso_local_equivalent', 'no_cfi'):
                d = 0
                while True:
                    x = self.next()[1]
                    d += (x == '(') - (x == ')')
                    if d == 0 and x == ')':
                        break
                return ('opaque', v)
            raise ParseError('value word %s' % v)
        if v in ('[', '<', '{'):
            close = {'[': ']', '<': '>', '{': '}'}[v]
            packed = False
            if v == '<' and self.peek()[1] == '{':
                self.next()
                packed = True
                close = '}'
            els = []
            if not self.accept(close):
                while True:
                    t = self.type()
                    els.append((t, self.value(t)))
                    if self.accept(close):
                        break
                    self.expect(',')
            if packed:
                self.expect('>')
            return ('agg', els)
        if k == 'meta' or v == '!':
            if self.peek()[1] == '(':
                d = 0
                while True:
                    x = self.next()[1]
                    d += (x == '(') - (x == ')')
                    if d == 0:
                        break
            return ('meta',)
        raise ParseError('value %r %r' % (k, v))

    def tv(self):
        t = self.type()
        self.attrs()
        return t, self.value(t)


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode()
            i += 1
    return bytes(out)


class Module:
    def __init__(self, text):
        self.types = Types()
        self.globals = {}
        self.functions = {}
        self.decls = {}
        self.md = {}
        self._mdraw = {}
        self.parse(text)

    def parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        raw = []
        while i < n:
            ln = lines[i]
            if ln.startswith('%') and ' = type ' in ln:
                name, rest = ln.split(' = type ', 1)
                if rest.strip() != 'opaque':
                    self.types.named[name.strip()] = P(tokenize(rest), self.types).type()
            elif ln.startswith('@'):
                self.parse_global(ln)
            elif ln.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                raw.append((ln, lines[i + 1:j]))
                i = j
            elif ln.startswith('declare'):
                m = re.search(r'(@(?:"[^"]*"|[-\w$.]+))\(', ln)
                if m:
                    self.decls[m.group(1)] = ln
            elif ln.startswith('!'):
                m = re.match(r'!(\d+) = (.*)', ln)
                if m:
                    self._mdraw[int(m.group(1))] = m.group(2)
            i += 1
        self._raw = {}
        for head, body in raw:
            m = re.search(r'(@(?:"[^"]*"|[-\w$.]+))\(', head)
            self._raw[m.group(1)] = (head, body)

    def function_names(self):
        return list(self._raw)

    def function(self, name):
        f = self.functions.get(name)
        if f is None:
            if name not in self._raw:
                return None
            f = self.parse_function(*self._raw[name])
            self.functions[name] = f
        return f

    def parse_global(self, ln):
        m = re.match(r'(@(?:"[^"]*"|[-\w$.]+)) = (.*)', ln)
        if not m:
            return
        name, rest = m.groups()
        mm = re.search(r'\b(constant|global|alias)\b (.*)', rest)
        if not mm:
            return
        kind, body = mm.groups()
        ext = bool(re.match(r'external\b', rest)) or ' external ' in (' ' + rest[:mm.start()] + ' ')
        g = {'const': kind == 'constant', 'init': None, 'ty': None, 'external': ext, 'text': ln,
             'tls': 'thread_local' in rest[:mm.start()], 'alias': kind == 'alias'}
        self.globals[name] = g
        g['_body'] = body

    def global_init(self, name):
        g = self.globals.get(name)
        if g is None:
            return None
        if '_body' in g:
            body = g.pop('_body')
            try:
                # cut trailing ", align.." is harmless for the cursor
                p = P(tokenize(body), self.types)
                g['ty'] = p.type()
                if not g['external']:
                    g['init'] = p.value(g['ty'])
            except Exception:
                g['ty'] = g.get('ty')
        return g

    def constructors(self):
        """the functions that construct static objects, in order"""
        g = self.globals.get('@llvm.global_ctors')
        return re.findall(r'i32 \d+, ptr (@[-\w$.]+)', g['text']) if g else []

    def cstring(self, name):
        g = self.global_init(name)
        if g and g['init'] and g['init'][0] == 'cstr':
            s = g['init'][1]
            s = s[s.index('"') + 1:-1]
            b = unescape(s)
            return b.rstrip(b'\0').decode('latin1')
        if g and g['init'] and g['init'][0] == 'zero':
            return ''
        return None

    def parse_function(self, head, body):
        m = re.search(r'(@(?:"[^"]*"|[-\w$.]+))\(', head)
        f = Function(m.group(1))
        toks = tokenize(head[m.end() - 1:head.rindex('{')].split(' personality ')[0])
        p = P(toks, self.types)
        p.expect('(')
        cnt = 0
        if not p.accept(')'):
            while True:
                if p.accept('...'):
                    p.expect(')')
                    break
                t = p.type()
                p.attrs()
                if p.peek()[0] == 'id':
                    nm = p.next()[1]
                else:
                    nm = '%' + str(cnt)
                cnt += 1
                f.params.append((t, nm))
                if p.accept(')'):
                    break
                p.expect(',')
        mm = re.search(r'!dbg !(\d+)', head)
        f.dbg = int(mm.group(1)) if mm else None
        first = str(sum(1 for _, nm in f.params if nm[1:].isdigit()))
        cur = None
        i = 0
        nb = len(body)
        while i < nb:
            ln = body[i]
            s = ln.strip()
            i += 1
            if not s or s.startswith(';'):
                continue
            if not ln.startswith(' '):
                lab = s.split(':')[0] if not s.startswith('"') else s[:s.index('"', 1) + 1]
                cur = Block('%' + lab)
                f.blocks[cur.name] = cur
                f.order.append(cur.name)
                continue
            if cur is None:
                cur = Block('%' + first)
                f.blocks[cur.name] = cur
                f.order.append(cur.name)
            # multi-line constructs
            if s.startswith('switch') and s.endswith('['):
                while not body[i].strip().startswith(']'):
                    s += ' ' + body[i].strip()
                    i += 1
                s += ' ' + body[i].strip()
                i += 1
            elif ' = landingpad' in s or s.startswith('landingpad'):
                while i < nb and re.match(r'\s+(cleanup|catch|filter)', body[i]):
                    s += ' ' + body[i].strip()
                    i += 1
            elif re.match(r'(\S+ = )?invoke ', s) and ' unwind label ' not in s:
                s += ' ' + body[i].strip()
                i += 1
            ins = self.parse_inst(s)
            cur.insts.append(ins)
        return f

    def parse_inst(self, s):
        dbg = None
        m = re.search(r', !dbg !(\d+)', s)
        if m:
            dbg = int(m.group(1))
        # strip metadata suffixes
        cut = re.search(r', ![a-zA-Z_.]+ !', s)
        core = s
        if cut:
            # keep things after (invoke has "to label" before metadata, so fine)
            core = s[:cut.start()]
        res = None
        m = re.match(r'(%(?:"[^"]*"|[-\w$.]+)) = ', core)
        if m:
            res = m.group(1)
            core = core[m.end():]
        opm = re.match(r'[\w.]+', core)
        op = opm.group(0)
        try:
            ins = self._inst(op, core, res)
        except (ParseError, IndexError, ValueError) as e:
            ins = Inst('unsupported', res, None, [], str(e))
        ins.dbg = dbg
        ins.text = s
        return ins

    def _inst(self, op, core, res):
        p = P(tokenize(core), self.types)
        p.next()
        T = self.types
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()[1]
        while p.peek()[0] == 'word' and p.peek()[1] in FAST:
            p.next()
        if op == 'ret':
            if p.peek()[1] == 'void':
                return Inst('ret', None, None, [])
            t, v = p.tv()
            return Inst('ret', None, t, [(t, v)])
        if op == 'br':
            if p.accept('label'):
                return Inst('br', None, None, [], [p.next()[1]])
            t, v = p.tv()
            p.expect(',')
            p.expect('label')
            a = p.next()[1]
            p.expect(',')
            p.expect('label')
            b = p.next()[1]
            return Inst('br', None, None, [(t, v)], [a, b])
        if op == 'switch':
            t, v = p.tv()
            p.expect(',')
            p.expect('label')
            d = p.next()[1]
            p.expect('[')
            cases = []
            while not p.accept(']'):
                ct = p.type()
                cv = p.value(ct)
                p.expect(',')
                p.expect('label')
                cases.append((cv[1], p.next()[1]))
            return Inst('switch', None, None, [(t, v)], (d, cases))
        if op in ('unreachable', 'resume'):
            return Inst(op)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem',
                  'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return Inst(op, res, t, [(t, a), (t, b)])
        if op in ('icmp', 'fcmp'):
            pred = p.next()[1]
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            rt = ('int', 1) if t[0] != 'vec' else ('vec', t[1], ('int', 1))
            return Inst(op, res, rt, [(t, a), (t, b)], pred)
        if op in ('fneg', 'freeze'):
            t, v = p.tv()
            return Inst(op, res, t, [(t, v)])
        if op == 'select':
            c = p.tv()
            p.expect(',')
            a = p.tv()
            p.expect(',')
            b = p.tv()
            return Inst(op, res, a[0], [c, a, b])
        if op == 'phi':
            t = p.type()
            inc = []
            while True:
                p.expect('[')
                v = p.value(t)
                p.expect(',')
                inc.append((v, p.next()[1]))
                p.expect(']')
                if not p.accept(','):
                    break
            return Inst('phi', res, t, [], inc)
        if op in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext', 'fptrunc', 'fpext',
                  'sitofp', 'uitofp', 'fptosi', 'fptoui', 'addrspacecast'):
            t, v = p.tv()
            p.expect('to')
            return Inst(op, res, p.type(), [(t, v)])
        if op == 'alloca':
            p.accept('inalloca')
            t = p.type()
            cnt = 1
            if p.accept(',') and p.peek()[1] != 'align':
                ct, cv = p.tv()
                cnt = cv[1] if cv[0] == 'int' else None
            return Inst('alloca', res, ('ptr',), [], (t, cnt))
        if op == 'load':
            if p.peek()[1] == 'atomic':
                p.next()
            p.accept('volatile')
            t = p.type()
            p.expect(',')
            a = p.tv()
            return Inst('load', res, t, [a])
        if op == 'store':
            if p.peek()[1] == 'atomic':
                p.next()
            p.accept('volatile')
            v = p.tv()
            p.expect(',')
            a = p.tv()
            return Inst('store', None, None, [v, a])
        if op == 'getelementptr':
            bt = p.type()
            ops = []
            while p.accept(','):
                ops.append(p.tv())
            return Inst('gep', res, ('ptr',), ops, bt)
        if op == 'extractvalue':
            a = p.tv()
            idx = []
            while p.accept(','):
                idx.append(int(p.next()[1]))
            return Inst(op, res, None, [a], idx)
        if op == 'insertvalue':
            a = p.tv()
            p.expect(',')
            b = p.tv()
            idx = []
            while p.accept(','):
                idx.append(int(p.next()[1]))
            return Inst(op, res, a[0], [a, b], idx)
        if op == 'extractelement':
            a = p.tv()
            p.expect(',')
            b = p.tv()
            return Inst(op, res, a[0][2], [a, b])
        if op == 'insertelement':
            a = p.tv()
            p.expect(',')
            b = p.tv()
            p.expect(',')
            c = p.tv()
            return Inst(op, res, a[0], [a, b, c])
        if op == 'shufflevector':
            a = p.tv()
            p.expect(',')
            b = p.tv()
            p.expect(',')
            c = p.tv()
            return Inst(op, res, ('vec', c[0][1], a[0][2]), [a, b, c])
        if op in ('call', 'invoke'):
            while p.peek()[0] == 'word' and p.peek()[1] in CCONV:
                p.next()
            p.attrs()
            t = p.type()
            if t[0] == 'fn':
                t = t[1]
            callee = p.next()
            if callee[1] == 'asm':
                return Inst('unsupported', res, None, [], 'asm')
            if callee[0] != 'id':
                raise ParseError('callee %r' % (callee,))
            p.expect('(')
            args = []
            if not p.accept(')'):
                while True:
                    at = p.type()
                    p.attrs()
                    if at[0] == 'meta':
                        # skip metadata argument
                        d = 0
                        while not (d == 0 and p.peek()[1] in (',', ')')):
                            x = p.next()[1]
                            d += (x in '({') - (x in ')}')
                        args.append((at, ('meta',)))
                    else:
                        args.append((at, p.value(at)))
                    if p.accept(')'):
                        break
                    p.expect(',')
            x = {'callee': callee[1]}
            if op == 'invoke':
                while not p.accept('to'):
                    p.next()
                p.expect('label')
                x['normal'] = p.next()[1]
                p.expect('unwind')
                p.expect('label')
                x['unwind'] = p.next()[1]
            return Inst(op, res, t, args, x)
        if op == 'landingpad':
            t = p.type()
            clauses = []
            rest = core
            cl = re.findall(r'\b(catch) ptr (null|@[-\w$.]+)', rest)
            if 'cleanup' in rest:
                clauses.append('cleanup')
            clauses += [c[1] for c in cl]
            return Inst('landingpad', res, t, [], clauses)
        if op in ('fence',):
            return Inst('nop')
        return Inst('unsupported', res, None, [], op)

    # ---- debug info ------------------------------------------------------
    def mdnode(self, i):
        r = self.md.get(i)
        if r is None:
            raw = self._mdraw.get(i, '')
            m = re.match(r'(?:distinct )?!(DI\w+)\((.*)\)$', raw)
            r = {}
            if m:
                r['kind'] = m.group(1)
                for k, v in re.findall(r'(\w+): ("(?:[^"\\]|\\.)*"|[^,]+)', m.group(2)):
                    r[k] = v.strip('"')
            self.md[i] = r
        return r

    def _ref(self, s):
        m = re.match(r'!(\d+)$', s or '')
        return int(m.group(1)) if m else None

    def scope_info(self, i):
        """(function, file) of a scope"""
        while i is not None:
            d = self.mdnode(i)
            if d.get('kind') == 'DISubprogram':
                f = self._ref(d.get('file'))
                fn = self.filename(f) if f is not None else None
                return d.get('linkageName') or d.get('name'), fn
            i = self._ref(d.get('scope'))
        return None, None

    def filename(self, f):
        d = self.mdnode(f)
        n, up = d.get('filename'), d.get('directory')
        if n and up and not n.strip('"').startswith('/'):
            n = up.strip('"').rstrip('/') + '/' + n.strip('"')
        return n

    def loc_chain(self, i):
        out = []
        while i is not None:
            d = self.mdnode(i)
            if d.get('kind') != 'DILocation':
                break
            s = self._ref(d.get('scope'))
            fn, fi = self.scope_info(s)
            # lexical block file
            sd = self.mdnode(s) if s is not None else {}
            if sd.get('file') and sd.get('kind') != 'DISubprogram':
                fref = self._ref(sd.get('file'))
                fi = self.filename(fref) or fi
            out.append((fn, fi, int(d.get('line', 0))))
            i = self._ref(d.get('inlinedAt'))
        return out
