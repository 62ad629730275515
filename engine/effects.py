"""Effects of the library's functions: what they write, and what else than their arguments they use.

Every translation unit (the sources of the library, and the law witnesses for what is in headers) is compiled to LLVM IR with
debug information and without inlining.  For each function of the repository:
 - static storage: no variable of static or thread storage duration of the repository is written but by its own
   initialisation, whose value does not depend on the arguments of the function;
 - const: nothing is stored through the address of an argument taken by reference or pointer to const, const *this included;
 - sources: no call gives a value that is no function of the arguments (clock, random numbers, environment, addresses as
   text), or changes the state of the process;
 - failures: only objects derived from std::exception are thrown, no call ends the process, and no exception thrown in the
   repository reaches the end of a function that must not throw."""
import concurrent.futures
import multiprocessing as mp
import os
import re
import subprocess
import tempfile
import shutil

import build
import irparse

# calls whose results are no function of their arguments, or that change what all the threads of the process share
SOURCES = {
    'rand': 'random numbers', 'random': 'random numbers', 'drand48': 'random numbers', 'lrand48': 'random numbers', 'mrand48': 'random numbers', 'rand_r': 'random numbers', 'srand': 'state of the random numbers of the process',
    'srandom': 'state of the random numbers of the process', 'getrandom': 'random numbers', 'arc4random': 'random numbers',
    '_ZNSt13random_device9_M_getvalEv': 'random numbers', '_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE': 'random numbers',
    'time': 'clock', 'clock': 'clock', 'gettimeofday': 'clock', 'clock_gettime': 'clock', 'ftime': 'clock',
    '_ZNSt6chrono3_V212system_clock3nowEv': 'clock', '_ZNSt6chrono3_V212steady_clock3nowEv': 'clock',
    'getenv': 'environment', 'secure_getenv': 'environment', 'setenv': 'environment', 'unsetenv': 'environment', 'putenv': 'environment',
    'getpid': 'number of the process', 'gettid': 'number of the thread', 'pthread_self': 'number of the thread', 'rand48': 'random numbers',
    'setlocale': 'locale of the process', 'uselocale': 'locale of the thread', '_ZNSt6locale6globalERKS_': 'locale of the process', 'fesetround': 'rounding mode of the thread', 'fesetenv': 'floating point environment of the thread',
    'feenableexcept': 'floating point environment of the thread', 'strtok': 'hidden state of strtok', 'signal': 'signals of the process', 'sigaction': 'signals of the process', 'chdir': 'directory of the process',
    '_ZNSolsEPKv': 'an address, as text', '_ZNSo9_M_insertIPKvEERSoT_': 'an address, as text', '_ZNSt8ios_base15sync_with_stdioEb': 'state of the standard streams',
    '_ZSt14set_unexpectedPFvvE': 'handlers of the process', '_ZSt13set_terminatePFvvE': 'handlers of the process', '_ZSt15set_new_handlerPFvvE': 'handlers of the process', 'atexit': 'handlers of the process',
}
ENDS = {'exit', '_exit', '_Exit', 'quick_exit', 'abort', '_ZSt9terminatev', 'raise', 'kill', '__builtin_trap', 'longjmp', '_longjmp', 'siglongjmp', 'pthread_exit'}
STD_EXCEPTIONS = re.compile(r'^_ZTISt(9exception|9bad_alloc|8bad_cast|10bad_typeid|13bad_exception|20bad_array_new_length|11logic_error|12domain_error|16invalid_argument|12length_error|12out_of_range|13runtime_error|'
                            r'11range_error|14overflow_error|15underflow_error|17bad_function_call|18bad_variant_access|19bad_optional_access|12system_error|12future_error|11regex_error|12bad_weak_ptr)$'
                            r'|^_ZTINSt(8ios_base7failureB5cxx11|12experimental.*|10filesystem.*16filesystem_error|7__cxx11.*error)E$|^_ZTISt12bad_any_cast$')
THROWING = re.compile(r'^_ZSt\d+__throw_|^__cxa_(re)?throw$')


CONTAINER = re.compile(r'^(vector|basic_string|list|deque|map|set|multimap|multiset|unordered_map|unordered_set|basic_ptree|circular_buffer|optional)<')
INDIRECT = re.compile(r'[*&]|_ptr\b|_ptr<|iterator|reference_wrapper|function<|string_view|span<')


class Unit:
    def __init__(self, path, text, repo):
        self.m = irparse.Module(text)
        self.repo = repo
        self.path = path
        self.alias = {}
        for g, d in self.m.globals.items():
            if d['alias']:
                t = re.findall(r'(@(?:"[^"]*"|[-\w$.]+))', d['_body'] if '_body' in d else d['text'].split(' = ', 1)[1])
                if t:
                    self.alias[g] = t[-1]
        self.sub = {}     # function -> node of its DISubprogram
        for n, (head, body) in self.m._raw.items():
            mm = re.search(r'!dbg !(\d+)', head)
            if mm:
                self.sub[n] = int(mm.group(1))
        self.summ = {}
        self.full = {}
        self._owns = {}
        self._comp = None

    # ---- debug information ----
    def file_of(self, node):
        d = self.m.mdnode(node)
        f = self.m._ref(d.get('file'))
        if f is None:
            return None
        fd = self.m.mdnode(f)
        p = fd.get('filename', '')
        if not p.startswith('/'):
            p = os.path.join(fd.get('directory', ''), p)
        p = os.path.normpath(p)
        return p[len(self.repo) + 1:] if p.startswith(self.repo + '/') else None

    def name_of(self, node):
        """enclosing scopes and name"""
        out = []
        while node is not None:
            d = self.m.mdnode(node)
            k = d.get('kind')
            if k in ('DISubprogram', 'DINamespace', 'DICompositeType', 'DIGlobalVariable', 'DILocalVariable') and d.get('name'):
                out.append(d['name'])
            node = self.m._ref(d.get('scope'))
        return '::'.join(reversed(out))

    def repo_functions(self):
        for n, s in self.sub.items():
            f = self.file_of(s)
            if f:
                yield n, s, f

    def const_type(self, t, seen=0):
        """is the type of a variable const?"""
        while t is not None and seen < 20:
            d = self.m.mdnode(t)
            tag = self.m._mdraw.get(t, '')
            if 'DW_TAG_const_type' in tag:
                return True
            if 'DW_TAG_typedef' in tag or 'DW_TAG_volatile_type' in tag or 'DW_TAG_array_type' in tag:
                t = self.m._ref(d.get('baseType'))
                seen += 1
                continue
            return False
        return False

    def const_target(self, t):
        """is the type a reference or pointer to const?"""
        for _ in range(20):
            if t is None:
                return False
            d = self.m.mdnode(t)
            tag = self.m._mdraw.get(t, '')
            b = self.m._ref(d.get('baseType'))
            if 'DW_TAG_reference_type' in tag or 'DW_TAG_pointer_type' in tag:
                return self.const_type(b)
            if 'DW_TAG_typedef' in tag or 'DW_TAG_const_type' in tag or 'DW_TAG_volatile_type' in tag:
                t = b
                continue
            return False
        return False

    def target(self, t):
        """the type a reference or pointer to const leads to"""
        for _ in range(20):
            if t is None:
                return None
            d = self.m.mdnode(t)
            tag = self.m._mdraw.get(t, '')
            b = self.m._ref(d.get('baseType'))
            if 'DW_TAG_reference_type' in tag or 'DW_TAG_pointer_type' in tag:
                return b
            t = b
        return None

    def owns(self, t, depth=0):
        """is everything reached from a value of this type part of the value?  Containers of numbers, texts and values of
        the repository made of such members are; handles, iterators, views and functions are not"""
        if depth > 12 or t is None:
            return False
        if t in self._owns:
            return self._owns[t]
        self._owns[t] = True   # of recursive types
        d = self.m.mdnode(t)
        tag = self.m._mdraw.get(t, '')
        if re.search(r'DW_TAG_(const|volatile)_type|DW_TAG_typedef|DW_TAG_array_type', tag):
            r = self.owns(self.m._ref(d.get('baseType')), depth + 1)
        elif d.get('kind') == 'DIBasicType' or 'DW_TAG_enumeration_type' in tag:
            r = True
        elif d.get('kind') == 'DICompositeType':
            name = d.get('name') or ''
            if CONTAINER.match(name) or self.std_scope(d) and name.startswith(('array<', 'pair<')):
                r = not INDIRECT.search(name)
                if r:
                    for e in re.findall(r'([A-Za-z_]\w*(?:::\w+)*)', name):
                        # elements of the repository: values too
                        n = self.composites().get(e.split('::')[-1])
                        if n is not None and n != t:
                            r = r and self.owns(n, depth + 1)
            elif self.file_of(t):
                r = self.members_own(t, depth)
            else:
                r = False
        else:
            r = False
        self._owns[t] = r
        return r

    def std_scope(self, d):
        s = self.m._ref(d.get('scope'))
        while s is not None:
            k = self.m.mdnode(s)
            if k.get('kind') == 'DINamespace' and k.get('name') == 'std':
                return True
            s = self.m._ref(k.get('scope'))
        return False

    def composites(self):
        if self._comp is None:
            self._comp = {}
            for k, raw in self.m._mdraw.items():
                if 'DICompositeType' in raw and 'flags: DIFlagFwdDecl' not in raw:
                    d = self.m.mdnode(k)
                    if d.get('name') and self.file_of(k):
                        self._comp.setdefault(d['name'], k)
        return self._comp

    def members_own(self, t, depth):
        raw = self.m._mdraw.get(t, '')
        if 'DIFlagFwdDecl' in raw or 'DIFlagVirtual' in raw:
            return False
        d = self.m.mdnode(t)
        e = self.m._ref(d.get('elements'))
        if e is None:
            return False
        for k in re.findall(r'!(\d+)', self.m._mdraw.get(e, '')):
            k = int(k)
            mt = self.m._mdraw.get(k, '')
            if 'DW_TAG_member' in mt and 'DIFlagStaticMember' not in mt or 'DW_TAG_inheritance' in mt:
                if not self.owns(self.m._ref(self.m.mdnode(k).get('baseType')), depth + 1):
                    return False
        return True

    def loc(self, dbg, fn):
        ch = self.m.loc_chain(dbg) if dbg is not None else []
        for f, fi, ln in ch:
            if fi:
                return '%s:%d' % (fi[len(self.repo) + 1:] if fi.startswith(self.repo + '/') else fi, ln)
        return fn

    # ---- functions, as far as the analysis needs them ----
    def function(self, name):
        name = self.alias.get(name, name)
        return self.m.function(name)

    def roots(self, v, out):
        """locals and globals an operand is made of"""
        k = v[0]
        if k in ('loc', 'glob'):
            out.append(v[1])
        elif k == 'cgep':
            self.roots(v[2][0][1], out)
        elif k == 'ccast':
            self.roots(v[3], out)
        return out

    def derived(self, f, start):
        """locals (and given globals) -> levels: 0 the object itself, 1 what it leads to; plus writes and returns.
        start: {operand name: set of levels}"""
        lv = {k: set(v) for k, v in start.items()}
        writes = {}   # level -> instruction
        rets = set()

        def of(v):
            s = set()
            for r in self.roots(v, []):
                s |= lv.get(r, set())
            return s

        def add(n, s):
            if not s or n is None:
                return False
            o = lv.setdefault(n, set())
            if s <= o:
                return False
            o |= s
            return True
        change = True
        while change:
            change = False
            for b in f.order:
                for i in f.blocks[b].insts:
                    op = i.op
                    if op in ('gep',):
                        change |= add(i.res, of(i.args[0][1]))
                    elif op in ('bitcast', 'freeze', 'addrspacecast', 'inttoptr', 'ptrtoint'):
                        change |= add(i.res, of(i.args[0][1]))
                    elif op == 'select':
                        change |= add(i.res, of(i.args[1][1]) | of(i.args[2][1]))
                    elif op == 'phi':
                        s = set()
                        for v, _ in i.x:
                            s |= of(v)
                        change |= add(i.res, s)
                    elif op == 'load':
                        if of(i.args[0][1]) and i.ty == ('ptr',):
                            change |= add(i.res, {1})
                    elif op in ('insertvalue',):
                        change |= add(i.res, of(i.args[0][1]) | of(i.args[1][1]))
                    elif op in ('extractvalue',):
                        change |= add(i.res, of(i.args[0][1]))
                    elif op == 'store':
                        for l in of(i.args[1][1]):
                            writes.setdefault(l, i)
                    elif op == 'ret':
                        if i.args:
                            rets |= of(i.args[0][1])
                    elif op in ('call', 'invoke'):
                        ls = [of(a[1]) for a in i.args]
                        if not any(ls):
                            continue
                        cs = self.summary(i.x['callee'], len(i.args))
                        r = set()
                        for l, s in zip(ls, cs):
                            if not l:
                                continue
                            for x in l:
                                if 'w0' in s:
                                    writes.setdefault(x, i)
                                if 'w1' in s:
                                    writes.setdefault(1, i)
                                if 'r0' in s:
                                    r.add(x)
                                if 'r1' in s:
                                    r.add(1)
                        if i.res and i.ty is not None:
                            change |= add(i.res, r)
                    elif op == 'unsupported' and i.text and re.search(r'\b(atomicrmw|cmpxchg)\b', i.text):
                        m = re.search(r'ptr (%(?:"[^"]*"|[-\w$.]+)|@(?:"[^"]*"|[-\w$.]+))', i.text)
                        if m:
                            for l in lv.get(m.group(1), ()):
                                writes.setdefault(l, i)
        return lv, writes, rets

    def summary(self, name, n):
        """per argument: w0 w1 written, r0 r1 returned (directly, or what it leads to)"""
        name = self.alias.get(name, name)
        if name in self.summ:
            return self.summ[name]
        if name.startswith('@llvm.'):
            k = name[6:]
            e = [set() for _ in range(n)]
            if re.match(r'(memcpy|memmove|memset)', k):
                e[0] = {'w0'}
            elif re.match(r'(threadlocal\.address|launder|strip|ssa\.copy|ptr\.annotation|expect)', k) and n:
                e[0] = {'r0'}
            return e
        self.summ[name] = [set() for _ in range(n)]   # of recursive calls
        f = self.m.function(name) if name in self.m._raw else None
        if f is None:
            self.summ[name] = external(name, n)
            return self.summ[name]
        out = []
        for t, p in f.params:
            s = set()
            if t == ('ptr',):
                lv, w, r = self.derived(f, {p: {0}})
                s |= {'w%d' % l for l in w} | {'r%d' % l for l in r}
            out.append(s)
        while len(out) < n:
            out.append(set())
        self.summ[name] = out
        return out


_demangled = {}


def demangle(name):
    n = name.lstrip('@').strip('"')
    if n not in _demangled:
        _demangled[n] = subprocess.run(['c++filt', n], stdout=subprocess.PIPE).stdout.decode().strip() if n.startswith('_Z') else n
    return _demangled[n]


def split_args(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c in '<([{':
            d += 1
        if c in '>)]}':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


C_WRITES = {'memcpy': 0, 'memmove': 0, 'memset': 0, 'strcpy': 0, 'strcat': 0, 'sprintf': 0, 'snprintf': 0, 'strncpy': 0, 'strncat': 0, 'swprintf': 0, 'fread': 0, 'qsort': 0, 'strtok': 0}


def external(name, n):
    """what a function defined elsewhere may do, by its signature"""
    e = [set() for _ in range(n)]
    d = demangle(name)
    if not name.lstrip('@').strip('"').startswith('_Z'):
        if d in C_WRITES and n:
            e[C_WRITES[d]] = {'w0', 'r0'}
        if d in ('memchr', 'strchr', 'strstr', 'strrchr') and n:
            e[0] = {'r0'}
        return e
    # the parameter list is the last group in parentheses
    const = d.endswith(' const')
    core = d[:-6] if const else d
    core = re.sub(r'(\[abi:\w+\])+$', '', core)
    if not core.endswith(')'):
        return e
    k = 0
    for i in range(len(core) - 1, -1, -1):
        k += (core[i] == ')') - (core[i] == '(')
        if k == 0:
            break
    params = [p for p in split_args(core[i + 1:-1]) if p and p != 'void']
    base = name.lstrip('@').strip('"')
    member = re.match(r'_ZNK?', base) is not None and n == len(params) + 1
    off = n - len(params)
    for j in range(n):
        if j >= off:
            p = params[j - off]
            if p.endswith('&') or p.endswith('*'):
                if not re.search(r'\bconst[&*]$', p):
                    e[j] = {'w0', 'r0'}
        elif j == off - 1 and member:
            e[j] = {'r1'} if const else {'w0', 'r0', 'r1'}
    return e


def guard_region(f, guard):
    """blocks from a successful acquisition of the guard of a static object to its release"""
    start = []
    for b in f.order:
        for i in f.blocks[b].insts:
            if i.op in ('call', 'invoke') and i.x['callee'] == '@__cxa_guard_acquire' and i.args and i.args[0][1] == ('glob', guard):
                start.append((b, i))
    out = set()
    todo = []
    for b, i in start:
        bl = f.blocks[b]
        t = bl.insts[-1]
        # the branch on the result: the first successor is taken when it is not null (icmp ne) or null (icmp eq)
        cond = None
        for c in bl.insts:
            if c.op == 'icmp' and c.args[0][1] == ('loc', i.res):
                cond = c
        if t.op == 'br' and len(t.x) == 2 and cond is not None:
            todo.append(t.x[0] if cond.x == 'ne' else t.x[1])
        else:
            todo += bl.succs()
    while todo:
        b = todo.pop()
        if b in out:
            continue
        out.add(b)
        if any(i.op in ('call', 'invoke') and i.x['callee'] in ('@__cxa_guard_release', '@__cxa_guard_abort') and i.args and i.args[0][1] == ('glob', guard) for i in f.blocks[b].insts):
            continue
        todo += f.blocks[b].succs()
    return out


def tainted(u, f, head):
    """values that depend on the arguments of the function"""
    ts = set()
    mm = re.search(r'@(?:"[^"]*"|[-\w$.]+)\((.*)\)', head)
    decl = split_args(mm.group(1)) if mm else []
    for (t, p), d in zip(f.params, decl):
        if 'sret' not in d:
            ts.add(p)
    change = True
    while change:
        change = False
        for b in f.order:
            for i in f.blocks[b].insts:
                ops = [r for a in i.args for r in u.roots(a[1], [])]
                if i.op == 'phi':
                    ops = [r for v, _ in i.x for r in u.roots(v, [])]
                if i.op == 'store':
                    if any(r in ts for r in u.roots(i.args[0][1], [])):
                        for r in u.roots(i.args[1][1], []):
                            if r[0] == '%' and r not in ts:
                                ts.add(r)
                                change = True
                    continue
                if i.op in ('call', 'invoke') and any(o in ts for o in ops):
                    # locals handed over together with a tainted value may receive it
                    if i.x['callee'].startswith(('@llvm.dbg', '@llvm.lifetime')):
                        continue
                    for (t, v) in i.args:
                        for r in u.roots(v, []):
                            if t == ('ptr',) and r[0] == '%' and r not in ts:
                                ts.add(r)
                                change = True
                if i.res and i.res not in ts and any(o in ts for o in ops):
                    ts.add(i.res)
                    change = True
    return ts


def analyse(job):
    path, text_path, repo = job
    u = Unit(path, open(text_path).read(), repo)
    os.remove(text_path)
    m = u.m
    out = {'unit': path, 'functions': {}, 'statics': {}, 'const': {}, 'calls': 0, 'findings': [], 'throws': {}, 'edges': {}, 'noexcept': {}, 'undecided': []}

    def finding(rule, key, msg, loc):
        out['findings'].append({'rule': rule, 'key': key, 'msg': msg, 'loc': loc})
    # static storage of the repository
    var = {}
    for g, d in m.globals.items():
        if d['const'] or d['external'] or d['alias']:
            continue
        mm = re.search(r'!dbg !(\d+)', d['text'])
        if not mm:
            continue
        raw = m._mdraw.get(int(mm.group(1)), '')
        vm = re.search(r'var: !(\d+)', raw)
        v = int(vm.group(1)) if vm else int(mm.group(1))
        f = u.file_of(v)
        if not f:
            continue
        var[g] = (v, f, u.const_type(m._ref(m.mdnode(v).get('type'))))
    mention = {g: [] for g in var}
    pat = re.compile(r'@(?:"[^"]*"|[-\w$.]+)')
    for n, (head, body) in m._raw.items():
        if n.startswith('@__cxx_global_var_init') or n.startswith('@_GLOBAL__') or n.startswith('@__tls_init') or '.__cxx_global' in n:
            continue
        seen = {x for ln in body if '@' in ln for x in pat.findall(ln) if x in var}
        for g in seen:
            mention[g].append(n)
    for g, (v, f, const) in var.items():
        nm = u.name_of(v)
        guard = '@_ZGV' + g[3:] if g.startswith('@_Z') else None
        out['statics'][nm] = {'file': f, 'const': const, 'guarded': guard in m.globals, 'users': [demangle(x)[:120] for x in mention[g]]}
        todo = [(n, {g: {0}}) for n in mention[g]]
        done = set()
        while todo:
            n, start = todo.pop()
            if n in done:
                continue
            done.add(n)
            try:
                fn = u.function(n)
                region = guard_region(fn, guard) if guard in m.globals else set()
                lv, writes, rets = u.derived(fn, start)
            except Exception as e:
                out['undecided'].append({'law': demangle(n), 'config': path, 'why': repr(e)[:300]})
                continue
            # all the writes, not only the first of each level
            for b in fn.order:
                for i in fn.blocks[b].insts:
                    w = writes_of(u, i, lv)
                    if const:
                        w = {x for x in w if x == 0}
                    if not w or b in region:
                        continue
                    if i.op in ('call', 'invoke') and i.x['callee'] in ('@__cxa_atexit', '@__cxa_thread_atexit'):
                        continue
                    finding('static storage', 'static:%s' % nm, 'the %s %s is written outside its initialisation%s' % ('variable' if 0 in w else 'data reached from the variable', nm, ' (const)' if const else ''), u.loc(i.dbg, demangle(n)))
            if region:
                ts = tainted(u, fn, m._raw[m_name(u, n)][0])
                for b in region:
                    for i in fn.blocks[b].insts:
                        if i.op in ('store', 'call', 'invoke') and not (i.op != 'store' and i.x['callee'].startswith(('@llvm.dbg', '@llvm.lifetime'))):
                            ops = [r for a in i.args for r in u.roots(a[1], [])]
                            if any(o in ts for o in ops):
                                finding('static storage', 'static:%s' % nm, 'the static variable %s keeps a value that depends on the arguments of the first call' % nm, u.loc(i.dbg, demangle(n)))
            if rets:
                for k, (head, body) in m._raw.items():
                    if k not in done and any(n + '(' in ln for ln in body):
                        # results of n are (part of) the variable
                        fk = u.function(k)
                        st = {i.res: {0} for b in fk.order for i in fk.blocks[b].insts if i.op in ('call', 'invoke') and i.x['callee'] == n and i.res}
                        if st:
                            todo.append((k, st))
    # functions of the repository
    for n, sp, f in u.repo_functions():
        nm = '%s: %s' % (f, demangle(n)[:200])
        out['functions'][nm] = 1
        head, body = m._raw[n]
        # const arguments
        args = set()
        for ln in body:
            mm = re.search(r'@llvm\.dbg\.(?:value|declare)\(metadata ptr (%(?:"[^"]*"|[-\w$.]+)), metadata !(\d+)', ln)
            if mm:
                d = m.mdnode(int(mm.group(2)))
                if d.get('arg') and u.const_target(m._ref(d.get('type'))) and m._ref(d.get('scope')) == sp:
                    args.add((mm.group(1), d.get('name', 'this'), u.owns(u.target(m._ref(d.get('type'))))))
        fn = None
        try:
            fn = u.function(n)
            params = {p for _, p in fn.params}
            for p, an, deep in sorted(args):
                if p not in params:
                    continue
                out['const'][nm + ' ' + an] = 2 if deep else 1
                lv, writes, rets = u.derived(fn, {p: {0}})
                if 0 in writes:
                    finding('const', 'const:%s:%s' % (nm, an), '%s writes to %s, which it takes as const' % (demangle(n)[:160], '*this' if an == 'this' else 'its argument ' + an), u.loc(writes[0].dbg, nm))
                if deep and 1 in writes:
                    finding('const', 'const:%s:%s' % (nm, an), '%s writes to what %s holds, which it takes as const' % (demangle(n)[:160], '*this' if an == 'this' else 'its argument ' + an), u.loc(writes[1].dbg, nm))
        except Exception as e:
            out['undecided'].append({'law': nm, 'config': path, 'why': repr(e)[:300]})
            continue
        # calls
        for b in fn.order:
            for i in fn.blocks[b].insts:
                if i.op not in ('call', 'invoke'):
                    continue
                c = i.x['callee'].lstrip('@').strip('"')
                out['calls'] += 1
                if c in SOURCES:
                    finding('sources', 'source:%s:%s' % (nm, c), '%s uses %s: %s' % (demangle(n)[:160], demangle(c)[:60], SOURCES[c]), u.loc(i.dbg, nm))
                if c in ENDS and not beyond_enum(u, fn, b, sp):
                    finding('failures', 'ends:%s:%s' % (nm, c), '%s may end the process: it calls %s' % (demangle(n)[:160], demangle(c)), u.loc(i.dbg, nm))
                if c == '__cxa_throw':
                    t = u.roots(i.args[1][1], [])
                    t = t[0].lstrip('@').strip('"') if t else '?'
                    ok = exception_type(u, t)
                    out['throws'].setdefault(nm, []).append(demangle(t).replace('typeinfo for ', ''))
                    if ok is False:
                        finding('failures', 'throws:%s:%s' % (nm, t), '%s throws %s, which is not derived from std::exception' % (demangle(n)[:160], demangle(t).replace('typeinfo for ', '')), u.loc(i.dbg, nm))
        if ' @_ZSt3cin' in ''.join(body):
            finding('sources', 'source:%s:cin' % nm, '%s uses the standard input' % demangle(n)[:160], nm)
    # exceptions thrown in the repository that reach the end of a function that must not throw
    for n, (head, body) in m._raw.items():
        repo = n in u.sub and u.file_of(u.sub[n])
        text = '\n'.join(body)
        calls = set()
        for mm in re.finditer(r'\b(?:call|invoke)\b[^@\n]*(@(?:"[^"]*"|[-\w$.]+))\(', text):
            c = u.alias.get(mm.group(1), mm.group(1))
            if not c.startswith('@llvm.'):
                calls.add(c)
        if not calls:
            continue
        throws = '@__cxa_throw' in calls and bool(repo)
        term = set()
        if 'invoke' in text:
            try:
                term, calls = handlers(u.function(n), u)
            except Exception:
                pass
        if repo or calls:
            out['edges'][n] = (sorted(calls), throws, sorted(term), ('%s: %s' % (repo, demangle(n)[:200])) if repo else None)
    return out


def m_name(u, n):
    return u.alias.get(n, n)


def writes_of(u, i, lv):
    def of(v):
        s = set()
        for r in u.roots(v, []):
            s |= lv.get(r, set())
        return s
    if i.op == 'store':
        return of(i.args[1][1])
    w = set()
    if i.op in ('call', 'invoke'):
        ls = [of(a[1]) for a in i.args]
        if any(ls):
            for l, s in zip(ls, u.summary(i.x['callee'], len(i.args))):
                if l and 'w0' in s:
                    w |= l
                if l and 'w1' in s:
                    w.add(1)
    if i.op == 'unsupported' and i.text and re.search(r'\b(atomicrmw|cmpxchg)\b', i.text):
        mm = re.search(r'ptr ([%@](?:"[^"]*"|[-\w$.]+))', i.text)
        if mm:
            w |= lv.get(mm.group(1), set())
    return w


def exception_type(u, t, seen=()):
    """True, False, or None when the type is not known here"""
    if STD_EXCEPTIONS.match(t):
        return True
    g = u.m.globals.get('@' + t)
    if t in seen or g is None:
        return None
    if g['external'] or '_ZTI' not in g['text'].split(' = ', 1)[1]:
        # a fundamental type, a pointer, a class without bases; or declared only
        return None if g['external'] and not re.match(r'_ZTI(P?K?[a-z]$|NSt7__cxx1112basic_string|Ss)', t) else False
    bases = [b for b in re.findall(r'@(_ZTI[\w$.]+)', g['text'].split(' = ', 1)[1]) if b != t]
    r = [exception_type(u, b, seen + (t,)) for b in bases]
    return True if True in r else None if None in r else False


def handlers(fn, u):
    """callees whose exceptions end in std::terminate here, and those whose exceptions leave the function"""
    term, leave = set(), set()
    for b in fn.order:
        for i in fn.blocks[b].insts:
            if i.op not in ('call', 'invoke') or i.x['callee'].startswith('@llvm.'):
                continue
            c = u.alias.get(i.x['callee'], i.x['callee'])
            pad = fn.blocks.get(i.x['unwind']) if i.op == 'invoke' else None
            lp = next((x for x in pad.insts if x.op == 'landingpad'), None) if pad else None
            if lp is not None and ('null' in lp.x or '@_ZTISt9exception' in lp.x):
                if terminates(fn, i.x['unwind']):
                    term.add(c)
                elif rethrows(fn, i.x['unwind']):
                    leave.add(c)
                continue
            leave.add(c)
    return term, leave


def terminates(fn, b):
    """the handler does nothing but end the process"""
    for _ in range(6):
        bl = fn.blocks[b]
        for i in bl.insts:
            if i.op in ('call', 'invoke') and i.x['callee'] == '@__clang_call_terminate':
                return True
            if i.op == 'call' and i.x['callee'] == '@__cxa_begin_catch':
                return False
        s = bl.succs()
        if len(s) != 1:
            return False
        b = s[0]
    return False


def rethrows(fn, b):
    """a handler throws again"""
    seen, todo = set(), [b]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        for i in fn.blocks[x].insts:
            if i.op in ('call', 'invoke') and i.x['callee'] in ('@__cxa_rethrow', '@__cxa_throw'):
                return True
            if i.op == 'call' and i.x['callee'] == '@__cxa_end_catch':
                break
        else:
            todo += fn.blocks[x].succs()
    return False


def beyond_enum(u, fn, b, sp):
    """the block is reached only for values that are none of the enumerators of an argument"""
    m = u.m
    sizes = set()
    for k, raw in m._mdraw.items():
        if '!DILocalVariable(' in raw and 'arg: ' in raw and m._ref(m.mdnode(k).get('scope')) == sp:
            t = m._ref(m.mdnode(k).get('type'))
            for _ in range(10):
                if t is None:
                    break
                if 'DW_TAG_enumeration_type' in m._mdraw.get(t, ''):
                    e = m._ref(m.mdnode(t).get('elements'))
                    sizes.add(len(re.findall(r'!\d+', m._mdraw.get(e, ''))))
                    break
                t = m._ref(m.mdnode(t).get('baseType'))
    preds = [x for x in fn.order if b in fn.blocks[x].succs()]
    return bool(preds) and all(fn.blocks[x].insts[-1].op == 'switch' and fn.blocks[x].insts[-1].x[0] == b and len({c for c, _ in fn.blocks[x].insts[-1].x[1]}) in sizes for x in preds)


def escapes(facts):
    """exceptions thrown in the repository that end in std::terminate"""
    calls, term, repo, out = {}, {}, {}, set()
    for o in facts:
        for n, (c, t, tm, r) in o['edges'].items():
            calls.setdefault(n, set()).update(c)
            term.setdefault(n, set()).update(tm)
            repo[n] = repo.get(n) or r
            if t:
                out.add(n)
    users = {}
    for n, cs in calls.items():
        for c in cs:
            users.setdefault(c, []).append(n)
    todo = list(out)
    while todo:
        for k in users.get(todo.pop(), ()):
            if k not in out:
                out.add(k)
                todo.append(k)
    return out, [(n, c, repo[n]) for n, t in sorted(term.items()) for c in sorted(t) if c in out or c == '@__cxa_throw' and repo[n]], term, repo


def compile_unit(job):
    try:
        return _compile_unit(job)
    except build.BuildError:
        if not job[0].endswith('/headers.cpp'):
            raise
        return None   # a header that needs others before it: its functions are seen where they are used


def _compile_unit(job):
    src, extra, gen, out = job
    fl = [x for x in build.flags(list(extra)) if x != '-gline-tables-only']
    build.run(['clang++'] + fl + ['-g', '-I' + gen, '-I' + os.path.join(build.VERIF, 'laws'), src, '-o', out + '.bc'])
    build.run(['opt', '-S', '-passes=function(sroa,simplifycfg)', out + '.bc', '-o', out + '.ll'])
    os.remove(out + '.bc')
    return src, out + '.ll', build.REPO


def run(witnesses):
    """facts of all the units; witnesses: (law file, options)"""
    tmp = tempfile.mkdtemp(prefix='almath-ef-')
    try:
        gen = build.api_header(tmp)
        srcs = []
        for r, ds, fs in os.walk(os.path.join(build.REPO, 'src')):
            srcs += [(os.path.join(r, f), []) for f in fs if f.endswith('.cpp')]
        if not srcs:
            raise build.BuildError('no library sources found under %s/src' % build.REPO)
        # what the headers define, used or not
        heads = sorted(os.path.relpath(os.path.join(r, f), build.REPO) for r, ds, fs in os.walk(os.path.join(build.REPO, 'almath')) for f in fs if f.endswith(('.h', '.hpp')))
        heads = [h for h in heads if not re.search(r'namespace qi\b|\bqi::|<(qi|ros)/', open(os.path.join(build.REPO, h), errors='replace').read())]
        with open(os.path.join(tmp, 'headers.cpp'), 'w') as fh:
            fh.write(''.join('#include <%s>\n' % h for h in heads))
        srcs.append((os.path.join(tmp, 'headers.cpp'), ['-femit-all-decls', '-I' + os.path.join(build.VERIF, 'laws', 'stub')]))
        jobs = [(s, tuple(e), gen, os.path.join(tmp, 'u%03d' % k)) for k, (s, e) in enumerate(sorted(srcs) + list(witnesses))]
        jobs.sort(key=lambda j: -weight(j[0]))
        with concurrent.futures.ThreadPoolExecutor(os.cpu_count()) as ex:
            todo = [x for x in ex.map(compile_unit, jobs) if x]
        with mp.Pool(os.cpu_count()) as pool:
            return list(pool.imap_unordered(analyse, todo))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def weight(s):
    return ('headers' in s or 'urdf' in s or 'collada' in s or 'qianim' in s, os.path.getsize(s))[0] * 10 ** 9 + os.path.getsize(s)


RULES = {'effects': ('static storage', 'const', 'sources'), 'failures': ('failures',)}


def analysis(which, witnesses):
    def go(tier):
        facts = run(witnesses())
        fns, statics, consts, throws, und = {}, {}, set(), {}, []
        calls = 0
        seen, findings = set(), []
        for o in facts:
            fns.update(o['functions'])
            statics.update(o['statics'])
            consts |= set(o['const'])
            throws.update(o['throws'])
            calls += o['calls']
            und += o['undecided']
            for f in o['findings']:
                if f['rule'] in RULES[which] and (f['key'], f['loc']) not in seen:
                    seen.add((f['key'], f['loc']))
                    findings.append(dict(f, guard='always', functions=[]))
        if not fns:
            raise build.BuildError('no function of the repository found')
        ev = {'translation units': len(facts), 'functions': len(fns), 'calls': calls}
        if which == 'effects':
            n = len(fns) * 2 + len(consts) + len(statics)
            ev.update({'variables of static storage': statics, 'arguments by reference or pointer to const': len(consts)})
        else:
            out, bad, term, repo = escapes(facts)
            for g, c, r in bad:
                findings.append({'rule': 'failures', 'key': 'noexcept:%s:%s' % (demangle(g)[:160], demangle(c)[:160]), 'guard': 'always', 'functions': [], 'loc': r or demangle(g)[:200],
                                 'msg': 'an exception %s ends the process in %s, which must not throw' % ('thrown there' if c == '@__cxa_throw' else 'that leaves ' + demangle(c)[:160], demangle(g)[:160])})
            n = len(fns) + sum(map(len, throws.values())) + len(term)
            ev.update({'functions that throw': {k: sorted(set(v)) for k, v in sorted(throws.items())}, 'functions that may let an exception out': sum(1 for x in out if repo.get(x)), 'calls guarded by std::terminate': len(term)})
        findings.sort(key=lambda f: (f['key'], f['loc']))
        return {'name': which, 'findings': findings, 'obligations': n, 'functions': sorted(fns), 'sources': sorted({f.split(':')[0] for f in fns}), 'undecided': und, 'evidence': ev}
    return go
