"""Compile /repo's current sources and the law witnesses to one LLVM module."""
import glob
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('ALMATH_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LLVM = '/usr/lib/llvm-18/bin/'


class BuildError(Exception):
    pass


def flags(extra=()):
    gen = os.path.join(VERIF, 'gen')
    return ['-I' + REPO, '-I' + gen, '-I/usr/include/eigen3', '-DBOOST_CB_DISABLE_DEBUG', '-std=gnu++17', '-O1',
            '-Xclang', '-disable-llvm-passes', '-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off',
            '-fno-math-errno', '-ftrivial-auto-var-init=pattern', '-gline-tables-only', '-w', '-emit-llvm', '-c'] + list(extra)


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stderr.decode(errors='replace')[-4000:]))
    return r


def api_header(tmp):
    """the export header cmake generates, reproduced (visibility macros only)"""
    d = os.path.join(tmp, 'gen', 'almath')
    os.makedirs(d)
    with open(os.path.join(d, 'api.h'), 'w') as f:
        f.write('#ifndef ALMATH_API_H\n#define ALMATH_API_H\n#define ALMATH_API\n'
                '#define ALMATH_DEPRECATED\n#define ALMATH_API_DEPRECATED\n#define ALMATH_NO_EXPORT\n#endif\n')
    idl_header(os.path.join(tmp, 'gen'))
    swig_header(os.path.join(tmp, 'gen'))
    return os.path.join(tmp, 'gen')


IDL_TYPES = {'float64': 'double', 'float32': 'float', 'int32': 'int', 'int64': 'long', 'bool': 'bool', 'str': 'std::string', 'qitimepoint': 'long'}


def idl_header(gen):
    """the structs qi's generator writes for qi/geometry/geometry.idl.qi: the members, in the order of the file"""
    p = os.path.join(REPO, 'qi', 'geometry', 'geometry.idl.qi')
    if not os.path.exists(p):
        return
    out = ['#pragma once', '#include <string>', 'namespace qi {', 'namespace geometry {']
    inside = False
    for ln in open(p):
        ln = ln.split('//')[0].strip()
        if ln.startswith('struct '):
            out.append('struct %s {' % ln.split()[1])
            inside = True
        elif ln == 'end' and inside:
            out.append('};')
            inside = False
        elif inside and ':' in ln:
            n, t = (x.strip() for x in ln.split(':', 1))
            out.append('  %s %s;' % (IDL_TYPES.get(t, t), n))
    out += ['}', '}', '']
    d = os.path.join(gen, 'qi', 'geometry')
    os.makedirs(d)
    with open(os.path.join(d, 'geometry.hpp'), 'w') as f:
        f.write('\n'.join(out))


def closing(s, i):
    """index after the brace that closes the one at i (strings and comments are skipped)"""
    d = 0
    for m in re.finditer(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|//[^\n]*|/\*.*?\*/|[{}]', s[i:], re.S):
        d += {'{': 1, '}': -1}.get(m.group(), 0)
        if d == 0:
            return i + m.end()
    raise BuildError('unbalanced braces')


def swig_header(gen):
    """the C++ functions almath.i adds to the types for Python (%extend blocks), as overloads ext_<name>(T *self, ...)
    and, for plain types, under the name SWIG gives them"""
    p = os.path.join(REPO, 'almath.i')
    if not os.path.exists(p):
        return
    s = open(p).read()
    decl, body = [], []
    for m in re.finditer(r'%extend\s+([\w:<> ]+?)\s*\{', s):
        e = closing(s, m.end() - 1)
        block = s[m.end():e - 1]
        t = re.sub(r'(?<![:\w])vector<', 'std::vector<', m.group(1))
        at = 0
        for f in re.finditer(r'(?:^|(?<=[;}\n]))[ \t]*((?:[\w:<>]+(?:\s*[*&])*\s+)+[*&\s]*?|[\w:<>]+\s*[*&]\s*)(\w+)\s*\(([^)]*)\)\s*(const)?\s*\{', block):
            if f.start() < at:
                continue
            end = closing(block, f.end() - 1)
            at = end
            ret, name, args, cst = f.group(1).strip(), f.group(2), f.group(3).strip(), f.group(4)
            self_ = ('const ' if cst else '') + t + ' *self'
            code = block[f.end() - 1:end].replace('$self', 'self')
            names = [a.split('=')[0].split()[-1].lstrip('*&') for a in args.split(',') if a.strip()]
            sig = '(%s)' % ', '.join([self_] + ([args] if args else []))
            own = 'ext_%s' % name if '<' in t else '%s_%s' % (t.replace('::', '_'), name)
            decl.append('static %s %s%s;' % (ret, own, sig))
            body.append('static %s %s%s %s' % (ret, own, sig, code))
            if own != 'ext_' + name:
                body.append('static %s ext_%s%s { return %s(%s); }' % (ret, name, sig, own, ', '.join(['self'] + names)))
    with open(os.path.join(gen, 'almath_i.hpp'), 'w') as f:
        f.write('\n'.join(decl + body) + '\n')


MATH_DIRS = ('types', 'tools', 'dsp', 'geometrics')


def sources(dirs):
    out = []
    for d in dirs:
        out += sorted(glob.glob(os.path.join(REPO, 'src', d, '*.cpp')))
    return out


# documents and containers: multi_index without tagged pointers, the libstdc++ models of laws/rt.cpp, plain inlining
SHAPE = ['-DBOOST_MULTI_INDEX_DISABLE_COMPRESSED_ORDERED_INDEX_NODES', '-ftrivial-auto-var-init=uninitialized',
         '-DBOOST_DISABLE_ASSERTS', '-fno-strict-aliasing', '-DEIGEN_DONT_VECTORIZE']


def build(laws, dirs=MATH_DIRS, only=None, keep=None, extra=(), passes=None, extra_src=(), shape=False, override=(), module=()):
    """returns (text of optimised module, info)"""
    tmp = tempfile.mkdtemp(prefix='almath-ir-')
    try:
        gen = api_header(tmp)
        srcs = [s for s in sources(dirs) if only is None or os.path.basename(s) in only]
        if not srcs:
            raise BuildError('no library sources found under %s/src' % REPO)
        srcs += [os.path.join(REPO, m) for m in module]
        jobs = []
        if shape:
            extra = list(extra) + SHAPE
            extra_src = list(extra_src) + [os.path.join(VERIF, 'laws', 'rt.cpp')]
        over = [os.path.join(VERIF, 'laws', o) for o in override]
        for s in srcs + list(laws) + list(extra_src) + over:
            o = os.path.join(tmp, s.replace('/', '_') + '.bc')
            jobs.append((s, o))

        def one(j):
            s, o = j
            run(['clang++'] + flags(extra) + ['-I' + gen, '-I' + os.path.join(VERIF, 'laws'), s, '-o', o])
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(one, jobs))
        allbc = os.path.join(tmp, 'all.bc')
        run([LLVM + 'llvm-link'] + [o for s, o in jobs if s not in over] + ['--override=' + o for s, o in jobs if s in over] + ['-o', allbc])
        names = subprocess.run([LLVM + 'llvm-nm', '--defined-only', allbc], stdout=subprocess.PIPE).stdout.decode()
        lawfns = sorted({ln.split()[-1] for ln in names.splitlines() if ln.split() and ln.split()[-1].startswith('law_')})
        if not lawfns:
            raise BuildError('no law functions')
        ll = os.path.join(tmp, 'all.ll')
        run([LLVM + 'opt', '-passes=' + (passes or 'internalize,globaldce,default<O2>,lcssa'),
             '-internalize-public-api-list=' + ','.join(lawfns), ] + ([] if shape else ['-inline-threshold=1000000']) + [
             '-vectorize-loops=false', '-vectorize-slp=false', allbc, '-S', '-o', ll])
        with open(ll) as f:
            text = f.read()
        if keep:
            shutil.copy(ll, keep)
        return text, {'sources': [os.path.relpath(s, REPO) for s in srcs], 'laws': lawfns}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
