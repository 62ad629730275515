"""Evaluate every law function of a module in worker processes."""
import gc
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback

sys.setrecursionlimit(100000)
import algebra as al
import irparse
import veval
import judge

_mod = None
_shape = False


def _init(text, shape=False):
    global _mod, _shape
    _shape = shape
    _mod = irparse.Module(text)
    gc.disable()  # between cases only
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


def source_functions(f, fns):
    for b in f.blocks.values():
        for i in b.insts:
            if i.dbg is not None:
                for fn, fi, ln in _mod.loc_chain(i.dbg):
                    if fi and fi.startswith(judge.ROOT):
                        fns.add('%s:%s' % (fi[len(judge.ROOT):], fn))


SLICE = 4  # seconds after which a worker hands back the cases it has not started


def one(job):
    """the cases of a law below the given choices; returns (result, choices left to others)"""
    name, limit, work = job
    t = time.time()
    out = {'law': name, 'obligations': 0, 'findings': [], 'undecided': [], 'error': None, 'functions': [], 'cases': 0,
           'steps': 0, 'unknown': {}, 'throws': 0}
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    fns = set()
    work = list(work)
    preset = []
    try:
        while work and (time.time() < t + SLICE or not out['cases']):
            preset = work.pop()
            al.reset()
            ev = veval.Evaluator(_mod)
            if _shape:
                ev.shape = True
                ev.maxdepth = 250
                ev.MAXITER = 2000
                ev.MAXSTEPS = 8000000
                al.DDS.limit = 6000000
            mem = {}
            if _shape:
                # static objects are constructed first
                for c in _mod.constructors():
                    _, m, _ = ev.run(c, mem=mem)
                    mem = m if m is not None else mem
            ev.preset = preset
            stop = None
            try:
                ev.run('@' + name, mem=mem)
            except (veval.Unsupported, al.TooBig) as e:
                # what was established before the construct that cannot be followed still counts
                if not _shape:
                    raise
                stop = '%s: %s (case %s)' % (type(e).__name__, e, [c for _, _, c in ev.picks])
            n, fi, un = judge.judge(_mod, name, ev.res, bool(stop))
            if stop:
                out['error'] = out['error'] or stop
                out['stopped'] = out.get('stopped', 0) + 1
                n, un = len(fi), []
                if out['stopped'] >= 20 and not fi:
                    work = []
            case = ', '.join('%s=%d' % (tg, c) for tg, _, c in ev.picks)
            for x in fi + un:
                if case:
                    x.guard = ('[%s] ' % case) + x.guard
            out['obligations'] += n
            out['findings'] += [x.__dict__ for x in fi]
            out['undecided'] += [x.__dict__ for x in un]
            out['steps'] += ev.steps
            out['cases'] += 1
            for k, v in ev.res.unknown_calls.items():
                out['unknown'][k] = out['unknown'].get(k, 0) + v
            out['throws'] += len(ev.res.throws)
            fns |= ev.fns
            if len(al.DDS.memo) > 200000:
                al.reset()
                ev.res = None
                gc.collect()
            # the other values of the finite choices made first here
            if stop and not work and out['stopped'] >= 20:
                break
            p = [c for _, _, c in ev.picks]
            for i in range(len(preset), len(p)):
                for c in range(1, ev.picks[i][1]):
                    work.append(p[:i] + [c])
    except Timeout:
        out['error'] = 'time limit of %d s' % limit
    except (veval.Unsupported, al.TooBig, RecursionError, MemoryError) as e:
        out['error'] = '%s: %s' % (type(e).__name__, e)
        if os.environ.get('LAWTRACE'):
            out['error'] += traceback.format_exc()[-1500:]
    except Exception as e:
        out['error'] = 'internal %s: %s %s' % (type(e).__name__, e, traceback.format_exc()[-900:])
    finally:
        signal.alarm(0)
    names = set()
    for fn in fns | {'@' + name}:
        f = _mod.function(fn)
        if f is not None:
            source_functions(f, names)
    out['functions'] = sorted(names)
    if out['error'] and preset and '(case' not in out['error']:
        out['error'] += ' (case %s)' % preset
    out['wall'] = round(time.time() - t, 2)
    return out, work if not out['error'] or out.get('stopped') else []


def run_laws(text, names, limit=120, procs=8, shape=False, budget=600):
    """limit: seconds for a case; budget: seconds for everything"""
    res = {}
    deadline = time.time() + budget
    with mp.Pool(procs, _init, (text, shape)) as p:
        todo = [(n, limit, [[]]) for n in names]
        run = []
        left = {}
        while todo or run:
            while todo and len(run) < 2 * procs:
                run.append(p.apply_async(one, (todo.pop(0),)))
            run[0].wait(0.02)
            keep = []
            for r in run:
                if not r.ready():
                    keep.append(r)
                    continue
                o, work = r.get()
                n = o['law']
                if n not in res:
                    res[n] = o
                else:
                    m = res[n]
                    for k in ('obligations', 'findings', 'undecided', 'steps', 'cases', 'throws', 'wall'):
                        m[k] += o[k]
                    for k, v in o['unknown'].items():
                        m['unknown'][k] = m['unknown'].get(k, 0) + v
                    m['functions'] = sorted(set(m['functions']) | set(o['functions']))
                    m['error'] = m['error'] or o['error']
                if work and not (o['error'] and not o.get('stopped')) and res[n].get('stops', 0) < 40:
                    res[n]['stops'] = res[n].get('stops', 0) + o.get('stopped', 0)
                    if time.time() > deadline:
                        res[n]['error'] = res[n]['error'] or 'time limit of %d s (all laws)' % budget
                    else:
                        # spread the remaining cases over the workers
                        k = min(len(work), procs)
                        todo = [(n, limit, work[i::k]) for i in range(k)] + todo
            run = keep
    for r in res.values():
        for k in ('findings', 'undecided'):
            r[k].sort(key=lambda x: (x['tag'], x['guard'], x['msg']))
    return [res[n] for n in names]


if __name__ == '__main__':
    import build
    import props
    laws = sys.argv[1].split(',')
    kw = dict(props.BUILD.get(laws[0], {}))
    flags = kw.pop('flags', [])
    text, info = build.build([os.path.join(build.VERIF, 'laws', l + '.cpp') for l in laws], keep='/tmp/last.ll', extra=flags, **kw)
    names = [n for n in info['laws'] if (len(sys.argv) < 3 and not n.startswith("law_t_")) or any(x in n for x in sys.argv[2:])]
    t = time.time()
    tot = 0
    for r in run_laws(text, names, shape=kw.get('shape', False)):
        tot += r['obligations']
        print('%-40s %3d obligations %3d cases %8d steps %6.2fs %s' % (r['law'], r['obligations'], r['cases'], r['steps'], r['wall'], 'ERROR ' + r['error'] if r['error'] else ''))
        for f in r['findings'][:6]:
            print('   FINDING [%s] %s\n      when %s\n      at %s' % (f['tag'], f['msg'][:250], f['guard'][:250] + ' e.g. ' + f['example'], f['loc'][:200]))
        for f in r['undecided'][:3]:
            print('   UNDECIDED [%s] %s\n      when %s' % (f['tag'], f['msg'][:300], f['guard'][:int(os.environ.get('LAWWIDTH', 300))]))
        if r.get('unknown'):
            print('   unknown calls', {k: v for k, v in r['unknown'].items() if not k.startswith(veval.Evaluator.PUREUNK)})
    print('total obligations', tot, 'time', round(time.time() - t, 1))
