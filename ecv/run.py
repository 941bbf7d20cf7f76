"""compile the real sources to IR and verify a list of functions in parallel"""
import os, subprocess, sys, time, importlib, json, shutil, tempfile, traceback
from concurrent.futures import ThreadPoolExecutor
import multiprocessing as mp

REPO = os.environ.get('ECV_REPO', '/repo')
INCL = ['BASICS', 'INOUT', 'TERMS', 'ORDERINGS', 'CLAUSES', 'PROPOSITIONAL', 'LEARN', 'PCL2', 'HEURISTICS', 'CONTROL',
        'PROVER', 'CONTRIB/picosat-965']
DEFS = ('-DNDEBUG -DFAST_EXIT -DSTACK_SIZE=32768 -DCLAUSE_PERM_IDENT -DMEMORY_RESERVE_PARANOID '
        '-DPRINT_SOMEERRORS_STDOUT -DPRINT_TSTP_STATUS -DTAGGED_POINTERS').split()


def incs():
    return ['-I%s/%s' % (REPO, d) for d in INCL]


def locate(src):
    if src.startswith('@'):
        return os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs', 'src', src[1:])
    return os.path.join(REPO, src)


class CompileError(Exception):
    pass


def compile_one(src, out, extra=()):
    ll = out + '.0.ll'
    cmd = ['clang', '-w', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-g', '-std=gnu99'] + DEFS + \
        list(extra) + incs() + ['-S', '-emit-llvm', locate(src), '-o', ll]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise CompileError("clang failed on %s:\n%s" % (src, p.stderr[-2000:]))
    p = subprocess.run(['opt', '-S', '-passes=sroa,simplifycfg<no-switch-to-lookup;no-hoist-common-insts;no-sink-common-insts>,loop-simplify',
                        ll, '-o', out], capture_output=True, text=True)
    if p.returncode:
        raise CompileError("opt failed on %s:\n%s" % (src, p.stderr[-2000:]))
    os.unlink(ll)
    return out


def compile_ir(srcs, outdir, extra=()):
    os.makedirs(outdir, exist_ok=True)

    def one(s):
        return compile_one(s, os.path.join(outdir, s.replace('/', '_')[:-2] + '.ll'), extra)
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, srcs))


_W = {}


def _init(modname, paths, opts):
    from . import engine
    spec = importlib.import_module('specs.' + modname)
    _W['spec'] = spec
    _W['prog'] = engine.Program(paths)
    _W['opts'] = opts


def _job(job):
    from . import engine
    kind, name = job
    spec = _W['spec']
    t0 = time.time()
    res = dict(kind=kind, name=name, obligations=[], error=None)
    try:
        if kind == 'lemma':
            res['obligations'] = [o.asdict() for o in engine.check_lemma(spec.LEMMAS()[name], name, max(60, _W['opts'].get('timeout', 30)))]
        else:
            v = engine.Verifier(_W['prog'], spec.contracts(), timeout=_W['opts'].get('timeout', 20), verbose=_W['opts'].get('verbose', 0))
            v.contract_params = getattr(spec, 'PARAMS', {})
            if hasattr(spec, 'configure'):
                spec.configure(v)
            res['obligations'] = [o.asdict() for o in v.verify_roles(name)]
            res['paths'] = v.npaths
            res['used'] = sorted(v.used)
            res['inlined'] = sorted(v.inlined)
    except engine.SpecError as e:
        res['error'] = 'spec-mismatch: %s' % e
    except engine.Unsupported as e:
        res['error'] = 'unsupported: %s' % e
    except Exception as e:
        res['error'] = 'engine: %s' % e
        res['trace'] = traceback.format_exc()
    res['secs'] = round(time.time() - t0, 2)
    return res


def run_spec(modname, funcs=None, timeout=20, verbose=0, workdir=None, jobs=8, lemmas=True, deadline=None):
    spec = importlib.import_module('specs.' + modname)
    tmp = workdir or tempfile.mkdtemp(prefix='ecv.')
    try:
        paths = compile_ir(spec.SOURCES, tmp, getattr(spec, 'EXTRA', ()))
        todo = [('fn', f) for f in (funcs or spec.VERIFY)]
        if lemmas and funcs is None and hasattr(spec, 'LEMMAS'):
            todo += [('lemma', n) for n in spec.LEMMAS()]
        opts = dict(timeout=timeout, verbose=verbose)
        ctx = mp.get_context('fork')
        if jobs == 1:
            _init(modname, paths, opts)
            return [_job(j) for j in todo]
        with ctx.Pool(min(jobs, len(todo)), _init, (modname, paths, opts)) as pool:
            pend = [(j, pool.apply_async(_job, (j,))) for j in todo]
            out = []
            for (kind, name), h in pend:
                try:
                    out.append(h.get(None if deadline is None else max(0.1, deadline - time.time())))
                except mp.TimeoutError:
                    out.append(dict(kind=kind, name=name, obligations=[], error='the proof did not end within the time of this check', secs=0))
            pool.terminate()
            return out
    finally:
        if workdir is None:
            shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from ecv import run as R
    mod = sys.argv[1]
    fns = [a for a in sys.argv[2:] if not a.startswith('-')] or None
    verbose = 2 if '-v' in sys.argv else 0
    tmo = 20
    for a in sys.argv:
        if a.startswith('-t'):
            tmo = float(a[2:])
    t0 = time.time()
    rs = R.run_spec(mod, fns, verbose=verbose, timeout=tmo, jobs=1 if '-1' in sys.argv else 8)
    for r in rs:
        bad = [o for o in r['obligations'] if not o['ok']]
        print("%-28s %3d obligations, %d open, %.1fs %s" % (r['name'], len(r['obligations']), len(bad), r['secs'], r['error'] or ''))
        if r.get('trace'):
            print(r['trace'][-900:])
        if '-p' in sys.argv:
            for o in sorted(r['obligations'], key=lambda o: -o['secs'])[:12]:
                print("      %.2fs %s line %s %s" % (o['secs'], o['label'], o['line'], o['backend']))
        if '-q' not in sys.argv:
            for o in bad:
                print("    ", o['label'], 'line', o['line'], o['status'], o['detail'][:700])
    print("total %.1fs" % (time.time() - t0))
