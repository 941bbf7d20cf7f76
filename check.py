#!/usr/bin/env python3-vt
"""check.py <property> quick|thorough : decide one property on the current tree of /repo"""
import os, sys, time, json, importlib, tempfile, shutil, re, threading, traceback
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault('VERIF_SEED', '1')
from ecv import run as R, native as N, engine as E
from ecv.registry import PROPS
SHARDS = 4


def known_findings(pid):
    out = []
    p = os.path.join(HERE, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) match=/(.*)/ (.*)', l)
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2)), m.group(3).strip()))
    return out


def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    P = PROPS[pid]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='ecv.%s.' % pid)
    ev = dict(property=pid, tier=tier, seed=int(os.environ['VERIF_SEED']), level='proof', violations=0)
    out_dir = os.environ.get('ECV_EVID') or os.path.join(HERE, 'evidence')
    os.makedirs(out_dir, exist_ok=True)
    replay = os.path.join(out_dir, '%s.replay.txt' % pid)
    try:
        rc = decide(P, tier, work, ev, replay)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    ev['wall_s'] = round(time.time() - t0, 1)
    with open(os.path.join(out_dir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s %s: %d/%d obligations, %.0f s, exit %d" % (pid, tier, ev['coverage']['discharged'], ev['coverage']['obligations'], ev['wall_s'], rc))
    sys.exit(rc)


def decide(P, tier, work, ev, replay):
    pid = P.id
    T0 = time.time()
    thorough = tier == 'thorough'
    nat = {}
    lib = {}

    def native(deep, sub):
        """every search program in SHARDS copies with different seeds"""
        jobs, res = [], []
        budget = 0 if deep and thorough else int(max(20, min(200, 820 - (time.time() - T0)))) if deep else 100
        shards = SHARDS * 2 if deep else SHARDS
        cwd = os.path.join(work, 'cwd.' + sub)
        os.makedirs(cwd, exist_ok=True)
        kinds = sorted(set(p[0].startswith('=') for p in P.native))
        with ThreadPoolExecutor(2) as ex:
            def lb(plain):
                try:
                    return N.build_lib(os.path.join(work, 'lib%d' % plain), [] if plain else N.ASAN)
                except N.BuildError as e:
                    return e
            for k, l in zip(kinds, ex.map(lambda k: lib.get(k) or lb(k), kinds)):
                lib[k] = l
        for prog, q, t, what in P.native:
            plain = prog.startswith('=')      # '=' : with the production memory manager instead of the address sanitizer
            prog = prog.lstrip('=')
            try:
                if isinstance(lib[plain], Exception):
                    raise lib[plain]
                exe = N.build_prog(os.path.join(HERE, 'native', prog + '.c'), lib[plain], os.path.join(work, prog + str(plain)), [] if plain else N.ASAN)
            except N.BuildError as e:
                res.append(dict(prog=prog, error=str(e)[:1500], witnesses=[], checked=0, rc=None, text='', what=what))
                continue
            for i in range(shards):
                jobs.append((prog, exe, t if deep else q, what, int(os.environ['VERIF_SEED']) * 1000 + i + (500 if deep else 0), plain))

        def one(j):
            prog, exe, args, what, seed, plain = j
            r = N.run_prog(exe, args, (budget or 7200) + 100, cwd, seed, budget)
            r.update(prog=prog, args=args, what=what, error=None, seed=seed, build='production memory manager' if plain else 'address sanitizer')
            if not r['witnesses'] and r['rc'] not in (0, 1, 124):
                r['witnesses'] = ['WITNESS property=%s the code under test crashed (status %s) in %s; last output: %s' % (pid, r['rc'], prog, r['text'][-300:].replace('\n', ' | '))]
            return r
        with ThreadPoolExecutor(8) as ex:
            res += list(ex.map(one, jobs))
        return res

    t0 = time.time()
    dl = lambda s: t0 + (s if not thorough else 14400)
    nat['r'] = native(thorough, 'a')
    witnesses = [(r['prog'], w) for r in nat['r'] for w in r['witnesses']]
    kf = known_findings(pid)
    fresh = []
    seen = set()
    for prog, w in witnesses:
        hit = [d for rx, d in kf if rx.search(w)]
        if hit:
            if hit[0] not in seen:
                seen.add(hit[0])
                print("KNOWN-FINDING: property=%s %s" % (pid, hit[0]))
        else:
            fresh.append((prog, w))

    results = []
    gone = []
    for mod, fns in P.specs:
        spec = importlib.import_module('specs.' + mod)
        d = os.path.join(work, 'ir.' + mod)
        try:
            rs = R.run_spec(mod, fns, timeout=40 if thorough else 20, workdir=d, deadline=dl(430))
        except R.CompileError as e:
            gone.append(dict(name=mod, error='does not compile to IR: ' + str(e)[:600]))
            continue
        # a failed obligation is retried alone, with more time, before it counts
        again = [r['name'] for r in rs if r['kind'] == 'fn' and not r['error'] and any(not o['ok'] for o in r['obligations'])]
        if again and not fresh:
            rs2 = {r['name']: r for r in R.run_spec(mod, again, timeout=60, workdir=d, lemmas=False, deadline=dl(600))}
            rs = [r if rs2.get(r['name'], r)['error'] else rs2.get(r['name'], r) for r in rs]
        for r in rs:
            r['spec'] = mod
        results += rs

    ob = [o for r in results for o in r['obligations']]
    bad = []
    fns_proved, fns_open, lemmas, unproved = [], [], [], []
    for r in results:
        k = [o for o in r['obligations'] if not o['ok']]
        if r['error']:
            unproved.append(dict(function=r['name'], reason=r['error']))
        elif k and r['kind'] == 'lemma':
            # a lemma does not depend on the code: if the solver gives up on it the proof is incomplete, the code is not accused
            unproved.append(dict(function='lemma ' + r['name'], reason='the solver did not prove it within its time on this machine (%s)' % k[0]['status']))
        elif k:
            bad += k
            fns_open.append(r['name'])
        elif r['kind'] == 'lemma':
            lemmas.append(r['name'])
        else:
            fns_proved.append(dict(function=r['name'], obligations=len(r['obligations']), paths=r.get('paths'), seconds=r['secs'], inlined=r.get('inlined', [])))
    for g in gone:
        unproved.append(dict(function=g['name'], reason=g['error']))
    trusted = []
    used = set(u for r in results for u in r.get('used', []))
    notes = []
    for mod, fns in P.specs:
        spec = importlib.import_module('specs.' + mod)
        for c in spec.contracts():
            if c.trusted and c.name in used:
                trusted.append("%s: %s" % (c.name, c.doc))
        ver = set(spec.VERIFY)
        for c in spec.contracts():
            if not c.trusted and c.name not in ver and c.name in used:
                trusted.append("%s: contract used but not verified here. %s" % (c.name, c.doc))
        notes += getattr(spec, 'ASSUMES', [])
    backends = {}
    for o in ob:
        if o['ok']:
            b = backends.setdefault(o['backend'], [0, 0.0])
            b[0] += 1
            b[1] += o['secs']
    ev['coverage'] = dict(
        obligations=len(ob), discharged=sum(1 for o in ob if o['ok']),
        checker_cmd='cd /verif && python3-vt check.py %s %s' % (pid, tier),
        trusted_base=['clang 18 front end and opt (sroa, simplifycfg, loop-simplify)', 'ecv (verification condition generator in /verif/ecv)', 'z3 (python z3-solver)'] + trusted,
        functions_under_contract=fns_proved, lemmas=lemmas, open_functions=fns_open,
        not_proved_on_this_tree=unproved,
        backends={k: dict(obligations=v[0], solver_s=round(v[1], 2)) for k, v in backends.items()},
        bounded_stand_in=[dict(program=r['prog'], args=r.get('args'), cases=r['checked'], seed=r.get('seed'), build=r.get('build'), enumerates=r['what'], error=r['error']) for r in nat['r']],
        vacuity='for every function one return path was checked not to be contradictory; axioms of every lemma were checked not to be contradictory')
    ev['assumptions'] = E.ASSUMPTIONS + notes

    def write(kind, ws):
        with open(replay, 'w') as f:
            f.write("property %s: %s\n" % (pid, kind))
            for prog, w in ws:
                f.write("%s\n" % w)
            for prog, _ in dict(ws).items():
                r = [x for x in nat['r'] if x['prog'] == prog and x['witnesses']][0]
                f.write("replay: VERIF_SEED=%s, program /verif/native/%s.c linked with the sources of /repo (%s), arguments %s\n" % (r.get('seed'), prog, r.get('build'), r.get('args')))
            for o in bad:
                f.write("failed obligation: %s %s (line %s) status %s, %s\n   %s\n" % (o['function'], o['label'], o['line'], o['status'], o['backend'], o['detail']))
            for u in unproved:
                f.write("not proved on this tree: %s: %s\n" % (u['function'], u['reason']))

    for u in unproved:
        print("note: %s is not covered by the proof on this tree (%s); the bounded stand-in covers it" % (u['function'], u['reason'][:200]))
    if fresh:
        ev['violations'] = len(fresh) + len(bad)
        write('failing input found', fresh)
        for _, w in fresh[:3]:
            print(w[:600])
        for o in bad[:6]:
            print("failed obligation: %s %s line %s (%s)" % (o['function'], o['label'], o['line'], o['status']))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    if bad:
        nat['r'] = native(True, 'b')
        w2 = [(r['prog'], w) for r in nat['r'] for w in r['witnesses'] if not any(rx.search(w) for rx, _ in kf)]
        ev['violations'] = len(bad)
        for o in bad[:6]:
            print("failed obligation: %s %s line %s (%s)" % (o['function'], o['label'], o['line'], o['status']))
        write('failing input found' if w2 else 'obligation not discharged', w2)
        print("VIOLATION property=%s replay=%s%s" % (pid, replay, '' if w2 else ' no-failing-input-found'))
        return 1
    with open(replay, 'w') as f:
        f.write("no violation\n")
    return 0


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        sys.exit(2)
