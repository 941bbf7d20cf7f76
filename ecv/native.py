"""build the witness-search programs against the current sources of /repo and run them"""
import os, subprocess, shutil, tempfile, glob
from concurrent.futures import ThreadPoolExecutor
from . import run as R

LIBDIRS = ['BASICS', 'INOUT', 'TERMS', 'ORDERINGS', 'CLAUSES', 'PROPOSITIONAL', 'HEURISTICS', 'CONTROL', 'LEARN', 'PCL2']
CFLAGS = ['-w', '-O1', '-g', '-std=gnu99', '-fno-strict-aliasing', '-ffunction-sections', '-fdata-sections']


ASAN = ['-fsanitize=address', '-DUSE_SYSTEM_MEM', '-fno-omit-frame-pointer']


class BuildError(Exception):
    pass


def build_lib(out, extra=(), dirs=LIBDIRS, cc='gcc'):
    """compile every library source of the working tree; returns the archive"""
    os.makedirs(out, exist_ok=True)
    srcs = []
    for d in dirs:
        srcs += sorted(glob.glob('%s/%s/*.c' % (R.REPO, d)))
    srcs.append('%s/CONTRIB/picosat-965/picosat.c' % R.REPO)

    def one(s):
        o = os.path.join(out, os.path.basename(s)[:-2] + '.o')
        fl = ['-DTRACE'] if 'picosat' in s else []
        p = subprocess.run([cc] + CFLAGS + fl + R.DEFS + list(extra) + R.incs() + ['-c', s, '-o', o], capture_output=True, text=True)
        if p.returncode:
            return s, p.stderr
        return o, None
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, srcs))
    bad = [r for r in res if r[1] is not None]
    if bad:
        raise BuildError("\n".join("%s: %s" % (a, b[-800:]) for a, b in bad[:3]))
    lib = os.path.join(out, 'libe.a')
    subprocess.run(['ar', 'rcs', lib] + [r[0] for r in res], check=True)
    return lib


def build_prog(src, lib, out, extra=(), cc='gcc'):
    here = os.path.dirname(os.path.abspath(src))
    cmd = [cc] + CFLAGS + R.DEFS + list(extra) + ['-I' + here] + R.incs() + [src, '-o', out, '-Wl,--gc-sections', lib, '-lm']
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise BuildError("%s: %s" % (src, p.stderr[-1500:]))
    return out


def run_prog(prog, args, timeout, cwd, seed=None, budget=None):
    """returns dict(ok, witnesses, checked, text)"""
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0')
    if seed is not None:
        env['VERIF_SEED'] = str(seed)
    if budget:
        env['ECV_BUDGET'] = str(budget)
    try:
        p = subprocess.run(['timeout', '-k', '5', str(timeout), prog] + [str(a) for a in args], capture_output=True, text=True,
                           errors='replace', cwd=cwd, timeout=timeout + 30, env=env)
        out, rc, err = p.stdout, p.returncode, p.stderr
    except subprocess.TimeoutExpired:
        return dict(ok=None, witnesses=[], checked=0, text='timeout', rc=124)
    wit = [l for l in out.splitlines() if l.startswith('WITNESS ')]
    chk = 0
    for l in out.splitlines():
        if l.startswith('CHECKED '):
            chk = int(l.split()[1])
    return dict(rc=rc, witnesses=wit, checked=chk, text=(out[-3000:] + ('\n' + err[-1500:] if err else '')))
