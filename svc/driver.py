"""Driver: compile /repo's headers, generate obligations for every contract, discharge them, fall back, report."""
import concurrent.futures as cf
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

import z3

from . import core, contract as ct
from .llparse import parse_module, func_body
from .core import Ctx, Unsupported, MissingContract, has_quant

REPO = os.environ.get('SVC_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = '/usr/bin/clang++'
OPT = '/usr/lib/llvm-18/bin/opt'
CXXFILT = '/usr/lib/llvm-18/bin/llvm-cxxfilt'
CVC5 = '/usr/bin/cvc5'


class Unit:
    """one translation unit with the contracts that apply in it"""

    def __init__(self, name, src, contracts, mode=core.INT, std='c++14', flags=(), ext=None, loops=None, unroll=4096,
                 max_depth=400, timeout=10, roots=None, step_limit=400000, assume=None, need=()):
        self.name, self.src, self.contracts, self.mode, self.std, self.flags = name, src, contracts, mode, std, list(flags)
        self.ext = ext or {}
        self.loops = loops
        self.unroll = unroll
        self.max_depth = max_depth
        self.timeout = timeout
        self.step_limit = step_limit
        self.assume = assume
        self.need = need
        self.native = None


def lemmas(name, src, contracts=(), native=True, cxx=('g++',), nflags=('-O1',), secs=(5, 40), nstd=None, skip=(), **k):
    """a unit whose functions lemma_* state contracts of the real functions they call (svc/lemma.hpp)"""
    pre = '#include <svc/lemma.hpp>\n'
    u = Unit(name, pre + src, list(contracts) + [ct.Contract(n, [], lambda c: None, lemma=True) for n in lemma_names(src) if n not in skip], **k)
    u.flags.append('-I' + VERIF)
    u.native = None
    if native:
        u.native = Native(name + '_replay', '#define SVC_NATIVE\n' + pre + src + '\n#include <svc/lemma_main.hpp>\n', cxx=cxx, std=nstd or k.get('std', 'c++14'),
                          flags=list(nflags) + ['-I' + VERIF] + list(k.get('flags', ())), secs=secs)
    return u


def lemma_names(src):
    return ['lemma_' + m for m in re.findall(r'^LEMMA\(\s*(\w+)\s*\)', src, re.M)]


class Native:
    """bounded stand-in / replay harness: a C++ program compiled against /repo.
    Program protocol: argv = seed seconds ; prints 'FAIL <description>' + exit 1 on a violation, else 'OK <count> <distinct>'"""

    def __init__(self, name, src, cxx=('g++',), std='c++14', flags=('-O1',), san=True, secs=(6, 40)):
        self.name, self.src, self.cxx, self.std, self.flags, self.san, self.secs = name, src, cxx, std, list(flags), san, secs


def run(cmd, timeout=None, inp=None, cwd=None):
    try:
        p = subprocess.run(cmd, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=cwd,
                           text=True, errors='replace')
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return -9, (e.stdout or b'').decode('utf8', 'replace') if isinstance(e.stdout, bytes) else (e.stdout or ''), 'timeout'


def compile_unit(u, tmp):
    src = os.path.join(tmp, u.name + '.cpp')
    ll = os.path.join(tmp, u.name + '.ll')
    with open(src, 'w') as f:
        f.write(u.src)
    cmd = [CLANG, '-std=' + u.std, '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names',
           '-fno-delete-null-pointer-checks', '-w', '-ftemplate-depth=1200', '-fconstexpr-steps=20000000',
           '-I' + REPO] + u.flags + ['-S', '-emit-llvm', src, '-o', ll]
    rc, o, e = run(cmd, 400)
    if rc != 0:
        return None, 'clang failed: ' + e[:3000]
    rc, o, e = run([OPT, '-passes=sroa,loop-simplify,lcssa', '-S', ll, '-o', ll + '2'], 300)
    if rc != 0:
        return None, 'opt failed: ' + e[:2000]
    return ll + '2', ' '.join(cmd)


class Prepared:
    pass


def prepare(u, ll):
    p = Prepared()
    p.unit = u
    p.mod = parse_module(open(ll).read())
    names = list(p.mod.funcs) + list(p.mod.decls)
    rc, o, e = run([CXXFILT], 60, '\n'.join('_' + n[1:] if n.startswith('_') else n for n in names) + '\n')
    dem = o.split('\n')
    p.dem = dict(zip(names, dem))
    p.base = {n: ct.base_name(p.dem[n]) for n in names}
    # call graph for recursion detection
    cg = {}
    for n, body in p.mod._bodies.items():
        s = set()
        for ln in body:
            if 'call ' in ln or 'invoke ' in ln:
                for m in re.finditer(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', ln):
                    s.add(m.group(1).strip('"'))
        cg[n] = s
    p.cg = cg
    p.scc = scc(cg)
    p.tasks = []
    p.cmap = {}
    p.missing = []
    for c in u.contracts:
        hit = False
        for n in p.mod.funcs:
            f = p.mod.funcs[n]
            if n in p.cmap:
                continue
            if c.matches(f, p.base[n], p.dem[n]):
                p.cmap[n] = c
                hit = True
                if c.verify and not c.trusted:
                    p.tasks.append((c, n))
        if not hit:
            p.missing.append(c.label)
    return p


def scc(cg):
    idx, low, onst, st, comp = {}, {}, set(), [], {}
    cnt = [0]
    for root in cg:
        if root in idx:
            continue
        work = [(root, iter(cg.get(root, ())))]
        idx[root] = low[root] = cnt[0]
        cnt[0] += 1
        st.append(root)
        onst.add(root)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in cg:
                    continue
                if w not in idx:
                    idx[w] = low[w] = cnt[0]
                    cnt[0] += 1
                    st.append(w)
                    onst.add(w)
                    work.append((w, iter(cg[w])))
                    adv = True
                    break
                elif w in onst:
                    low[v] = min(low[v], idx[w])
            if adv:
                continue
            work.pop()
            if work:
                low[work[-1][0]] = min(low[work[-1][0]], low[v])
            if low[v] == idx[v]:
                while True:
                    w = st.pop()
                    onst.discard(w)
                    comp[w] = v
                    if w == v:
                        break
    return comp


PREP = {}
DEADLINE = [0.0]


def make_ctx(p, c):
    u = p.unit
    mode = c.mode or u.mode
    ext = {}
    for n in p.dem:
        for pat, h in u.ext.items():
            if n in p.mod.decls and re.search(pat, p.dem[n]):
                ext[n] = h

    def loops(fname, ordinal):
        if c.loops and fname:
            r = c.loops(p.base.get(fname, fname), ordinal)
            if r is not None:
                return r
        if u.loops:
            return u.loops(p.base.get(fname, fname), ordinal)
        return None
    ctx = Ctx(p.mod, mode, contracts=p.cmap.get, ext=ext, demangle=lambda s: p.dem.get(s, s), loops=loops,
              unroll=u.unroll, max_depth=u.max_depth)
    ctx.step_limit = u.step_limit
    ctx.qs.set('random_seed', 1)
    ctx.root = None
    ctx.recursive = lambda fname: p.scc.get(fname) == p.scc.get(ctx.root)
    if u.assume:
        u.assume(ctx)
    return ctx


def smt2(assume, guard, goal):
    s = z3.Solver()
    for a in assume:
        s.add(a)
    s.add(guard)
    s.add(z3.Not(goal))
    return s.to_smt2()


def cvc5_check(text, tmo):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('(set-logic ALL)\n' + text)
        nm = f.name
    try:
        rc, o, e = run([CVC5, '--tlimit=%d' % int(tmo * 1000), '--full-saturate-quant', nm], tmo + 5)
        o = o.strip().split('\n')[0] if o.strip() else 'unknown'
        return o if o in ('sat', 'unsat') else 'unknown'
    finally:
        os.unlink(nm)


def discharge(ctx, ob, tmo):
    """returns (result, backend, seconds, model-or-None)"""
    t0 = time.time()
    assume = ctx.assume[:ob.n_assume]
    quant = [a for a in assume if has_quant(a)]
    qf = [a for a in assume if not has_quant(a)]
    gq = has_quant(ob.goal) or has_quant(ob.guard)

    def z(assume_, t, opts=None):
        s = z3.Solver()
        s.set('timeout', int(t * 1000))
        s.set('random_seed', 1)
        for k, v in (opts or {}).items():
            s.set(k, v)
        for a in assume_:
            s.add(a)
        s.add(ob.guard)
        s.add(z3.Not(ob.goal))
        r = s.check()
        m = None
        if r == z3.sat:
            try:
                m = s.model()
            except z3.Z3Exception:
                m = None
        return str(r), m
    if quant:
        r, m = z(qf, min(2, tmo))
        if r == 'unsat':
            return 'unsat', 'z3', time.time() - t0, None
    if quant or gq:
        r, m = z(assume, min(5, tmo), {'mbqi': False, 'auto_config': False})
        if r == 'unsat':
            return 'unsat', 'z3', time.time() - t0, None
    r, m = z(assume, tmo)
    if r == 'sat' and (quant or gq) and cvc5_check(smt2(assume, ob.guard, ob.goal), 5) == 'unsat':      # a model of quantified formulas needs a second opinion
        return 'unsat', 'cvc5', time.time() - t0, None
    if r in ('unsat', 'sat'):
        return r, 'z3', time.time() - t0, m
    if time.time() > DEADLINE[0]:
        return 'unknown', 'none', time.time() - t0, None
    if quant or gq:
        r, m2 = z(assume, tmo, {'mbqi': False, 'auto_config': False})
        if r == 'unsat':
            return r, 'z3', time.time() - t0, None
    r = cvc5_check(smt2(assume, ob.guard, ob.goal), tmo * 2)
    if r == 'unsat':
        return r, 'cvc5', time.time() - t0, None
    if r == 'sat':
        return r, 'cvc5', time.time() - t0, None
    # refutation attempt on small objects
    small = []
    for reg in getattr(ctx, 'regs', {}).values():
        if z3.is_expr(reg.n):
            small.append(reg.n <= 4)
    if small:
        r, m = z(assume + small, tmo)
        if r == 'sat':
            return 'sat', 'z3 (small objects)', time.time() - t0, m
    return 'unknown', 'z3+cvc5', time.time() - t0, None


def show_model(ctx, m, info):
    if m is None:
        return ''
    out = []
    try:
        for nm, v in zip([n for n in info['params']], info['allviews']):
            if z3.is_expr(v):
                out.append('%s = %s' % (nm, m.eval(v, model_completion=True)))
        for nm, r in info['regs'].items():
            n = m.eval(ctx.idx(r.n), model_completion=True)
            k = n.as_long() if hasattr(n, 'as_long') else 0
            arr = z3.Const('arr_' + nm, info['mem0'][r.id].sort())
            out.append('%s: n = %s, [%s%s]' % (nm, n, ', '.join(str(m.eval(arr[ctx.idx(i)], model_completion=True))
                                                             for i in range(min(k, 12))), ', ...' if k > 12 else ''))
    except Exception as e:
        out.append('(model not printable: %s)' % e)
    return '; '.join(out)


def run_task(key):
    uname, cidx, fname, tmo = key
    p = PREP[uname]
    c = p.cmap[fname]
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    sys.setrecursionlimit(20000)
    z3.set_param('smt.random_seed', 1)
    t0 = time.time()
    res = {'fname': fname, 'unit': uname, 'contract': c.label, 'function': p.dem[fname], 'status': None, 'obls': [], 'seconds': 0,
           'inlined': [], 'assumed': [], 'trivial': 0, 'weak': c.weak}
    tmo = (c.timeout or 0) + tmo if c.timeout else tmo
    try:
        ctx = make_ctx(p, c)
        ctx.root = fname
        info = ct.verify(ctx, c, fname)
        info['allviews'] = info['views']
        res['inlined'] = sorted(p.base.get(x, x) for x in ctx.called if x != fname)
        res['assumed'] = sorted(ctx.used_contracts)
        res['trusted'] = sorted(ctx.trusted)
        res['trivial'] = ctx.interval_discharged
        if c.lemma:
            ctx.n_pre = len(ctx.assume)
        # vacuity: the precondition must be satisfiable
        s = z3.Solver()
        s.set('timeout', 4000)
        for a in ctx.assume[:ctx.n_pre]:
            s.add(a)
        r = s.check()
        if r == z3.unsat:
            res['status'] = 'vacuous'
            res['detail'] = 'the precondition is contradictory'
            return res
        res['pre_sat'] = str(r)
        # the function must be able to return (or the contract says it throws)
        if ctx.ret_guard is not False and ctx.ret_guard is not True:
            s = z3.Solver()
            s.set('timeout', 3000)
            for a in ctx.assume:
                if not has_quant(a):
                    s.add(a)
            s.add(ctx.ret_guard)
            if s.check() == z3.unsat:
                res['status'] = 'vacuous'
                res['detail'] = 'no execution returns under the precondition'
                return res
        if not any(o.kind in ('ensures', 'throw') for o in ctx.obls) and ctx.interval_discharged == 0:
            res['status'] = 'vacuous'
            res['detail'] = 'no postcondition obligation was generated'
            return res
        bad = False
        for ob in ctx.obls:
            if time.time() > DEADLINE[0]:
                res['obls'].append((ob.name, ob.kind, 'unknown', 'deadline', 0.0, ''))
                bad = True
                continue
            r, be, secs, m = discharge(ctx, ob, tmo if not bad else min(tmo, 4))
            if r != 'unsat' and os.environ.get('SVC_DUMP'):       # development aid: the obligation as SMT-LIB text
                s = z3.Solver()
                for a in ctx.assume[:ob.n_assume] + [ob.guard, z3.Not(ob.goal)]:
                    s.add(a)
                with open(os.path.join(os.environ['SVC_DUMP'], re.sub(r'\W+', '_', '%s %s' % (c.label, ob.name))[:80] + '.smt2'), 'w') as fh:
                    fh.write(s.to_smt2())
            if r == 'sat' and m is not None and getattr(ctx, 'tape', None):
                res.setdefault('tapes', []).append(tape_values(ctx, m))
            res['obls'].append((ob.name, ob.kind, r, be, round(secs, 3),
                                '' if r == 'unsat' else (show_model2(ctx, m, info, ob))))
            if r != 'unsat':
                bad = True
        st = set(o[2] for o in res['obls'])
        res['status'] = 'failed' if 'sat' in st else 'undecided' if st - {'unsat'} else 'proved'
    except Unsupported as e:
        res['status'] = 'unsupported'
        res['detail'] = '%s: %s' % (type(e).__name__, e)
    except RecursionError as e:
        res['status'] = 'unsupported'
        res['detail'] = 'recursion limit of the generator'
    except (z3.Z3Exception, MemoryError, Exception) as e:
        res['status'] = 'unsupported'
        res['detail'] = 'generator error: %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])
    res['seconds'] = round(time.time() - t0, 2)
    return res


def tape_values(ctx, m):
    out = []
    for ty, v in ctx.tape:
        x = m.eval(v, model_completion=True)
        try:
            if ty == ('i', 1):
                out.append('1' if z3.is_true(x) else '0')
            elif ty[0] == 'i':
                out.append(str(x.as_long() % (1 << ty[1])))
            else:
                y = z3.simplify(z3.fpToIEEEBV(x))
                out.append(str(y.as_long()))
        except Exception:
            out.append('0')
    return out


def show_model2(ctx, m, info, ob):
    s = 'in %s; ' % ctx.dem(ob.fn)
    if m is not None:
        info = dict(info)
        info['mem0'] = {}
        out = []
        try:
            for d in m.decls():
                n = d.name()
                if d.arity() == 0 and (n.startswith('p_') or n.startswith('n_') or '!' not in n) and not n.startswith('arr_') \
                        and '?' not in n:
                    out.append('%s=%s' % (n, m[d]))
            for nm, r in info['regs'].items():
                n = m.eval(ctx.idx(r.n), model_completion=True)
                k = n.as_long() if hasattr(n, 'as_long') else 0
                for d in m.decls():
                    if d.name() == 'arr_' + nm:
                        arr = d()
                        out.append('%s[0..%s)=[%s%s]' % (nm, n, ','.join(
                            str(m.eval(arr[ctx.idx(i)], model_completion=True)) for i in range(min(k, 12))),
                            ',...' if k > 12 else ''))
        except Exception as e:
            out.append('(%s)' % e)
        s += 'counterexample: ' + ' '.join(sorted(out))[:1500]
    return s


def proc_main(key, q):
    try:
        r = run_task(key)
    except BaseException as e:
        r = {'unit': key[0], 'contract': '?', 'function': key[2], 'status': 'unsupported', 'obls': [], 'seconds': 0,
             'detail': 'worker died: %r' % e, 'inlined': [], 'assumed': [], 'trivial': 0}
    q.put(r)
    q.close()
    q.join_thread()
    os._exit(0)


def run_tasks(keys, jobs, deadline, verbose=False):
    """fork one process per task, at most `jobs` at once"""
    results = []
    pend = list(keys)
    live = {}
    while pend or live:
        while pend and len(live) < jobs:
            k = pend.pop(0)
            pr, pw = mp.Pipe(False)
            pid = os.fork()
            if pid == 0:
                try:
                    pr.close()
                    try:
                        r = run_task(k)
                    except BaseException as e:
                        r = dead(k, 'worker died: %r' % (e,))
                    try:
                        pw.send(r)
                    except BaseException as e:
                        pw.send(dead(k, 'worker result: %r' % (e,)))
                    pw.close()
                finally:
                    os._exit(0)
            pw.close()
            live[pid] = (k, pr, time.time())
        for pid in list(live):
            k, pr, t0 = live[pid]
            if pr.poll(0):
                try:
                    r = pr.recv()
                except EOFError:
                    r = dead(k, 'worker ended without a result')
                pr.close()
                os.waitpid(pid, 0)
                del live[pid]
                results.append(r)
                if verbose:
                    print_result(r)
            elif time.time() > deadline + 20:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                pr.close()
                del live[pid]
                results.append(dead(k, 'time budget exceeded'))
        time.sleep(0.01)
    return results


def dead(k, why):
    return {'unit': k[0], 'contract': PREP[k[0]].cmap[k[2]].label, 'function': PREP[k[0]].dem[k[2]], 'status': 'unsupported',
            'obls': [], 'seconds': 0, 'detail': why, 'inlined': [], 'assumed': [], 'trivial': 0}


def print_result(r):
    print('  [%s] %-9s %4d obl %6.1fs  %s' % (r['unit'], r['status'], len(r['obls']), r['seconds'], r['function'][:140]))
    if r.get('detail'):
        print('        ' + r['detail'][:1500])
    for o in r['obls']:
        if o[2] != 'unsat':
            print('        %s: %s [%s %.1fs] %s' % (o[2], o[0], o[3], o[4], o[5]))
    sys.stdout.flush()


# ---------------------------------------------------------------------- native stand-in
def native_build(n, tmp, cxx):
    src = os.path.join(tmp, n.name + '.cpp')
    exe = os.path.join(tmp, n.name + '.' + os.path.basename(cxx) + '.exe')
    with open(src, 'w') as f:
        f.write(n.src)
    with open(os.path.join(tmp, 'svc_iters.hpp'), 'w') as f:
        from .cxx import ITERS
        f.write('#pragma once\n' + ITERS)
    cmd = [cxx, '-I' + tmp, '-std=' + n.std, '-w', '-I' + REPO, '-I' + os.path.join(VERIF, 'svc'), '-ftemplate-depth=1200'] + n.flags
    if n.san:
        cmd += ['-fsanitize=undefined,address', '-fno-sanitize-recover=all']
    cmd += [src, '-o', exe]
    rc, o, e = run(cmd, 500)
    if rc != 0:
        return None, e[:3000], src
    return exe, '', src


def native_run(exe, seed, secs):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0')
    try:
        p = subprocess.run([exe, str(seed), str(secs)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=secs * 4 + 60,
                           text=True, errors='replace', env=env)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return -9, '', 'timeout'


def native_replay(exe, lemma, tape):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0')
    try:
        p = subprocess.run([exe, '--replay', lemma] + tape, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20, text=True, errors='replace', env=env)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return -9, '', 'timeout'


def lean_check(path):
    """number-theory facts used as axioms by contracts, proved in Lean; one obligation per theorem"""
    t = time.time()
    src = open(path).read()
    names = re.findall(r'^theorem (\w+)', src, re.M)
    lean = shutil.which('lean') or '/opt/veriftools/bin/lean'
    rc, o, e = run([lean, path], 300)
    ok = rc == 0 and 'sorry' not in src and 'axiom' not in re.sub(r'/-!.*?-/', '', src, flags=re.S) and 'error' not in o
    n = max(len(names), 1)
    return {'unit': os.path.basename(path), 'function': os.path.basename(path), 'contract': 'Lean', 'status': 'proved' if ok else 'undecided',
            'weak': True, 'detail': (o + e)[:500], 'trivial': 0, 'inlined': [],
            'obls': [(x, 'lemma', 'unsat' if ok else 'unknown', 'lean' if ok else 'none', (time.time() - t) / n, '') for x in names]}


def known_findings():
    path = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(path):
        return json.load(open(path))
    return []


def harvest(prep):
    """integer constants that occur in the IR of the functions under contract (used to steer the stand-in)"""
    out = set()
    for p in prep:
        for n, body in p.mod._bodies.items():
            for ln in body:
                for m in re.finditer(r'(?<![-\w.%@!#$])(-?\d{1,20})(?![\w.])', ln):
                    v = int(m.group(1))
                    if -(1 << 63) <= v < (1 << 64):
                        out.add(v)
    return sorted(out)


def check(pid, tier='quick', seed=1, verbose=False, only=None, skip_native=False, unit=None):
    t0 = time.time()
    mod = importlib.import_module('props.' + pid)
    budget = 560 if tier == 'quick' else 780
    DEADLINE[0] = t0 + budget
    tmp = tempfile.mkdtemp(prefix='svc-%s-' % pid)
    try:
        return check_(mod, pid, tier, seed, verbose, only, tmp, t0, skip_native, unit)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check_(mod, pid, tier, seed, verbose, only, tmp, t0, skip_native, unit):
    units = [u for u in mod.units(tier) if unit is None or unit in u.name]
    natives = [] if skip_native else (list(mod.natives(tier)) if hasattr(mod, 'natives') else []) + [u.native for u in units if u.native]
    PREP.clear()
    problems = []
    ex = cf.ThreadPoolExecutor(8)
    fut_units = [(u, ex.submit(compile_unit, u, tmp)) for u in units]
    fut_lean = [(f, ex.submit(lean_check, os.path.join(VERIF, 'props', f))) for f in getattr(mod, 'LEAN', ())] if unit is None else []
    fut_nat = [(n, c, ex.submit(native_build, n, tmp, c)) for n in natives for c in n.cxx]
    cmds = []
    for u, f in fut_units:
        ll, msg = f.result()
        if ll is None:
            problems.append('unit %s does not compile: %s' % (u.name, msg))
            continue
        cmds.append(msg)
        try:
            PREP[u.name] = prepare(u, ll)
        except Exception as e:
            problems.append('unit %s cannot be read: %r' % (u.name, e))
    if verbose:
        print('compiled+parsed %.1fs' % (time.time() - t0))
        for p in PREP.values():
            if p.missing:
                print('  unit', p.unit.name, 'contracts without function:', p.missing)
    keys = []
    for un, p in PREP.items():
        for c, n in p.tasks:
            if only and not re.search(only, p.dem[n]):
                continue
            keys.append((un, 0, n, p.unit.timeout * (1 if tier == 'quick' else 3)))
    results = run_tasks(keys, 8, DEADLINE[0], verbose)
    # a second, longer attempt at obligations the solvers left open, before they count as failed
    again = [(r['unit'], 0, r['fname'], PREP[r['unit']].unit.timeout * 4) for r in results
             if r['status'] == 'undecided' and not r.get('weak') and r.get('fname')]
    if again and len(again) <= 12 and time.time() + 60 < DEADLINE[0]:
        redo = {(r['unit'], r.get('fname')): r for r in run_tasks(again, 4, DEADLINE[0], verbose)}
        results = [redo.get((r['unit'], r.get('fname')), r) for r in results]
    # ---- native
    consts = harvest(PREP.values())
    nat = []
    fails = []
    with open(os.path.join(tmp, 'consts.txt'), 'w') as f:
        f.write('\n'.join(map(str, consts)) + '\n')
    os.environ['SVC_CONSTS'] = os.path.join(tmp, 'consts.txt')
    bad = [r for r in results if r['status'] != 'proved']
    nsec = 0
    futs = []
    nat_of = {u.name: u.native for u in units if u.native}
    for n, c, f in fut_nat:
        exe = f.result()[0]
        if exe and fails == []:
            for r in results:
                if nat_of.get(r['unit']) is n:
                    for tp in r.get('tapes', [])[:3]:
                        rc, o, e = native_replay(exe, r['fname'].replace('lemma_', '', 1), tp)
                        if rc != 0 and rc != -9 and not fails:
                            fails.append((n, c, f.result()[2], rc, o[-4000:], e[-6000:], [r['fname'].replace('lemma_', '', 1)] + tp))
    for n, c, f in fut_nat:
        exe, msg, src = f.result()
        if exe is None:
            problems.append('stand-in %s does not compile with %s: %s' % (n.name, c, msg))
            continue
        secs = n.secs[0] if not (bad or problems) and tier == 'quick' else n.secs[1]
        futs.append((n, c, src, secs, ex.submit(native_run, exe, seed, secs)))
    for n, c, src, secs, f in futs:
        rc, o, e = f.result()
        tail = o.strip().split('\n')[-1] if o.strip() else ''
        if rc == 0 and tail.startswith('OK'):
            nat.append((n.name, c, tail))
        elif rc == -9 and not o.strip():
            problems.append('stand-in %s timed out' % n.name)
        else:
            fails.append((n, c, src, rc, o[-4000:], e[-6000:], None))
    for f, fu in fut_lean:
        results.append(fu.result())
        if results[-1]['status'] != 'proved':
            problems.append('%s not accepted by Lean: %s' % (f, results[-1]['detail']))
    ex.shutdown(wait=False)
    return report(mod, pid, tier, seed, t0, results, nat, fails, problems, cmds, verbose, consts)


def report(mod, pid, tier, seed, t0, results, nat, fails, problems, cmds, verbose, consts):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
    total = disch = 0
    be = {}
    secs = 0.0
    failing = []
    undec = []
    for r in results:
        for o in r['obls']:
            total += 1
            secs += o[4]
            if o[2] == 'unsat':
                disch += 1
                be[o[3]] = be.get(o[3], 0) + 1
            elif o[2] == 'sat' or (o[3] not in ('deadline', 'none') and not r.get('weak')):
                failing.append((r, o))
            else:
                undec.append((r, o))
        if r['status'] in ('unsupported', 'vacuous'):
            undec.append((r, (r.get('detail', ''), r['status'], 'undecided', '-', 0, '')))
            total += 1
        total += r['trivial']
        disch += r['trivial']
    triv = sum(r['trivial'] for r in results)
    if triv:
        be['generator (interval/constant folding)'] = triv
    kf = [k for k in known_findings() if k.get('property') == pid and k.get('status') == 'known']
    lines = []
    viol = 0

    def is_known(text):
        for k in kf:
            if re.search(k['match'], text):
                return k
        return None
    seen_known = set()
    for n, c, src, rc, o, e, tp in fails:
        txt = ''
        for ln in o.split('\n'):
            if ln.startswith('FAIL'):
                txt = ln
        if not txt:
            txt = 'FAIL ' + (re.search(r'(runtime error: .*|ERROR: AddressSanitizer.*)', e) or re.search('.*', e)).group(0)
        k = is_known(txt)
        if k:
            seen_known.add(k['id'])
            continue
        path = os.path.join(VERIF, 'replay', '%s-%s.txt' % (pid, n.name))
        keep = os.path.join(VERIF, 'replay', '%s-%s.cpp' % (pid, n.name))
        shutil.copy(src, keep)
        shutil.copy(os.path.join(os.path.dirname(src), 'svc_iters.hpp'), os.path.join(VERIF, 'replay', 'svc_iters.hpp'))
        with open(path, 'w') as f:
            f.write('property %s: failing input found by replay against the real code\n%s\n\n' % (pid, txt))
            f.write('replay: %s -std=%s -w -I%s -I/verif/svc -I/verif/replay %s %s && ./a.out %s\n\n' % (
                c, n.std, REPO, ' '.join(n.flags), keep, '--replay ' + ' '.join(tp) if tp else '%d %d' % (seed, n.secs[1])))
            if tp:
                f.write('the input is the counterexample of the solver to the obligations below\n')
            f.write('--- output\n%s\n--- stderr\n%s\n' % (o, e))
            for r, ob in failing + undec:
                f.write('obligation not discharged: %s (%s) in %s: %s %s\n' % (ob[0], ob[2], r['function'], ob[5], ob[3]))
        lines.append('VIOLATION property=%s replay=%s' % (pid, path))
        print('  ' + txt[:600])
        viol += 1
        break
    real_failing = []
    for r, ob in failing:
        k = is_known('%s | %s | %s' % (r['function'], ob[0], ob[5]))
        if k:
            seen_known.add(k['id'])
        else:
            real_failing.append((r, ob))
    if not viol and real_failing:
        path = os.path.join(VERIF, 'replay', '%s-obligation.txt' % pid)
        with open(path, 'w') as f:
            f.write('property %s: proof obligation not discharged (sat: refuted; unknown: no proof found by any back end); the stand-in found no failing input\n' % pid)
            for r, ob in real_failing:
                f.write('\nfunction   %s\ncontract   %s\nobligation %s\nresult     %s (%s, %.2fs)\n%s\n' % (
                    r['function'], r['contract'], ob[0], ob[2], ob[3], ob[4], ob[5]))
        for r, ob in real_failing[:6]:
            print('  %s: %s in %s %s' % ('refuted' if ob[2] == 'sat' else 'not provable', ob[0], r['function'][:120], ob[5][:300]))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
        viol += 1
    kids = {k['id']: k for k in kf}
    for k in kf:
        if k['id'] in seen_known or k.get('always'):
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    notes = []
    for r, ob in undec:
        notes.append('UNDECIDED %s | %s | %s | %s' % (r['unit'], r['function'], ob[0], ob[3]))
    for n in notes[:20]:
        print('  ' + n[:300] + '  -> decided only by the bounded stand-in on this run')
    for x in problems:
        print('  PROBLEM ' + x[:1500])
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': total, 'discharged': disch,
            'checker_cmd': '/verif/check %s --tier %s' % (pid, tier),
            'trusted_base': list(getattr(mod, 'TRUSTED', [])) + TRUSTED_COMMON,
            'functions_under_contract': sorted(set('%s: %s [%s]' % (r['unit'], r['function'], r['status']) for r in results)),
            'functions_under_contract_count': len(results),
            'inlined_into_proofs': sorted(set(x for r in results for x in r['inlined']))[:400],
            'back_ends': be, 'solver_seconds': round(secs, 2),
            'undecided': notes[:200], 'problems': problems,
            'stand_in_bounded': [{'name': a, 'compiler': b, 'result': c} for a, b, c in nat],
            'contracts_without_function': sorted('%s: %s' % (p.unit.name, m) for p in PREP.values() for m in p.missing),
            'steering_constants': len(consts),
            'samples': [{'function': r['function'], 'obligation': o[0], 'result': o[2], 'backend': o[3], 'seconds': o[4]}
                        for r in results[:12] for o in r['obls'][:2]],
            'explanation': getattr(mod, 'EXPLAIN', ''),
        },
        'assumptions': list(getattr(mod, 'ASSUME', [])) + ASSUME_COMMON,
        'wall_s': round(time.time() - t0, 2), 'violations': viol,
    }
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d functions under contract, %d/%d obligations discharged, %d undecided, solver %.1fs, stand-in %s, wall %.1fs' % (
        pid, len(results), disch, total, len(undec), secs, [x[2] for x in nat], time.time() - t0))
    for ln in lines:
        print(ln)
    sys.stdout.flush()
    return 1 if viol else 0


TRUSTED_COMMON = [
    'clang++ 18 front end and LLVM sroa/loop-simplify/lcssa passes (C++ to IR)',
    'svc (this verifier: IR parser, symbolic executor, VC generator; /verif/svc)',
    'z3 5.3.2, cvc5 1.1.2',
]
ASSUME_COMMON = [
    'array objects hold at most 2^59 elements; distinct parameters named by different region names do not overlap',
    'the proof is for the template instantiations listed under functions_under_contract',
    'stack depth and compile-time constexpr limits are not modelled',
]


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--only')
    ap.add_argument('--unit')
    ap.add_argument('--no-native', action='store_true')
    a = ap.parse_args(argv)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    return check(a.id, a.tier, seed, a.v, a.only, a.no_native, a.unit)
