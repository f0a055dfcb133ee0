#!/usr/bin/env python3-vt
"""Driver: compiles the contracts of one property together with /repo's current sources, generates and discharges the obligations."""
import argparse
import glob
import hashlib
import itertools
import json
import multiprocessing as mp
import os
import pickle
import re
import shutil
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get('VC_REPO', '/repo')
CLANG = '/usr/bin/clang++-18'
OPT = '/usr/bin/opt-18'
EVID = os.environ.get('VC_EVID', ROOT)
BUILD = os.path.join(EVID, 'build')
NPROC = int(os.environ.get('VC_JOBS', '8'))
CXX = ['-std=c++17', '-fno-access-control', '-ffp-contract=off', '-DIS_RP3D_DOUBLE_PRECISION_ENABLED', '-I' + REPO + '/include', '-I' + REPO + '/src', '-I' + HERE, '-I' + ROOT + '/contracts', '-Wno-everything']
PASSES = 'function(sroa,instsimplify,simplifycfg<no-switch-to-lookup;no-switch-range-to-icmp>,loop-simplify,instsimplify)'


def sh(cmd, timeout=600):
    return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)


def compile_ir(prop, out):
    src = os.path.join(ROOT, 'contracts', prop + '.cpp')
    raw = os.path.join(out, prop + '.raw.bc')
    r = sh([CLANG, '-O0', '-Xclang', '-disable-O0-optnone', '-Xclang', '-disable-llvm-passes', '-g', '-fno-exceptions', '-emit-llvm', '-c', src, '-o', raw] + CXX)
    if r.returncode:
        return None, r.stderr
    bc = os.path.join(out, prop + '.bc')
    r = sh([OPT, '-passes=' + PASSES, raw, '-o', bc])
    if r.returncode:
        return None, r.stderr
    return bc, ''


def compile_library(out, fl):
    from concurrent.futures import ThreadPoolExecutor
    d = os.path.join(out, 'lib')
    os.makedirs(d, exist_ok=True)
    srcs = sorted(glob.glob(os.path.join(REPO, 'src', '**', '*.cpp'), recursive=True))

    def one(f):
        o = os.path.join(d, os.path.relpath(f, REPO).replace('/', '_') + '.o')
        r = sh([CLANG, '-O1', '-g1', '-c', f, '-o', o] + CXX + fl)
        return o, (r.stderr if r.returncode else '')
    with ThreadPoolExecutor(6) as ex:
        rs = list(ex.map(one, srcs))
    bad = [e for _, e in rs if e]
    if bad:
        return None, bad[0]
    a = os.path.join(d, 'lib.a')
    r = sh(['ar', 'rcs', a] + [o for o, _ in rs])
    return ([a], '') if r.returncode == 0 else (None, r.stderr)


def compile_native(prop, out, asan=True):
    src = os.path.join(ROOT, 'contracts', prop + '.cpp')
    exe = os.path.join(out, prop + ('.asan' if asan else '.native'))
    if os.path.exists(exe):
        return exe, ''
    fl = ['-fsanitize=address', '-DVC_ASAN'] if asan else []
    obj = exe + '.o'
    r = sh([CLANG, '-O1', '-g1', '-DVC_NATIVE', '-c', src, '-o', obj] + CXX + fl)
    if r.returncode:
        return None, r.stderr
    lib = []
    if re.search(r'^//! native: full', open(src).read(), re.M):
        # the rest of the library is compiled from the current sources and linked; definitions of the contract file come first
        lib, err = compile_library(out, fl)
        if err:
            return None, err
    # parts of the library the contracts do not reach are not linked: weak zeros stand in for them (a call there ends the run)
    und = [] if lib else [l.split()[-1] for l in sh(['nm', '-u', obj]).stdout.splitlines() if '14reactphysics3d' in l]
    st = exe + '.s'
    with open(st, 'w') as f:
        for u in und:
            f.write('.data\n.weak %s\n.balign 16\n%s:\n.zero 1024\n' % (u, u))
        f.write('.section .note.GNU-stack,"",@progbits\n')
    r = sh([CLANG, '-g1', '-DVC_NATIVE', '-O1', obj, st, os.path.join(HERE, 'vc_native.cpp')] + lib + ['-o', exe + '.tmp', '-rdynamic', '-ldl', '-lpthread', '-Wl,--unresolved-symbols=ignore-all', '-Wl,--allow-multiple-definition'] + CXX + fl)
    if r.returncode:
        return None, r.stderr
    os.remove(obj)
    os.rename(exe + '.tmp', exe)
    return exe, ''


class Meta:
    """annotations of the contract file, read back from the IR"""

    def __init__(self, bc, prop):
        import ir
        self.mod = ir.Module(bc)
        self.prop = prop
        self.harness = {}
        self.stubs = {}
        self.pure = set()
        names = list(self.mod.fnref)
        d = subprocess.run(['/usr/lib/llvm-18/bin/llvm-cxxfilt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
        self.dem = dict(zip(names, d))
        defaults = {}
        for l in re.findall(r'^//! opts: (.*)$', open(os.path.join(ROOT, 'contracts', prop + '.cpp')).read(), re.M):
            defaults.update(self.parse(l))
        if 'llvm.global.annotations' in self.mod.gref:
            g = self.mod.glob('llvm.global.annotations')
            for e in g.init.ops:
                fn = e.ops[0].v
                s = self.mod.glob(e.ops[1].v).init.x.split(b'\0')[0].decode()
                if s.startswith('harness;'):
                    self.harness[fn] = dict(defaults, **self.parse(s[8:]))
                elif s.startswith('stub:'):
                    self.stubs[fn] = s[5:]
                elif s == 'pure':
                    self.pure.add(fn)
        self.contract_files = {os.path.basename(p) for p in glob.glob(os.path.join(ROOT, 'contracts', '*'))} | {'vc.h'}

    def parse(self, s):
        o = {}
        for p in s.split(';'):
            if not p.strip():
                continue
            k, _, v = p.partition('=')
            o[k.strip()] = v.strip()
        return o

    def for_harness(self, h):
        o = self.harness[h]
        stubs = [x.strip() for x in o.get('stubs', '').split(',') if x.strip()]
        pats = []
        missing = []
        for s in stubs:
            if s not in self.stubs:
                raise RuntimeError('unknown stub %s' % s)
            pats.append((re.compile(self.stubs[s]), s))
        cache = {}

        def stub(name):
            if name in cache:
                return cache[name]
            r = None
            d = self.dem.get(name, name)
            if name not in self.stubs:
                for p, s in pats:
                    if p.search(d):
                        r = s
                        break
            cache[name] = r
            return r
        invs = []
        for x in re.findall(r'(\w+)(?:\(([^)]*)\))?', o.get('invs', '')):
            invs.append((x[0], x[1]))
        skip = [re.compile(x) for x in o.get('skiploops', '').split(',') if x]
        return dict(stub=stub, invs=invs, plan=None, perm={}, skiploop=lambda n: any(p.search(self.dem.get(n, n)) for p in skip),
                    dem=lambda n: self.dem.get(n, n), contract_files=self.contract_files, pure=self.pure, opts=o)


def open_smt2(ob):
    import z3
    s = z3.Solver()
    for c in ob.pc:
        s.add(c)
    g = z3.BoolVal(False) if ob.goal is False else ob.goal
    s.add(z3.Not(g))
    return s.to_smt2()


def exec_harness(bc, prop, h, plan, perm, deadline, extra):
    """runs in a child process; returns a plain dict"""
    import execu
    import sym
    t0 = time.time()
    meta_o = Meta(bc, prop)
    meta = meta_o.for_harness(h)
    meta['plan'] = plan
    meta['perm'] = perm or {}
    o = meta['opts']
    opts = dict(deadline=t0 + deadline)
    for k in ('unroll', 'max_paths', 'feas_ms', 'inproc_ms'):
        if k in o:
            opts[k] = int(o[k])
    for k in ('fdiv', 'longloops', 'noterm', 'nonra', 'nl'):
        if k in o:
            opts[k] = True
    if 'nooverflow' in o:
        opts['overflow'] = False
    if extra.get('bounded'):
        opts['bounded'] = extra['bounded']
    if 'bv' in o:
        import bvexec
        r = bvexec.BVRunner(meta_o.mod, h, meta, opts)
    else:
        r = execu.Runner(meta_o.mod, h, meta, opts)
    err = None
    try:
        r.run()
    except sym.Unsupported as e:
        err = 'unsupported: %s' % e
    except sym.TooMany as e:
        err = 'limit: %s' % e
    except sym.NeedCut as e:
        err = 'unsupported: needs a loop invariant %s' % (e.key,)
    except Exception as e:
        err = 'internal: %s' % traceback.format_exc()[-1500:]
    obs = []
    for ob in r.obs:
        d = dict(name=ob.name, kind=ob.kind, where=ob.where, status=ob.status, backend=ob.backend, time=round(ob.time, 3))
        if ob.status == 'open':
            try:
                d['smt2'] = open_smt2(ob)
            except Exception as e:
                d['reason'] = str(e)
        obs.append(d)
    return dict(harness=h, obs=obs, err=err, functions=sorted(meta_o.dem.get(f, f) for f in r.functions),
                stubs=sorted(set('%s := %s' % (meta_o.dem.get(a, a), b) for a, b in r.stubs_used)), warn=sorted(r.warn), ends=r.endstates,
                covers=dict(r.covers), wall=time.time() - t0, solver=r.solver_time, bound_hit=getattr(r, 'bound_hit', False),
                ncand=[r.cuts[k].get('ncand') for k in r.cutorder], ncuts=len(r.cutorder), cuts=[meta_o.dem.get(k[0], k[0]) for k in r.cutorder])


def child(conn, fn, args):
    try:
        os.setpgid(0, 0)
    except Exception:
        pass
    try:
        res = fn(*args)
    except BaseException as e:
        res = ('EXC', traceback.format_exc()[-2000:])
    conn.send_bytes(pickle.dumps(res))
    conn.close()


class Pool:
    """process pool with hard per-task timeouts"""

    def __init__(self, n=NPROC):
        self.n = n
        self.ctx = mp.get_context('fork')

    def run(self, tasks, on_done=None, stop_at=None):
        """tasks: list of (key, fn, args, timeout); returns dict"""
        res = {}
        queue = list(tasks)[::-1]
        live = {}
        while queue or live:
            if stop_at and time.time() > stop_at:
                # out of time: what has not run has no answer
                for t in queue:
                    res[t[0]] = ('TIMEOUT',)
                queue = []
                for x in list(live):
                    live[x] = (live[x][0], live[x][1], 0)
            while queue and len(live) < self.n:
                key, fn, args, to = queue.pop()
                a, b = self.ctx.Pipe(False)
                p = self.ctx.Process(target=child, args=(b, fn, args))
                p.start()
                b.close()
                live[a] = (key, p, time.time() + to)
            rd = mp.connection.wait(list(live), timeout=0.2)
            for a in list(live):
                key, p, dl = live[a]
                fin = None
                if a in rd:
                    try:
                        fin = pickle.loads(a.recv_bytes())
                    except EOFError:
                        fin = ('EXC', 'process died')
                elif time.time() > dl:
                    fin = ('TIMEOUT',)
                if fin is not None:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except Exception:
                        pass
                    p.kill() if p.is_alive() else None
                    p.join()
                    a.close()
                    del live[a]
                    res[key] = fin
                    if on_done:
                        new = on_done(key, fin)
                        if new:
                            queue.extend(new[::-1])
        return res


def do_solve(smt2, budget):
    import backend
    return backend.solve(smt2, budget)


def discharge(results, budget, pool, limit=4000, stop_at=None):
    tasks = []
    for h, r in results.items():
        for i, ob in enumerate(r['obs']):
            if ob['status'] == 'open' and 'smt2' in ob:
                tasks.append(((h, i), do_solve, (ob['smt2'], budget), budget * 1.6 + 15))
    # identical queries once
    groups = {}
    for t in tasks:
        groups.setdefault(hashlib.sha1(t[2][0].encode()).hexdigest(), []).append(t)
    uniq = [g[0] for g in groups.values()]
    alias = {g[0][0]: [x[0] for x in g] for g in groups.values()}
    t0 = time.time()
    res = pool.run(uniq[:limit], stop_at=stop_at)
    for k, v in res.items():
        if v[0] == 'TIMEOUT':
            v = ('unknown', '', None, 'solver killed at its time limit')
        elif v[0] == 'EXC':
            v = ('unknown', '', None, 'solver error: ' + v[1])
        for (h, i) in alias[k]:
            ob = results[h]['obs'][i]
            ob['status'], ob['backend'], ob['model'], ob['reason'] = v
            if v[0] == 'proved':
                ob.pop('smt2', None)
    return len(uniq), time.time() - t0


def failing(r):
    return [o for o in r['obs'] if o['status'] != 'proved']


def variants(r, nin):
    """other ways of pairing loops with the harness's invariants and loop values with their parameters"""
    out = []
    ncand = r['ncand']
    n = max(len(ncand), r['ncuts'])
    k = len(nin)
    for ci, nc in enumerate(ncand):
        if not nc:
            continue
        ranges = [range(x) if x else [0] for x in nc]
        tot = 1
        for x in ranges:
            tot *= len(x)
        if tot > 60 or tot < 2:
            continue
        for p in itertools.product(*ranges):
            out.append((None, {ci: list(p)}))
    # injective assignments of invariants to loops, the remaining loops get automatic invariants only
    for m in range(max(n, k), max(n, k) + 2):
        for pos in itertools.permutations(range(m), k):
            plan = [None] * m
            for i, q in enumerate(pos):
                plan[q] = i
            if plan[:k] != list(range(k)):
                out.append((plan, {}))
            if len(out) > 40:
                return out
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--harness', '-H')
    ap.add_argument('--verbose', '-v', action='store_true')
    ap.add_argument('--budget', type=float)
    ap.add_argument('--nohunt', action='store_true')
    ap.add_argument('--dump', action='store_true')
    ap.add_argument('--opens', action='store_true')
    ap.add_argument('--thorough', action='store_true')
    ap.add_argument('--native', type=float, help='only run the contracts natively for this many seconds')
    a = ap.parse_args()
    prop = a.prop
    tier = 'thorough' if a.thorough else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    T0 = time.time()
    out = os.path.join(BUILD, prop + ('.' + str(os.getpid()) if a.harness else ''))
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    try:
        rc = check(prop, a, tier, seed, T0, out)
    finally:
        if not os.environ.get('VC_KEEP'):
            shutil.rmtree(out, ignore_errors=True)
    sys.exit(rc)


def hunt(prop, out, harnesses, seconds, seed, log):
    """search for a failing input by running the contracts natively against the real code"""
    exe, err = compile_native(prop, out, True)
    if not exe:
        log('native build failed: ' + err[-800:])
        return None
    jobs = []
    pool = Pool(NPROC)
    per = max(1, NPROC // max(1, len(harnesses)))
    for h in harnesses:
        for k in range(per):
            jobs.append(((h, k), native_run, (exe, [h, 'hunt', str(seed * 1000 + k * 7919 + 13), str(seconds)], seconds + 25), seconds + 40))
    res = pool.run(jobs)
    for (h, k), v in res.items():
        if v[0] == 'FAIL':
            return h, v[1]
    return None


def native_run(exe, args, timeout):
    try:
        r = subprocess.run([exe] + args, capture_output=True, text=True, timeout=timeout, errors='replace')
    except subprocess.TimeoutExpired:
        return ('TO', '')
    if r.returncode == 5:
        return ('FAIL', r.stdout[:6000])
    if r.returncode in (77, -11, -6, -8, 1) or 'AddressSanitizer' in r.stderr:
        return ('FAIL', 'memory error / crash (exit %d)\n%s\n%s' % (r.returncode, r.stdout[:2000], r.stderr[:5000]))
    return ('OK', r.stdout)


def check(prop, a, tier, seed, T0, out):
    def log(m):
        print('[%6.1fs] %s' % (time.time() - T0, m), flush=True)
    thorough = tier == 'thorough'
    budget = a.budget or (60 if thorough else 25)
    src = open(os.path.join(ROOT, 'contracts', prop + '.cpp')).read()
    assumptions = re.findall(r'^//! assume: (.*)$', src, re.M)
    for inc in re.findall(r'^#include "([\w./]+)"', src, re.M):
        p = os.path.join(ROOT, 'contracts', inc)
        if os.path.exists(p):
            assumptions += re.findall(r'^//! assume: (.*)$', open(p).read(), re.M)
    bc, err = compile_ir(prop, out)
    if not bc:
        print('the contracts do not compile against /repo any more:\n' + err[-3000:])
        return 2
    meta = Meta(bc, prop)
    hs = [h for h in meta.harness if not a.harness or re.fullmatch(a.harness, h)]
    hs = [h for h in hs if thorough or meta.harness[h].get('tier') != 'thorough']
    if not hs:
        print('no harness')
        return 2
    if a.native:
        exe, err = compile_native(prop, out, True)
        if not exe:
            print(err[-3000:])
            return 2
        for h in hs:
            print(h, native_run(exe, [h, 'hunt', str(seed), str(a.native)], a.native + 30))
        return 0
    pool = Pool()
    log('%s: %d contracts, IR built' % (prop, len(hs)))
    order = sorted(hs, key=lambda h: -int(meta.harness[h].get('cost', '1')))
    deadline = 400 if not thorough else 1500
    vac = {}
    jobs = [(h, exec_harness, (bc, prop, h, None, None, deadline, {}), deadline + 60) for h in order]

    def norm(h, r):
        if r[0] == 'TIMEOUT' if isinstance(r, tuple) else False:
            return dict(harness=h, obs=[], err='limit: time', functions=[], stubs=[], warn=[], ends=0, covers={}, wall=deadline, solver=0, ncand=[], ncuts=0, cuts=[])
        if isinstance(r, tuple):
            return dict(harness=h, obs=[], err='internal: %s' % (r[1],), functions=[], stubs=[], warn=[], ends=0, covers={}, wall=0, solver=0, ncand=[], ncuts=0, cuts=[])
        return r

    def done(k, r):
        r = norm(k, r)
        n = len(r['obs'])
        log('%-34s %4d obligations, %3d open, %d ends%s %.1fs' % (k, n, len(failing(r)), r['ends'], (' ERR ' + r['err']) if r['err'] else '', r['wall']))
        if a.verbose:
            for w in r['warn']:
                print('      warn:', w)
    # the native program is built alongside
    native_job = ('@native', compile_native, (prop, out, True), 600)
    raw = pool.run([native_job] + jobs, lambda k, r: done(k, r) if k != '@native' else None)
    nat = raw.pop('@native')
    results = {h: norm(h, raw[h]) for h in order}
    if a.opens:      # development: write the open obligations and stop
        os.makedirs('/tmp/ob', exist_ok=True)
        for h in order:
            for n, o in enumerate(failing(results[h])):
                print('OPEN', h, n, o['name'], o['where'])
                if 'smt2' in o:
                    open('/tmp/ob/%s_%d.smt2' % (h, n), 'w').write('; %s %s\n' % (o['name'], o['where']) + o['smt2'])
        return 0
    nq, qs = discharge(results, budget, pool, stop_at=T0 + (620 if not thorough else 3000))
    if nq:
        log('%d open obligations sent to the portfolio: %.1fs' % (nq, qs))
    # other pairings of loops and invariants
    for h in order:
        r = results[h]
        if (failing(r) or r['err']) and meta.harness[h].get('invs'):
            nin = meta.for_harness(h)['invs']
            vs = variants(r, nin)
            if not vs or time.time() - T0 > 450:
                continue
            log('%s: trying %d other pairings of loops and invariants' % (h, len(vs)))
            vres = pool.run([(i, exec_harness, (bc, prop, h, pl, pm, 90, {}), 120) for i, (pl, pm) in enumerate(vs)])
            good = None
            cand = {}
            for i, v in sorted(vres.items()):
                if isinstance(v, dict) and not v['err']:
                    cand[i] = v
            cl = sorted(cand, key=lambda i: len(failing(cand[i])))[:4]
            for i in cl:
                one = {h: cand[i]}
                discharge(one, min(budget, 12), pool, 60, stop_at=T0 + 660)
                if not failing(cand[i]):
                    good = i
                    break
            if good is not None:
                log('%s: proved with pairing %s' % (h, vs[good]))
                results[h] = cand[good]
    fails = []
    errs = []
    total = disch = 0
    back = {}
    fnset, stubset, warns = set(), set(), set()
    for h in order:
        r = results[h]
        total += len(r['obs'])
        fnset |= set(r['functions'])
        stubset |= set(r['stubs'])
        warns |= set('%s: %s' % (h, w) for w in r['warn'])
        for o in r['obs']:
            if o['status'] == 'proved':
                disch += 1
                back[o['backend']] = back.get(o['backend'], 0) + 1
            else:
                fails.append((h, o))
        if r['err']:
            errs.append((h, r['err']))
        elif not r['obs'] or not r['ends']:
            errs.append((h, 'vacuous: %d obligations, %d completed paths' % (len(r['obs']), r['ends'])))
        for c, v in r['covers'].items():
            if v == 'unsat':
                errs.append((h, 'vacuous: cover %s is unreachable' % c))
    known = []
    kf = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(kf):
        for l in open(kf):
            m = re.match(r'known: property=(\S+) contract=(\S+) obligation=(.*)$', l.strip())
            if m and m.group(1) == prop:
                known.append((m.group(2), m.group(3)))
    kfail = [(h, o) for h, o in fails if any(h == kh and o['name'].startswith(kn) for kh, kn in known)]
    fails = [x for x in fails if x not in kfail]
    for h, o in kfail:
        print('KNOWN-FINDING: property=%s %s: %s at %s' % (prop, h, o['name'], o['where']))
    for h, o in fails:
        print('  NOT DISCHARGED %s: %s [%s] at %s: %s (%s)' % (h, o['name'], o['kind'], o['where'], o['status'], o.get('reason')))
        if a.dump and 'smt2' in o:
            open('/tmp/ob_%s.smt2' % h, 'w').write(o['smt2'])
    for h, e in errs:
        print('  NO VERDICT %s: %s' % (h, e))
    bounded = []
    rc = 0
    viol = 0
    smoke = {}
    if isinstance(nat, tuple) and nat and nat[0] and nat[0] not in ('TIMEOUT', 'EXC'):
        jl = [(h, native_run, (nat[0], [h, 'hunt', str(seed), '0.4'], 20), 30) for h in order if meta.harness[h].get('native') != 'no']
        for h, v in pool.run(jl, stop_at=T0 + 700).items():
            m = re.search(r'OK (\d+) SKIPPED (\d+)', v[1]) if len(v) > 1 else None
            smoke[h] = int(m.group(1)) if m else -1
            if not (m and int(m.group(1))):
                log('%s: no native run completed (%s)' % (h, str(v)[:300]))
    bad = list(dict.fromkeys([h for h, _ in fails] + [h for h, _ in errs]))
    witness = None
    if bad and not a.nohunt:
        os.makedirs(os.path.join(EVID, 'evidence', 'replay'), exist_ok=True)
        # 1. replay the verifier's counterexamples on the real code
        if isinstance(nat, tuple) and nat and nat[0] and nat[0] not in ('TIMEOUT', 'EXC'):
            exe = nat[0]
            tried = 0
            for h, o in fails:
                if o['status'] == 'sat' and o.get('model') and tried < 30:
                    tried += 1
                    mf = os.path.join(out, 'model.txt')
                    open(mf, 'w').write(''.join('%s\t%s\n' % kv for kv in sorted(o['model'].items())))
                    v = native_run(exe, [h, 'replay', mf], 30)
                    if v[0] == 'FAIL':
                        witness = (h, o['name'], 'counterexample of the verifier, replayed on the real code', v[1])
                        break
            if witness is None:
                hh = [h for h in bad if meta.harness[h].get('native') != 'no']
                if hh:
                    log('hunting natively for a failing input in %s' % hh)
                    w = hunt(prop, out, hh, 40 if not thorough else 120, seed, log)
                    if w:
                        witness = (w[0], '', 'input found by running the contract natively on the real code', w[1])
        else:
            log('native program unavailable: %s' % str(nat)[-1500:])
    replay = os.path.join('evidence', 'replay', prop + '.txt')
    if witness or fails:
        viol = max(1, len(fails))
        os.makedirs(os.path.join(EVID, 'evidence', 'replay'), exist_ok=True)
        with open(os.path.join(EVID, replay), 'w') as f:
            f.write('property %s\n' % prop)
            if witness:
                f.write('contract %s\nfailing input (%s):\n%s\n' % (witness[0], witness[2], witness[3]))
                f.write('replay: cd /verif && vc/run.py %s --harness %s --native 30\n' % (prop, witness[0]))
            for h, o in fails[:20]:
                f.write('failed obligation: %s: %s [%s] at %s, solver verdict: %s (%s)\n' % (h, o['name'], o['kind'], o['where'], o['status'], o.get('reason')))
                if o.get('model'):
                    f.write('   counterexample: %s\n' % json.dumps(o['model'], sort_keys=True)[:3000])
        if a.verbose and witness:
            print(witness)
        rc = 1
    elif errs and not a.nohunt:
        # nothing failed, but some contract could not be decided: bounded stand-in
        log('bounded stand-in for %s' % [h for h, _ in errs])
        bad2 = []
        bl = list(dict.fromkeys(h for h, e in errs if not e.startswith('vacuous')))
        res = pool.run([(h, exec_harness, (bc, prop, h, None, None, 200, {'bounded': 3}), 230) for h in bl])
        one = {h: norm(h, r) for h, r in res.items()}
        discharge(one, 10, pool, 200, stop_at=T0 + 780)
        for h, r in one.items():
            # open obligations of the bounded run count only with a solver counterexample
            bounded.append('%s: bounded to 3 loop iterations, %d of %d checks discharged, error: %s; natively run with random inputs' % (h, len(r['obs']) - len(failing(r)), len(r['obs']), r['err']))
        if any(e.startswith('vacuous') for _, e in errs):
            rc = 2
        if any(e.startswith('internal') for _, e in errs) and os.environ.get('VC_STRICT'):
            rc = 2
    elif errs:
        rc = 2
    level = 'proof'
    ev = dict(property=prop, tier=tier, seed=seed, level=level, wall_s=round(time.time() - T0, 1), violations=viol,
              coverage=dict(obligations=total, discharged=disch, checker_cmd='vc/run.py %s (deductive VC generation from /repo via clang IR; z3 %s + cvc5)' % (prop, z3v()),
                            trusted_base=['clang 18 front end and opt passes ' + PASSES, 'the VC generator /verif/vc (sym.py, execu.py)', 'z3, cvc5'],
                            backends=back, contracts=len(order), functions_executed_symbolically=len(fnset),
                            solver_s=round(sum(r['solver'] for r in results.values()) + qs, 1),
                            per_contract={h: dict(native_runs=smoke.get(h), obligations=len(results[h]['obs']), open=len(failing(results[h])), paths=results[h]['ends']) for h in order},
                            functions=[f[:110] for f in sorted(fnset) if 'reactphysics3d' in f][:220], contracts_assumed_at_calls=sorted(s[:140] for s in stubset)[:60],
                            bounded_standins=bounded, undecided=['%s: %s' % (h, e[:200]) for h, e in errs], engine_warnings=sorted(warns)[:30],
                            known_findings=['%s: %s' % (h, o['name']) for h, o in kfail]),
              assumptions=assumptions + ['floating-point arithmetic is modelled by exact real arithmetic (no rounding, NaN or infinity)',
                                         'termination of loops is not proved', 'distinct objects created by the contracts do not alias unless stated'])
    if not a.harness:
        os.makedirs(os.path.join(EVID, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(EVID, 'evidence', prop + '.json'), 'w'), indent=1)
    log('%s: %d obligations, %d discharged, %d failed, %d without verdict' % (prop, total, disch, len(fails), len(errs)))
    if rc == 1:
        print('VIOLATION property=%s replay=%s%s' % (prop, replay, '' if witness else ' no-failing-input-found'))
    return rc


def z3v():
    import z3
    return z3.get_version_string()


if __name__ == '__main__':
    main()
