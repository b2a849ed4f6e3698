"""Common machinery: compile harness + code under test to LLVM IR, execute it symbolically
(engine/vsym), replay every counterexample natively, report, write evidence."""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
EVID = os.environ.get('VP_EVIDENCE') or VERIF + '/evidence'
CXX = 'clang++-18'
ENC = ['-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-fno-vectorize',
       '-fsanitize=signed-integer-overflow,shift,float-cast-overflow,integer-divide-by-zero,bool,enum,unreachable,return',
       '-fsanitize-trap=all', '-emit-llvm', '-D_GLIBCXX_EXTERN_TEMPLATE=0']
OPT = 'function(sroa,early-cse,simplifycfg),cgscc(inline),function(sroa,instcombine<no-verify-fixpoint>,simplifycfg,early-cse)'
NCPU = max(2, min(8, os.cpu_count() or 8))


class Setup(Exception):
    pass


class Broken(Setup):
    """The code under test does not do what the property's harness asks of it at all: the generator refuses a valid
    definition, or its output / the library headers do not compile against their public interface."""


def sh(cmd, timeout=600, cwd=None, env=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=cwd, env=env, text=True, errors='replace')
    return p.returncode, p.stdout


def need(cmd, **k):
    rc, out = sh(cmd, **k)
    if rc:
        built = rc > 0 and (re.search(r'^\S+:\d+:\d+: (fatal )?error: ', out, re.M) if 'clang' in os.path.basename(cmd[0]) else 'rungen.py' in ' '.join(cmd) and 'Traceback (most' in out)
        raise (Broken if built else Setup)('command failed (%d): %s\n%s' % (rc, ' '.join(cmd)[:400], out[-3000:]))
    return out


class TU:
    """One encoded module: harness text, extra sources (generated code), its entries."""
    def __init__(self, name, code, entries, srcs=(), incs=(), bounds='', engine_std=True, defs=(), native_defs=(), stubs=()):
        self.name, self.code, self.entries = name, code, entries
        self.srcs, self.incs, self.bounds, self.defs = list(srcs), list(incs), bounds, list(defs)
        self.stubs = list(stubs)            # extra stub sources used in both builds


class Entry:
    def __init__(self, fn, max_time=300, opts=(), note='', expect_reach=(), cost=1):
        self.fn, self.max_time, self.opts, self.note, self.cost = fn, max_time, list(opts), note, cost
        self.expect_reach = list(expect_reach)


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix='vp_%s_' % prop)
        self.cexdir = os.path.join(EVID, prop + '.cex')
        shutil.rmtree(self.cexdir, ignore_errors=True)
        self.tus, self.results, self.problems = [], [], []
        self.viol, self.known_hit, self.unconfirmed = [], {}, []
        self.validated, self.samples = 0, []
        self.assumptions, self.extra = [], {}
        self.known = {}
        kf = os.path.join(VERIF, 'known_findings.json')
        if os.path.exists(kf):
            for k in json.load(open(kf))['findings']:
                if k.get('status') == 'known' and k['property'] == prop:
                    self.known.setdefault((k['entry'], k['assertion']), k)

    # ------------------------------------------------------------------ build
    def flags(self, tu):
        return ['-std=c++20', '-w', '-I' + self.work, '-I' + VERIF + '/harness', *['-I' + i for i in tu.incs], '-I' + REPO + '/include', *tu.defs]

    def build_rt(self):
        need(['bash', VERIF + '/engine/build.sh'])
        w = self.work
        need([CXX, *ENC, '-std=c++20', '-w', '-I' + VERIF + '/stubs/include', '-c', VERIF + '/stubs/rt.cpp', '-o', w + '/rt.bc'])
        need(['clang-18', '-w', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-builtin', '-ffreestanding', '-emit-llvm', '-c', VERIF + '/stubs/rt_c.c', '-o', w + '/rt_c.bc'])

    def encode(self, tu, ex):
        w = self.work
        src = '%s/%s.cpp' % (w, tu.name)
        open(src, 'w').write(tu.code)
        jobs = []
        for i, s in enumerate([src] + tu.srcs + tu.stubs):
            o = '%s/%s.%d.bc' % (w, tu.name, i)
            jobs.append((o, ex.submit(need, [CXX, *ENC, '-I' + VERIF + '/stubs/include', *self.flags(tu), '-c', s, '-o', o])))
        return jobs

    def link(self, tu, jobs):
        w = self.work
        objs = []
        for o, f in jobs:
            f.result(); objs.append(o)
        bc = '%s/%s.bc' % (w, tu.name)
        need(['llvm-link-18', *objs, w + '/rt.bc', w + '/rt_c.bc', '-o', bc + '.l'])
        need(['opt-18', '-passes=' + OPT, bc + '.l', '-o', bc])
        os.unlink(bc + '.l')
        return bc

    def run_entry(self, tu, e, bc):
        out = '%s/%s.%s.json' % (self.work, tu.name, e.fn)
        mt = e.max_time * (4 if self.tier == 'thorough' else 1)
        cmd = [VERIF + '/build/vsym', bc, '--entry=' + e.fn, '--out=' + out, '--max-time=%d' % mt, '--query-timeout=%d' % (mt * 1000), *e.opts]
        try:
            rc, log = sh(cmd, timeout=mt + 60)
        except subprocess.TimeoutExpired:
            rc, log = 2, 'engine timeout'
        if not os.path.exists(out):
            return dict(entry=e.fn, tu=tu.name, rc=rc, error=log[-2000:])
        r = json.load(open(out))
        r.update(tu=tu.name, rc=rc, error='', log=log[-500:])
        return r

    # ------------------------------------------------------------------ native replay
    def native(self, tu, mode):
        exe = '%s/%s.%s' % (self.work, tu.name, mode)
        if os.path.exists(exe):
            return exe
        san = {'asan': ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=alignment,vptr,nonnull-attribute', '-D_GLIBCXX_SANITIZE_VECTOR'],
               'plain': ['-O1', '-g'],
               'zero': ['-O1', '-g', '-ftrivial-auto-var-init=zero'], 'pat': ['-O1', '-g', '-ftrivial-auto-var-init=pattern']}[mode]
        need([CXX, *san, *self.flags(tu), '-DVS_REPLAY', '%s/%s.cpp' % (self.work, tu.name), *tu.srcs, *tu.stubs, VERIF + '/harness/replay.cpp',
              '-rdynamic', '-ldl', '-lpthread', '-o', exe])
        return exe

    def replay(self, tu, fn, values, kind):
        """-> (confirmed, text)"""
        vf = '%s/%s.%s.%d.vals' % (self.work, tu.name, fn, abs(hash(str(values))) % 10**9)
        open(vf, 'w').write(''.join('%s %s\n' % (n, h) for n, _, h in values))
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0', UBSAN_OPTIONS='print_stacktrace=1:exitcode=98')
        def go(exe, **kw):
            try:
                return sh([exe, fn, vf], timeout=60, env=dict(env, **kw))
            except subprocess.TimeoutExpired:
                return 97, 'TIMEOUT'
        if kind == 'uninit':
            a = go(self.native(tu, 'zero'), MALLOC_PERTURB_='0')
            b = go(self.native(tu, 'pat'), MALLOC_PERTURB_='90')
            ok = a[0] != 3 and a != b
            return ok, 'run with zero-filled memory:\n%s\nrun with pattern-filled memory:\n%s' % (a[1], b[1]), a[0]
        rc, out = go(self.native(tu, 'asan'))
        return rc not in (0, 3, 4), out, rc

    def validate(self, tu, r):
        """Replays models of completed paths natively: the real code must agree with the encoding."""
        if r.get('violations'):
            return
        for wv in r.get('witnesses', []):
            ok, out, rc = self.replay(tu, r['entry'], wv, 'witness')
            if rc == 0:
                self.validated += 1
                if len(self.samples) < 4:
                    self.samples.append(dict(entry=r['entry'], values=[[n, h] for n, _, h in wv][:16], native='all assertions hold in the native run'))
            else:
                self.problems.append('witness of %s does not replay natively (rc %d): %s' % (r['entry'], rc, out[-600:]))

    # ------------------------------------------------------------------ main
    def add(self, tu):
        self.tus.append(tu)

    def run(self):
        self.build_rt()
        with cf.ThreadPoolExecutor(NCPU) as cx, cf.ThreadPoolExecutor(64) as mx, cf.ThreadPoolExecutor(NCPU) as rx:
            def one(tu):
                t = time.time()
                try:
                    bc = self.link(tu, self.encode(tu, cx))
                except Broken as ex:
                    # blame the code under test only if it does not compile with the real standard library either
                    fl = [f for f in self.flags(tu) if f != '-I' + VERIF + '/harness/conc']
                    for x in ['%s/%s.cpp' % (self.work, tu.name), *tu.srcs]:
                        rc, out = rx.submit(sh, [CXX, *fl, '-DVS_REPLAY', '-fsyntax-only', x]).result()
                        if rc: raise Broken(str(ex) + '\n' + out[-1500:])
                    raise Setup(str(ex))
                tu.t_enc = time.time() - t
                rs = [f.result() for f in [rx.submit(self.run_entry, tu, e, bc) for e in tu.entries]]
                tu.t_run = time.time() - t - tu.t_enc
                if any(r.get('violations') for r in rs):
                    rx.submit(self.native, tu, 'asan').result()
                elif rs and not any(r.get('error') for r in rs):
                    try:
                        rx.submit(self.native, tu, 'asan').result()
                        for r in rs:
                            rx.submit(self.validate, tu, r).result()
                    except Setup as ex:
                        self.problems.append('native build of %s: %s' % (tu.name, str(ex)[-800:]))
                tu.t_all = time.time() - t
                return tu, rs
            futs = [mx.submit(one, tu) for tu in self.tus]
            for f in futs:
                try:
                    tu, rs = f.result()
                except Broken as ex:
                    self.broken(str(ex)); continue
                except Setup as ex:
                    self.problems.append(str(ex)); continue
                for e, r in zip(tu.entries, rs):
                    self.results.append(r); self.judge(tu, e, r)

    def broken(self, text):
        d = os.path.join(self.cexdir, '%02d_does_not_build' % len(self.viol))
        os.makedirs(d, exist_ok=True)
        open(d + '/report.txt', 'w').write('property %s\nthe code under test cannot be encoded: it does not generate or compile\n\n%s\n' % (self.prop, text))
        for f in glob.glob(self.work + '/*/defs.yaml'):
            shutil.copy(f, '%s/%s.yaml' % (d, os.path.basename(os.path.dirname(f))))
        m = re.search(r'^.*error: .*$|^\w+(?:Error|Exception)\b.*$', text, re.M)
        self.viol.append(('build', 'does-not-build', m.group(0)[:200] if m else text[-200:], '', d + '/report.txt'))

    def judge(self, tu, e, r):
        if r.get('error') or r['rc'] == 3:
            self.problems.append('%s: %s %s' % (e.fn, r.get('error'), r.get('log', ''))); return
        for v in r['violations']:
            self.confirm(tu, e, r, v)
        if r['violations']:
            pass
        for k, n in r['incomplete'].items():
            self.problems.append('%s: not fully explored: %s (x%d)' % (e.fn, k, n))
        if not r['violations']:
            if not r['reached']:
                self.problems.append('%s: vacuous, nothing reached' % e.fn)
            for x in e.expect_reach:
                if x not in r['reached']:
                    self.problems.append('%s: vacuous, %s not reached' % (e.fn, x))

    def confirm(self, tu, e, r, v):
        aid = v['id'] if v['kind'] == 'assert' else v['kind'] + (':' + v['id'] if v['id'] else '')
        try:
            ok, out, rc = self.replay(tu, e.fn, v['values'], v['kind'])
        except Setup as ex:
            ok, out, rc = False, str(ex)[-2000:], -1
        where = v['where']
        if not ok:
            self.unconfirmed.append((e.fn, aid, v['msg'], where, out[-800:]))
            self.problems.append('%s: counterexample for %s at %s (%s) does not reproduce natively (rc %d): %s' % (e.fn, aid, where, v['msg'], rc, out[-400:]))
            return
        k = self.known.get((e.fn, aid))
        if k:
            self.known_hit.setdefault(id(k), k); return
        n = len(self.viol)
        d = os.path.join(self.cexdir, '%02d_%s' % (n, re.sub(r'\W+', '_', e.fn + '_' + aid)[:60]))
        os.makedirs(d, exist_ok=True)
        open(d + '/values', 'w').write(''.join('%s %s\n' % (a, h) for a, _, h in v['values']))
        shutil.copy('%s/%s.cpp' % (self.work, tu.name), d + '/harness.cpp')
        for s in tu.srcs:
            try: shutil.copy(s, d)
            except OSError: pass
        open(d + '/report.txt', 'w').write('property %s\nentry %s\nviolated %s (%s): %s\nat %s\nstack:\n  %s\n\nnative replay (exit %s):\n%s\n' %
                                           (self.prop, e.fn, v['kind'], aid, v['msg'], where, '\n  '.join(v['stack']), rc, out[-6000:]))
        self.viol.append((e.fn, aid, v['msg'], where, d + '/report.txt'))

    def finish(self, level='model_checking', bounds='', outside='', level_extra=None):
        R = [r for r in self.results if not r.get('error')]
        fns = sorted({f for r in R for f in r['functions'] if '/vrtgen/' in f or '/gen/' in f or REPO in f})
        asserts = {}
        for r in R:
            for k, (c, s, f) in r['asserts'].items():
                a = asserts.setdefault(r['entry'] + '/' + k, [0, 0, 0])
                a[0] += c; a[1] += s; a[2] += f
        files = sorted({os.path.basename(l) for r in R for l in r['lines'] if '/vrtgen/' in l or '/gen/' in l})
        cov = dict(
            states=sum(r['paths'] for r in R), transitions=sum(r['instructions'] for r in R),
            traces_validated_against_impl=self.validated, samples=self.samples or [dict(entry=r['entry'], asserts=list(r['asserts'])[:5]) for r in R[:3]],
            explanation='states = symbolic paths explored to their end, transitions = IR instructions executed symbolically, traces_validated = path models re-run on the natively compiled real code',
            entries=len(R), assertions=len(asserts), assertion_evaluations=sum(a[0] + a[1] for a in asserts.values()),
            discharged_by_rewriting=sum(a[0] for a in asserts.values()), decided_by_solver=sum(a[1] for a in asserts.values()),
            memory_accesses_checked=sum(r['memory_checks'] for r in R), forks=sum(r['forks'] for r in R),
            queries=sum(r['queries'] for r in R), queries_sat=sum(r['sat'] for r in R), queries_unsat=sum(r['unsat'] for r in R), queries_unknown=sum(r['unknown'] for r in R),
            queries_answered_from_cache=sum(r['cached'] for r in R),
            solver_s=round(sum(r['solver_s'] for r in R), 3), max_query_s=max([r['max_query_s'] for r in R] or [0]),
            functions_encoded=len(fns), functions=[f.split('\t')[0][:160] for f in fns][:400], source_files=files,
            bounds=[bounds] + sorted({t.bounds for t in self.tus if t.bounds}), outside_bounds=outside,
            unconfirmed_counterexamples=len(self.unconfirmed))
        cov.update(self.extra)
        if level_extra: cov.update(level_extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov, wall_s=round(time.time() - self.t0, 2),
                  assumptions=self.assumptions, violations=len(self.viol))
        os.makedirs(EVID, exist_ok=True)
        json.dump(ev, open('%s/%s.json' % (EVID, self.prop), 'w'), indent=1)
        for k in self.known_hit.values():
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        for fn, aid, msg, where, path in self.viol:
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            print('  %s: %s: %s [%s]' % (fn, aid, msg, where))
        for p in self.problems:
            print('PROBLEM %s' % p)
        print('%s %s: %d entries, %d assertions, %d paths, %d queries, solver %.1fs, validated %d, wall %.1fs, %d violations, %d problems' % (
            self.prop, self.tier, len(R), len(asserts), cov['states'], cov['queries'], cov['solver_s'], self.validated, time.time() - self.t0, len(self.viol), len(self.problems)))
        if os.environ.get('VP_TIMES'):
            for t in sorted(self.tus, key=lambda t: -getattr(t, 't_all', 0))[:40]:
                print('   time %-30s enc %.1f run %.1f all %.1f' % (t.name, getattr(t, 't_enc', 0), getattr(t, 't_run', 0), getattr(t, 't_all', 0)))
            for r in sorted(R, key=lambda r: -r['wall_s'])[:12]:
                print('   entry %-40s %.1fs paths %d solver %.1f' % (r['entry'], r['wall_s'], r['paths'], r['solver_s']))
        if os.environ.get('VP_KEEP'): print('work', self.work)
        else: shutil.rmtree(self.work, ignore_errors=True)
        return 1 if self.viol else (2 if self.problems else 0)
