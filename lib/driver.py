"""Runs the proof units of one property against /repo's working tree."""
import ctypes, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import annotate

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
EVID = os.path.join(VERIF, 'evidence')

BACKENDS = {
    'sat': [],
    'cadical': ['--sat-solver', 'cadical'],
    'z3': ['--z3', '--external-smt2-solver', 'z3-new'],
    'cvc5': ['--cvc5'],
    'z3fpa': ['--z3', '--fpa', '--external-smt2-solver', 'z3-new'],
}
CORES = threading.BoundedSemaphore(int(os.environ.get('VP_JOBS', '8')))

class UnitError(Exception):
    pass

class Unit:
    """One verification task.

    kind: 'full'    all inputs, loops absent or completely unrolled (unwinding
                    assertions on): counterexamples replay natively
          'cut'     all inputs, loop invariants attached
          'bounded' a stated size bound; only used to find concrete inputs, or
                    as a stand-in (labelled so) when annotations do not fit
          'fuzz'    random concrete inputs run natively; same use as 'bounded'
    replace: (function, contract) pairs, calls go to the contract instead
    split:   one verifier run per obligation
    """
    def __init__(self, name, file, entry, funcs, kind='full', backends=('sat',), unwind=2, unwindset=(), loops=(),
                 defs=(), search=(), native=None, flags=(), timeout=300, bound=None, text=None, assumes=(), standin=False,
                 native_defs=(), native_timeout=20, cc=(), solver_sliced=True, checks=True, tier='quick', remove=(),
                 replace=(), split=False, fuzz_s=10, subst=()):
        self.name, self.file, self.entry, self.funcs, self.kind = name, file, entry, list(funcs), kind
        self.backends, self.unwind, self.unwindset, self.loops = list(backends), unwind, list(unwindset), list(loops)
        self.defs, self.search, self.flags, self.timeout, self.bound = list(defs), list(search), list(flags), timeout, bound
        self.native = (kind != 'cut') if native is None else native
        self.text, self.assumes, self.standin = text, list(assumes), standin
        self.native_defs, self.native_timeout, self.cc = list(native_defs), native_timeout, list(cc)
        self.sliced, self.checks, self.tier = solver_sliced, checks, tier
        self.subst = list(subst)       # (file, regex, replacement): meaning-preserving rewriting of the scratch copy
        self.remove, self.replace, self.split, self.fuzz_s = list(remove), list(replace), split, fuzz_s

class Result:
    def __init__(self, unit):
        self.unit, self.status, self.failed, self.total, self.ok = unit, None, [], 0, 0
        self.reach_bad, self.reach = [], 0
        self.backend, self.solver_s, self.wall = None, 0.0, 0.0
        self.draws = None
        self.note, self.props = '', []
        self.unwind_failed = []

# every process group started and every scratch directory made, so that none outlives the check
GROUPS, TMPS = set(), set()
LIBC = ctypes.CDLL(None)

def bye(sig, frame):
    for g in list(GROUPS):
        try:
            os.killpg(g, signal.SIGKILL)
        except OSError:
            pass
    for t in list(TMPS):
        shutil.rmtree(t, ignore_errors=True)
    os._exit(3)

for _s in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
    signal.signal(_s, bye)

def group():
    os.setsid()
    LIBC.prctl(1, signal.SIGKILL)

def limit():
    group()
    resource.setrlimit(resource.RLIMIT_AS, (9 << 30, 9 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

NATIVE_ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1')

def run(cmd, timeout, cwd=None, stop=None, native=False, stop2=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, preexec_fn=group if native else limit,
                         stdin=subprocess.DEVNULL, env=NATIVE_ENV if native else None)
    GROUPS.add(p.pid)
    out = {}
    def reader():
        out['o'], out['e'] = p.communicate()
    th = threading.Thread(target=reader)
    th.start()
    t0 = time.time()
    killed = False
    while th.is_alive():
        th.join(0.05)
        if (stop is not None and stop.is_set()) or (stop2 is not None and stop2.is_set()) or time.time() - t0 > timeout:
            killed = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            th.join()
    GROUPS.discard(p.pid)
    return (None if killed else p.returncode), out.get('o', b'').decode('utf8', 'replace'), out.get('e', b'').decode('utf8', 'replace')

class Session:
    def __init__(self, prop, tier, deadline, seed=0):
        self.seed = seed
        self.prop, self.tier = prop, tier
        self.tmp = tempfile.mkdtemp(prefix='vp-%s-' % prop)
        TMPS.add(self.tmp)
        os.environ['TMPDIR'] = self.tmp
        self.deadline = deadline
        self.lock = threading.Lock()
        self.log_lines = []
        self.searched, self.cache = {}, {}

    def log(self, *a):
        with self.lock:
            s = ' '.join(str(x) for x in a)
            self.log_lines.append(s)
            print(s, flush=True)

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def left(self):
        return max(1.0, self.deadline - time.time())

    # -- building -----------------------------------------------------------
    def build(self, u):
        d = os.path.join(self.tmp, re.sub(r'\W', '_', u.name))
        os.makedirs(os.path.join(d, 'annot'), exist_ok=True)
        files = {}
        for sp in u.loops:
            files.setdefault(sp['src'], []).append(sp)
        for f, rx, to in u.subst:
            files.setdefault(f, [])
        for f, specs in files.items():
            with open(os.path.join(SRC, f)) as fh:
                text = fh.read()
            text = annotate.annotate(text, specs)
            for f2, rx, to in u.subst:
                if f2 == f:
                    text = re.sub(rx, to, text)
            with open(os.path.join(d, 'annot', f), 'w') as fh:
                fh.write('#line 1 "%s"\n' % os.path.join(SRC, f) + text)
        gb = os.path.join(d, 'u.gb')
        cmd = ['goto-cc', '-DVP_CBMC', '-D_GNU_SOURCE', '-std=gnu11'] + ['-D' + x for x in u.defs] + u.cc + \
              ['-I' + os.path.join(d, 'annot'), '-I' + os.path.join(VERIF, 'include'), '-I' + SRC,
               '--function', u.entry, os.path.join(VERIF, 'units', u.file), '-o', gb]
        rc, o, e = run(cmd, 120)
        if rc != 0:
            if u.loops:
                raise annotate.Mismatch('annotated source does not compile: ' + (e + o)[-2000:])
            raise UnitError('goto-cc failed: ' + (e + o)[-3000:])
        gi = ['goto-instrument', '--drop-unused-functions']
        for r in u.remove:
            gi += ['--remove-function-body', r]
        if u.replace:
            rep = []
            for f, c in u.replace:
                rep += ['--replace-calls', '%s:%s' % (f, c)]
            rc, o, e = run(['goto-instrument'] + rep + [gb, gb + '1'], 120)
            if rc != 0:
                raise annotate.Mismatch('contract replacement: ' + (e + o)[-1000:])
            gb += '1'
        rc, o, e = run(gi + [gb, gb + '2'], 120)
        if rc != 0:
            raise UnitError('goto-instrument failed: ' + (e + o)[-2000:])
        return gb + '2'

    def cbmc_cmd(self, u, gb, backend, json_ui=False):
        cmd = ['cbmc', gb] + (['--json-ui'] if json_ui else []) + ['--verbosity', '8', '--unwind', str(u.unwind), '--unwinding-assertions', '--no-malloc-may-fail']
        if u.unwindset:
            cmd += ['--unwindset', ','.join(u.unwindset)]
        if not u.checks:
            cmd += ['--no-standard-checks']
        return cmd + u.flags + BACKENDS[backend]

    # -- solving ------------------------------------------------------------
    def solve(self, u, gb):
        if u.kind == 'fuzz':
            return self.fuzz(u)
        if not u.split:
            return self.solve1(u, gb)
        t0 = time.time()
        res = Result(u)
        rc, o, e = run(self.cbmc_cmd(u, gb, 'sat', True) + ['--show-properties'], 120)
        try:
            props = [p for m in json.loads(o) for p in m.get('properties', [])]
        except ValueError:
            props = []
        groups = [[p['name']] for p in props if '.assertion.' in p['name']]
        rest = {}
        for p in props:
            if '.assertion.' not in p['name']:
                rest.setdefault(p['name'].split('.')[0], []).append(p['name'])
        groups = [g[i:i + 8] for g in rest.values() for i in range(0, len(g), 8)] + groups
        if not groups:
            res.status, res.note = 'error', 'no obligations generated ' + e[-300:]
            return res
        quit_ = threading.Event()         # one obligation not discharged decides the unit
        def one(g):
            r = self.solve1(u, gb, g, quit_)
            if r.status == 'failed':
                quit_.set()
            return r
        with ThreadPoolExecutor(len(groups)) as ex:
            rs = list(ex.map(one, groups))
        used = {r.backend for r in rs if r.backend}
        res.backend = '+'.join(sorted(used)) or None
        for g, r in zip(groups, rs):
            res.total += r.total; res.ok += r.ok; res.reach += r.reach; res.solver_s += r.solver_s
            res.failed += r.failed; res.unwind_failed += r.unwind_failed; res.reach_bad += r.reach_bad
            if os.environ.get('VP_SLOW') and r.wall > 5:
                self.log('   slow %.1fs %s %s' % (r.wall, u.name, [(x, [p['description'] for p in props if p['name'] == x]) for x in g][:2]))
            if r.status == 'unknown':
                res.note += '%s: %s; ' % (g[0] if len(g) == 1 else '%d safety obligations' % len(g), r.note[:200])
        res.wall = time.time() - t0
        bad = [r.status for r in rs]
        res.status = self.verdict(res)
        if res.status in ('ok', 'unwind') and 'unknown' in bad:
            res.status = 'unknown'
        return res

    def fuzz(self, u):
        res = Result(u)
        t0 = time.time()
        res.backend = 'native'
        exe = os.path.join(self.tmp, 'fuzz_' + re.sub(r'\W', '_', u.name))
        rc, o, e = run(self.native_cmd(u, exe), 120)
        if rc != 0:
            res.status, res.note = 'unknown', 'native build failed: ' + e[-1500:]
            return res
        secs = u.fuzz_s * (1 if self.tier == 'quick' else 6)
        outs = []
        def one(k):
            with CORES:
                f = exe + '.draws%d' % k
                rc, o, e = run([exe, 'fuzz', str(self.seed * 64 + k), str(secs), f], secs + 30, cwd=self.tmp, native=True)
                outs.append((rc, o, e, f))
        ths = [threading.Thread(target=one, args=(k,)) for k in range(8)]
        for t in ths: t.start()
        for t in ths: t.join()
        res.wall = time.time() - t0
        txt = ' '.join(o.strip() for rc, o, e, f in outs)
        res.note = '%d random runs' % sum(int(x) for x in re.findall(r'runs=(\d+)', txt))
        reached = sum(int(x) for x in re.findall(r'reached=(\d+)', txt))
        for rc, o, e, f in outs:
            if rc == 1 and 'FUZZ found' in o:
                with open(f) as fh:
                    res.draws = [int(x) for x in fh.read().split()]
                m = re.findall(r'REPLAY obligation violated: (.*)', e)
                s = re.findall(r'SUMMARY: (.*)', e)
                d = m[-1] if m else s[-1] if s else 'does not terminate'
                res.failed = [dict(property='native', description=d, where='native run', function=u.entry, status='FAILURE')]
                res.status = 'failed'
                return res
        if any(rc != 0 for rc, o, e, f in outs) or not reached:
            res.status, res.note = 'unknown', res.note + ', not conclusive: ' + txt[:300] + ''.join(e[-200:] for rc, o, e, f in outs)[:500]
        else:
            res.status = 'ok'
        return res

    def solve1(self, u, gb, only=(), quit_=None):
        sel = []
        for p in only:
            sel += ['--property', p]
        stop = threading.Event()
        res = Result(u)
        done = []
        outs = {}
        t0 = time.time()
        def one(b):
            with CORES:
                if stop.is_set() or (quit_ is not None and quit_.is_set()):
                    return
                cmd = self.cbmc_cmd(u, gb, b) + sel + (['--slice-formula'] if u.sliced else [])
                t1 = time.time()
                rc, o, e = run(cmd, min(u.timeout, self.left()), stop=stop, stop2=quit_)
                outs[b] = (rc, o, e)
                res.wall = time.time() - t1
                if rc in (0, 10):
                    with self.lock:
                        if not stop.is_set():
                            done.append((b, o))
                            stop.set()
        ths = [threading.Thread(target=one, args=(b,)) for b in u.backends]
        for t in ths: t.start()
        for t in ths: t.join()
        if not done:
            res.status = 'unknown'
            res.note = '; '.join('%s: %s %s' % (b, 'timeout' if rc is None else 'rc=%s' % rc, (o[-300:] + e[-300:]) if rc is not None else '')
                                 for b, (rc, o, e) in outs.items())
            return res
        b, o = done[0]
        res.backend = b
        self.parse(res, o)
        return res

    def parse(self, res, o):
        file_, func = '?', '?'
        for ln in o.split('\n'):
            t = re.match(r'Runtime decision procedure: ([\d.e+-]+)s', ln)
            if t:
                res.solver_s += float(t.group(1))
            t = re.match(r'(\S+) function (\S+)$', ln)
            if t:
                file_, func = t.groups()
            t = re.match(r'\[([\w.:$<> -]+)\] (?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$', ln)
            if not t:
                continue
            name, line, desc, status = t.groups()
            if desc.startswith('VPREACH'):
                res.reach += 1
                if status != 'FAILURE':
                    res.reach_bad.append(desc)
                continue
            res.total += 1
            res.props.append((name, desc, status))
            if status == 'SUCCESS':
                res.ok += 1
            else:
                item = dict(property=name, description=desc, where='%s:%s' % (os.path.basename(file_), line), function=func, status=status)
                if '.unwind.' in name or '.recursion' in name:
                    res.unwind_failed.append(item)
                else:
                    res.failed.append(item)
        m = re.findall(r'\*\* (\d+) of (\d+) failed', o)
        if not m or int(m[-1][1]) != res.total + res.reach:
            res.status, res.note = 'unknown', 'unparsable verifier output'
            return
        res.status = self.verdict(res)

    def verdict(self, res):
        nobody = [f for f in res.failed if '.no-body.' in f['property']]
        if nobody:
            res.note = 'callee without contract: ' + ', '.join(sorted({f['property'].split('.no-body.')[1] for f in nobody}))
            return 'error'
        if res.failed:
            return 'failed'
        if res.unwind_failed:
            return 'unwind'
        if res.reach_bad or not (res.total or res.reach):
            res.note = 'vacuous: ' + ', '.join(res.reach_bad) if res.reach_bad else 'no obligations generated'
            return 'error'
        return 'ok'

    # -- counterexamples ----------------------------------------------------
    def trace(self, u, gb, props, backends=None):
        """draws of a counterexample to one of props, or None"""
        stop = threading.Event()
        got = []
        def one(b):
            with CORES:
                if stop.is_set():
                    return
                cmd = self.cbmc_cmd(u, gb, b, True) + ['--trace', '--stop-on-fail']
                for p in props:
                    cmd += ['--property', p]
                rc, o, e = run(cmd, min(u.timeout, self.left()), stop=stop)
                if rc == 10:
                    with self.lock:
                        if not stop.is_set():
                            got.append(o)
                            stop.set()
        ths = [threading.Thread(target=one, args=(b,)) for b in (backends or u.backends)]
        for t in ths: t.start()
        for t in ths: t.join()
        if not got:
            return None
        try:
            js = json.loads(got[0])
        except ValueError:
            return None
        tr = None
        for m in js:
            for r in m.get('result', []):
                if r.get('trace'):
                    tr = r['trace']
            if m.get('trace'):
                tr = m['trace']
        if tr is None:
            return None
        draws = []
        for st in tr:
            if st.get('stepType') == 'assignment' and st.get('lhs') == 'vp_draw' and st.get('assignmentType') != 'actual-parameter':
                fn = st.get('sourceLocation', {}).get('function', '')
                if not fn.startswith('nd_'):
                    continue
                v = st.get('value', {})
                if 'binary' in v:
                    draws.append(int(v['binary'], 2))
                elif 'data' in v:
                    draws.append(int(re.sub(r'[uUlL]+$', '', v['data'])))
        return draws

    def native_cmd(self, u, exe):
        return ['gcc', '-w', '-g', '-O0', '-std=gnu11', '-fsanitize=address', '-fno-omit-frame-pointer', '-DVP_NATIVE', '-D_GNU_SOURCE', '-DVP_ENTRY=' + u.entry] + \
              ['-D' + x for x in u.defs + u.native_defs] + u.cc + \
              ['-I' + os.path.join(VERIF, 'include'), '-I' + SRC, os.path.join(VERIF, 'units', u.file),
               os.path.join(VERIF, 'include', 'vp_native.c'), '-o', exe, '-lm', '-lpthread']

    def native(self, u, draws, keep):
        """replay draws against the real code; returns (confirmed, text)"""
        os.makedirs(keep, exist_ok=True)
        exe = os.path.join(self.tmp, 'replay_' + re.sub(r'\W', '_', u.name))
        cmd = self.native_cmd(u, exe)
        with open(os.path.join(keep, 'draws.txt'), 'w') as f:
            f.write('\n'.join(map(str, draws)) + '\n')
        with open(os.path.join(keep, 'replay.sh'), 'w') as f:
            f.write('#!/bin/sh\n# rebuilds the unit natively from the working tree and replays the recorded counterexample\nset -e\nt=$(mktemp -d)\n'
                    + ' '.join("'%s'" % c if re.search(r'[^\w./=+-]', c) else c for c in cmd).replace(exe, '"$t"/replay')
                    + '\nset +e\n"$t"/replay "$(dirname "$0")/draws.txt"; rc=$?\nrm -rf "$t"\nexit $rc\n')
        os.chmod(os.path.join(keep, 'replay.sh'), 0o755)
        rc, o, e = run(cmd, 120)
        if rc != 0:
            return False, 'native build failed: ' + e[-1500:]
        p = subprocess.Popen([exe, os.path.join(keep, 'draws.txt')], stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL,
                             cwd=self.tmp, preexec_fn=group,
                             env=NATIVE_ENV)
        try:
            o, e = p.communicate(timeout=u.native_timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            return True, 'the real code does not terminate on this input (stopped after %d s)' % u.native_timeout
        txt = 'exit status %s\n' % rc + e.decode('utf8', 'replace')[-4000:]
        return (rc not in (0, 77)), txt

class Check:
    def __init__(self, prop, units, assumptions=(), trusted=(), known=(), statement=''):
        self.prop, self.units, self.assumptions, self.known = prop, units, list(assumptions), list(known)
        self.trusted = list(trusted)
        self.by_name = {u.name: u for u in units}

    def main(self):
        tier = os.environ.get('VERIF_TIER', 'quick')
        if tier not in ('quick', 'thorough'):
            tier = 'quick'
        try:
            seed = int(os.environ.get('VERIF_SEED', '0'))
        except ValueError:
            seed = 0
        t0 = time.time()
        s = Session(self.prop, tier, t0 + (780 if tier == 'quick' else 3000), seed)
        try:
            return self.execute(s, tier, seed, t0)
        finally:
            s.close()

    def search(self, s, u, why, keep):
        """look for a concrete failing input with u's search units"""
        cands = [self.by_name[n] for n in u.search]
        results = []
        def one(c):
            try:
                gb = None if c.kind == 'fuzz' else s.build(c)
            except (UnitError, annotate.Mismatch) as ex:
                return (c, None, str(ex), None)
            with s.lock:
                ev = s.searched.setdefault(c.name, threading.Lock())
            with ev:      # a search unit shared by several failed units runs once
                if c.name not in s.cache:
                    s.cache[c.name] = s.solve(c, gb)
                r = s.cache[c.name]
            return (c, r, r.note, gb)
        with ThreadPoolExecutor(8) as ex:
            results = list(ex.map(one, cands))
        clean = True
        for c, r, note, gb in results:
            if r is None or r.status in ('unknown', 'error'):
                s.log('  search %s: %s %s' % (c.name, r.status if r else 'not built', note[:300]))
                clean = False
                continue
            if r.status in ('failed', 'unwind'):
                items = r.failed or r.unwind_failed
                ok, txt = self.replay(s, c, gb, items, keep)
                s.log('  search %s: %s; replay %s' % (c.name, items[0]['description'], 'confirmed' if ok else 'not confirmed'))
                if ok:
                    return 'confirmed', c, items, txt
                if r.status == 'failed':
                    clean = False
            else:
                s.log('  search %s: no counterexample within its bound (%s) %s' % (c.name, c.bound, r.note))
        return ('clean' if clean and cands else 'none'), None, [], ''

    def replay(self, s, u, gb, items, keep):
        items = sorted(items, key=lambda f: '.assertion.' not in f['property'])
        if '.assertion.' in items[0]['property']:
            items = [i for i in items if '.assertion.' in i['property']]
        if u.kind == 'fuzz':
            draws = s.cache[u.name].draws
        else:
            draws = s.trace(u, gb, [i['property'] for i in items])
        if draws is None:
            return False, 'no trace available'
        ok, txt = s.native(u, draws, keep)
        return ok, 'unit %s entry %s\nfailed obligation: %s (%s)\ndraws: %s\n%s' % (u.name, u.entry, items[0]['description'], items[0]['property'], draws[:200], txt)

    def execute(self, s, tier, seed, t0):
        # the searches for failing inputs run on their own in the thorough tier only (bounded, not counted as proved)
        units = [u for u in self.units if tier == 'thorough' or (u.tier == 'quick' and (u.kind not in ('bounded', 'fuzz') or u.standin))]
        results, violations, errors, bounded = [], [], [], []
        def job(u):
            if u.kind == 'fuzz':
                r = s.cache[u.name] = s.solve(u, None)
                return r, None
            try:
                gb = s.build(u)
            except annotate.Mismatch as ex:
                r = Result(u); r.status = 'mismatch'; r.note = str(ex)
                return r, None
            except UnitError as ex:
                r = Result(u); r.status = 'error'; r.note = str(ex)
                return r, None
            return s.solve(u, gb), gb
        with ThreadPoolExecutor(16) as ex:
            rs = list(ex.map(job, [u for u in units if u.kind != 'fuzz']))
        rs += [job(u) for u in units if u.kind == 'fuzz']
        for r, gb in rs:
            u = r.unit
            s.log('%-9s %-28s %s/%s obligations, backend %s, solver %.1fs, wall %.1fs %s' %
                  (r.status, u.name, r.ok, r.total, r.backend, r.solver_s, r.wall, r.note[:600]))
            r.failed.sort(key=lambda f: '.assertion.' not in f['property'])
            for f in (r.failed + r.unwind_failed)[:8]:
                s.log('   obligation not discharged: [%s] %s (%s in %s)' % (f['property'], f['description'], f['where'], f['function']))
            results.append(r)
        # second pass: violations
        rep = os.path.join(EVID, 'replay-' + self.prop)
        shutil.rmtree(rep, ignore_errors=True)
        for r, gb in rs:
            u = r.unit
            if r.status == 'ok':
                continue
            keep = os.path.join(rep, re.sub(r'\W', '_', u.name))
            if r.status == 'failed' or r.status == 'unwind':
                items = r.failed or r.unwind_failed
                conf, txt = False, ''
                st = 'none'
                if u.search:
                    st, c, it2, txt = self.search(s, u, items, keep)
                    conf = st == 'confirmed'
                if not conf and u.native and r.status == 'failed':
                    conf, txt2 = self.replay(s, u, gb, items, keep)
                    txt = txt + '\n' + txt2
                if r.status == 'unwind' and not conf:
                    if st == 'clean':
                        bounded.append((u, 'loop bound of the unit exceeded'))
                    else:
                        errors.append((u, 'loop bound exceeded, replay: ' + txt[-500:]))
                    continue
                violations.append((u, items, conf, txt, keep))
            elif r.status in ('mismatch', 'unknown', 'error'):
                if u.search:
                    st, c, items, txt = self.search(s, u, [], keep)
                    if st == 'confirmed':
                        violations.append((u, items, True, txt, keep))
                    elif st == 'clean' and r.status in ('mismatch', 'unknown', 'error'):
                        bounded.append((u, '%s: %s' % (r.status, r.note[:300])))
                    else:
                        errors.append((u, r.status + ' ' + r.note))
                else:
                    errors.append((u, r.status + ' ' + r.note))
        total = sum(r.total for r in results if r.unit.kind not in ('bounded', 'fuzz'))
        ok = sum(r.ok for r in results if r.unit.kind not in ('bounded', 'fuzz'))
        per = [dict(unit=r.unit.name, functions=r.unit.funcs, kind=r.unit.kind, bound=r.unit.bound, obligations=r.total, discharged=r.ok,
                    reachability_covers=r.reach, backend=r.backend, solver_s=round(r.solver_s, 2), status=r.status) for r in results]
        bounded_units = [x['unit'] for x in per if x['kind'] in ('bounded', 'fuzz')]
        funcs = sorted({f for r in results if r.status == 'ok' and r.unit.kind not in ('bounded', 'fuzz') for f in r.unit.funcs})
        ev = dict(property=self.prop, tier=tier, seed=seed, level='proof',
                  coverage=dict(obligations=total, discharged=ok, checker_cmd='goto-cc + cbmc 6.11 (' + ', '.join(sorted({r.backend for r in results if r.backend})) + ')',
                                trusted_base=['cbmc 6.11 VC generation and C semantics (x86_64 LP64)', 'back ends: built-in SAT, z3-new, cvc5 as used per unit',
                                              '/verif/include/vp.h and the unit harnesses (contracts)'] + self.trusted,
                                functions_under_contract=funcs, units=per, samples=per[:2],
                                solver_seconds=round(sum(r.solver_s for r in results), 2),
                                bounded_units=bounded_units,
                                not_proved_bounded_fallback=['%s: %s' % (u.name, n) for u, n in bounded],
                                unit_errors=['%s: %s' % (u.name, n[:300]) for u, n in errors]),
                  assumptions=sorted(set(self.assumptions + [a for u in units for a in u.assumes])),
                  wall_s=round(time.time() - t0, 2), violations=len(violations))
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for u, n in bounded:
            s.log('BOUNDED stand-in used for unit %s (%s)' % (u.name, n[:300]))
        for k in self.known:
            s.log('KNOWN-FINDING: property=%s %s' % (self.prop, k))
        if violations:
            violations.sort(key=lambda v: not v[2])
            for u, items, conf, txt, keep in violations:
                os.makedirs(keep, exist_ok=True)
                path = os.path.join(keep, 'report.txt')
                with open(path, 'w') as f:
                    f.write('property %s, unit %s (functions %s)\n' % (self.prop, u.name, ', '.join(u.funcs)))
                    for i in items:
                        f.write('obligation not discharged: [%s] %s (%s in %s)\n' % (i['property'], i['description'], i['where'], i['function']))
                    f.write('\n' + txt + '\n')
                s.log('VIOLATION property=%s replay=%s%s' % (self.prop, path, '' if conf else ' no-failing-input-found'))
            return 1
        if errors:
            for u, n in errors:
                s.log('ERROR unit %s: %s' % (u.name, n[:700]))
            return 2
        return 0
