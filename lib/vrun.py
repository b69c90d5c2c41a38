"""Shared runner: verdicts, evidence, known findings, child processes.

A check is a module checks/<id>.py with run(ctx). Exit code 0: held on everything explored;
1: at least one violation not listed in known-findings.txt; 2: the check itself could not decide.
"""
import hashlib, json, os, random, re, selectors, signal, subprocess, sys, threading, time, traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, 'out')
KF = os.path.join(VERIF, 'known-findings.txt')
NCPU = os.cpu_count() or 4


class Inconclusive(Exception):
    pass


def known_findings():
    """lines: `finding: property=<id> key=<regex, whole key> | text`; `fixed: ...` lines suppress nothing"""
    out = []
    if os.path.exists(KF):
        for l in open(KF):
            m = re.match(r'finding:\s+property=(\S+)\s+key=(\S+)\s+\|\s*(.*)', l)
            if m:
                out.append((m[1], m[2], m[3].strip()))
    return out


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rng = random.Random(f'{pid}:{seed}')
        self.quick = tier == 'quick'
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.distinct_extra = 0
        self.samples = []
        self.rule = ''
        self.cov = {}
        self.assumptions = []
        self.nviol = 0
        self.stalled = False
        self.deadline = time.monotonic() + 780 if tier == 'quick' else None
        self.known_hit = set()
        self.vkeys = {}
        self.notes = []
        self.level = 'exploration'
        self.lock = threading.Lock()
        self.kf = [k for k in known_findings() if k[0] == pid]

    # -- counting -------------------------------------------------------
    def scale(self, quick, thorough):
        return quick if self.quick else thorough

    def add(self, n=1, key=None):
        with self.lock:
            self.evaluations += n
            if key is not None:
                self.distinct.add(hash(key) if not isinstance(key, (int, str)) else key)

    def sample(self, s):
        with self.lock:
            if len(self.samples) < 8:
                self.samples.append(s)

    def count(self, name, n=1):
        with self.lock:
            self.cov[name] = self.cov.get(name, 0) + n

    def build(self, flavour, parts, *harness):
        import vbuild
        return vbuild.get(flavour, parts, harness)

    def left(self, budget):
        return budget - (time.time() - self.t0)

    # -- verdicts -------------------------------------------------------
    def violation(self, key, msg, replay=None):
        """key: stable identification of what failed (used for known-findings and de-duplication)"""
        with self.lock:
            self.vkeys[key] = self.vkeys.get(key, 0) + 1
            for _, rx, text in self.kf:
                if re.fullmatch(rx, key):
                    if rx not in self.known_hit:
                        self.known_hit.add(rx)
                        print(f'KNOWN-FINDING: property={self.pid} {text}', flush=True)
                    return
            self.nviol += 1
            if self.vkeys[key] > 1 or len(self.vkeys) > 20:
                return
            os.makedirs(OUT, exist_ok=True)
            h = hashlib.sha256(key.encode()).hexdigest()[:8]
            p = os.path.join(OUT, f'{self.pid}-{h}.json')
            with open(p, 'w') as f:
                json.dump({'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'key': key,
                           'message': msg, 'replay': replay}, f, indent=1, default=str)
            print(f'VIOLATION property={self.pid} replay={p}', flush=True)
            print(f'  key: {key}\n  ' + str(msg)[:3000].replace('\n', '\n  '), flush=True)

    def finish(self):
        cov = {'evaluations': self.evaluations,
               'distinct_nontrivial': len(self.distinct) + self.distinct_extra,
               'rule': self.rule, 'samples': self.samples or ['(none)']}
        cov.update(self.cov)
        if self.notes:
            cov['notes'] = self.notes
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': self.nviol}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        if self.nviol:
            return 1
        if self.evaluations == 0 or cov['distinct_nontrivial'] == 0:
            print(f'INCONCLUSIVE: {self.pid}: nothing was observed')
            return 2
        print(f'{self.pid}: held on {self.evaluations} evaluations, {cov["distinct_nontrivial"]} distinct; '
              f'{ev["wall_s"]} s')
        return 0


SAN_ENV = {
    'ASAN_OPTIONS': 'abort_on_error=1:detect_leaks=0:handle_abort=1:allocator_may_return_null=1:detect_stack_use_after_return=0:'
                    'max_allocation_size_mb=8192:print_summary=1:alloc_dealloc_mismatch=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:abort_on_error=1',
    'TSAN_OPTIONS': 'halt_on_error=0:exitcode=66:second_deadlock_stack=1:history_size=4:report_signal_unsafe=0',
}


def san_env(extra=None, **kw):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(('LD_PRELOAD', 'ASAN', 'TSAN', 'UBSAN', 'PYTHON')):
            del e[k]
    e.update(SAN_ENV)
    e['LANG'] = 'C.UTF-8'
    e['XDG_CONFIG_HOME'] = '/nonexistent-verif'
    if extra:
        e.update(extra)
    e.update(kw)
    return e


def run_proc(cmd, timeout, env=None, cwd=None, deadline=None):
    """returns (rc, stdout, stderr, timed_out); rc<0 for signals; timed out: no output for `timeout` seconds.
    A process still running at the deadline is ended (rc None)."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env or san_env(), cwd=cwd,
                         stdin=subprocess.DEVNULL, start_new_session=True)
    bufs = {p.stdout: bytearray(), p.stderr: bytearray()}
    to = cut = False
    with selectors.DefaultSelector() as sel:
        for f in bufs:
            sel.register(f, selectors.EVENT_READ)
        last = time.monotonic()
        while sel.get_map():
            ev = sel.select(5)
            for k, _ in ev:
                d = os.read(k.fd, 1 << 20)
                if d:
                    bufs[k.fileobj] += d
                    last = time.monotonic()
                else:
                    sel.unregister(k.fileobj)
            if deadline and time.monotonic() > deadline and not cut:
                cut = True
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
            if not ev and not to and time.monotonic() - last > timeout:
                to = True
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
            if not ev and (to or p.poll() is not None) and time.monotonic() - last > timeout + 20:
                break                    # something else still holds the pipes
    p.stdout.close()
    p.stderr.close()
    p.wait()
    return None if cut else p.returncode, bufs[p.stdout].decode('utf-8', 'replace'), bufs[p.stderr].decode('utf-8', 'replace'), to


_frame_rx = re.compile(r'#\d+ 0x[0-9a-f]+ in (.+?) (?:/|\(|<)')


def crash_key(rc, err):
    """stable key of a crash: sanitizer kind + innermost /repo functions"""
    m = re.search(r'ERROR: AddressSanitizer: (?:attempting )?(\S+)', err)
    kind = None
    if m:
        kind = 'asan:' + m[1]
    else:
        m = re.search(r'runtime error: (.*)', err)
        if m:
            kind = 'ubsan:' + re.sub(r'-?\d[\d.e+]*', 'N', m[1])[:60]
        else:
            m = re.search(r"Assertion [`'](.{0,60})", err)
            if m:
                kind = 'assert:' + m[1]
            elif 'ERROR: ThreadSanitizer' in err:
                kind = 'tsan:deadly'
            elif rc is not None and rc < 0:
                try:
                    kind = signal.Signals(-rc).name
                except ValueError:
                    kind = f'sig{-rc}'
            else:
                kind = f'exit{rc}'
    fns = []
    for l in err.splitlines():
        m = re.match(r'\s*#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?)(:\d+)', l)
        if m and '/repo/' in m[2]:
            fns.append(re.sub(r'\(.*', '', m[1]))
            if len(fns) == 2:
                break
    return re.sub(r'\s+', '_', kind + (':' + '<'.join(fns) if fns else ''))


def tsan_reports(err):
    """[(key, text)] of the ThreadSanitizer reports in err; keys without line numbers"""
    out = []
    for blk in re.split(r'={18,}\n', err):
        m = re.match(r'WARNING: ThreadSanitizer: (.+?) \(pid', blk)
        if not m:
            continue
        stacks = []
        cur = None
        for l in blk.splitlines():
            if re.match(r'  (Write|Read|Previous|Atomic|Mutex|As if)', l) or re.match(r'  \S', l):
                cur = []
                stacks.append(cur)
            m2 = re.match(r'\s+#\d+ (.+?) (/\S+|<null>)', l)
            if m2 and cur is not None:
                cur.append((m2[1], m2[2]))
        fns = []
        for s in stacks[:2]:
            for fn, path in s:
                if '/repo/' in path:
                    fns.append(re.sub(r'\(.*', '', fn))
                    break
            else:
                fns.append('?')
        out.append(('tsan:' + m[1].split(' ')[0] + '-' + m[1].split(' ')[-1] + ':' + '|'.join(sorted(fns)), blk))
    return out


def pmap(fn, items, workers=None):
    with ThreadPoolExecutor(workers or NCPU) as ex:
        return list(ex.map(fn, items))


def run_harness(ctx, exe, base_args, cases, shards=None, timeout=100, env=None, prefix='', first=0):
    """Runs `exe <base_args> --seed S --from A --to B` over the case range in shards.
    Harness protocol (stdout lines):
      CASE <k>                 a case begins
      VIOL <key> <text>        the monitor refutes the property on this case
      SKIP <text>
      DONE <json>              totals: {"evals":..,"distinct":..,...counters}
      SAMPLE <text>
    A crash is a violation of the case it happened in; a case without output for `timeout` seconds is re-run once on its own
    and a violation if it stalls again, which also ends the exploration."""
    if ctx.stalled:
        return {}
    shards = shards or min(NCPU, cases)
    env = env or san_env()
    step = (cases + shards - 1) // shards
    jobs = [(first + i, min(first + i + step, first + cases)) for i in range(0, cases, step)]
    counters = {}

    def one(job):
        a, b = job
        tries = 0
        while a < b and tries < 6 and not ctx.stalled:
            cmd = ([exe] if isinstance(exe, str) else list(exe)) + [str(x) for x in base_args] + ['--seed', str(ctx.seed), '--from', str(a), '--to', str(b)]
            rc, o, e, to = run_proc(cmd, timeout, env, deadline=ctx.deadline)
            last = a
            done = None
            for l in o.splitlines():
                if l.startswith('CASE '):
                    last = int(l.split()[1])
                elif l.startswith('VIOL '):
                    _, key, msg = (l.split(' ', 2) + [''])[:3]
                    rcmd = cmd[:-4] + ['--from', str(last), '--to', str(last + 1)]
                    ctx.violation(prefix + key, msg, {'cmd': rcmd, 'case': last})
                elif l.startswith('DONE '):
                    done = json.loads(l[5:])
                elif l.startswith('SAMPLE '):
                    ctx.sample(l[7:])
                elif l.startswith('SKIP '):
                    ctx.count('skipped')
            for key, text in tsan_reports(e):
                ctx.violation(prefix + key, text, {'cmd': cmd[:-4] + ['--from', str(last), '--to', str(last + 1)], 'case': last})
            if done is not None:
                with ctx.lock:
                    for k, v in done.items():
                        counters[k] = counters.get(k, 0) + v
            one_cmd = cmd[:-4] + ['--from', str(last), '--to', str(last + 1)]
            if done is not None and rc in (0, 66):
                return
            tries += 1
            if rc is None:     # out of time
                ctx.count('shards_cut_short')
                return
            if rc == 77:       # the harness itself says it could not run
                raise Inconclusive(f'{" ".join(cmd)}: {o[-500:]}{e[-500:]}')
            if to:
                rc2, o2, e2, to2 = run_proc(one_cmd, timeout, env)
                if to2:
                    ctx.violation(prefix + 'hang', f'case {last} did nothing for {timeout} s, twice', {'cmd': one_cmd, 'case': last})
                    ctx.stalled = True
                    return
                ctx.count('timeouts_not_reproduced')
                a = last + 1
                continue
            if rc == -signal.SIGKILL:      # out of memory, perhaps because of something else
                rc2, o2, e2, to2 = run_proc(one_cmd, timeout, env)
                if rc2 != rc:
                    ctx.count('kills_not_reproduced')
                    a = last + 1
                    continue
            ctx.violation(prefix + crash_key(rc, e), f'rc={rc}\n' + e[-6000:], {'cmd': one_cmd, 'case': last})
            a = last + 1

    pmap(one, jobs, shards)
    with ctx.lock:
        ctx.evaluations += counters.pop('evals', 0)
        ctx.distinct_extra += counters.pop('distinct', 0)
        for k, v in counters.items():
            ctx.cov[k] = ctx.cov.get(k, 0) + v
    return counters


def main(pid, tier):
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    sys.path.insert(0, os.path.join(VERIF, 'lib'))
    sys.path.insert(0, VERIF)
    ctx = Ctx(pid, tier, seed)
    os.makedirs(OUT, exist_ok=True)
    for f in os.listdir(OUT):
        if f.startswith(pid + '-'):
            try:
                os.unlink(os.path.join(OUT, f))
            except OSError:
                pass
    try:
        import importlib
        importlib.import_module('checks.' + pid).run(ctx)
        rc = ctx.finish()
    except Exception:
        traceback.print_exc()
        rc = 2
        if ctx.nviol:
            rc = ctx.finish()
        else:
            print(f'INCONCLUSIVE: {pid}: the check could not be completed')
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
