"""Shared machinery: build the harness against /repo, run jobs through the real code, hand the recorded
events to TLC, write evidence.  Exit codes of a check: 0 held, 1 VIOLATION, anything else = tool error."""
import json, os, re, resource, shutil, subprocess, sys, time

VERIF = os.environ.get('VERIF_ROOT') or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
WORK = os.path.join(VERIF, 'work')
TARGET = os.path.join(VERIF, 'target')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class ToolError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def workdir(pid):
    d = os.path.join(WORK, pid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def build():
    env = dict(os.environ)
    env['PATH'] = '/root/.cargo/bin:' + env.get('PATH', '')
    env.update(CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE='true', RUSTC_WRAPPER='', CARGO_TERM_COLOR='never',
               RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', HOME='/root')
    r = subprocess.run(['cargo', 'build', '--offline', '--locked', '--quiet'], cwd=os.path.join(VERIF, 'harness'),
                       env=env, capture_output=True, text=True)
    if r.returncode != 0:
        raise ToolError('harness build failed:\n' + r.stderr[-4000:])
    return os.path.join(TARGET, 'debug', 'vharness')


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (2 << 30, 2 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def _stream(binary, lines, job_timeout):
    """run the lines through one process; returns the answers that came before it ended, died or stood still"""
    import select, tempfile
    out = []
    with tempfile.TemporaryFile() as f:
        f.write(('\n'.join(lines) + '\n').encode())
        f.seek(0)
        p = subprocess.Popen([binary], stdin=f, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, preexec_fn=_limits)
    buf = b''
    fd = p.stdout.fileno()
    last = time.time()
    try:
        while True:
            r, _, _ = select.select([fd], [], [], 1.0)
            if r:
                d = os.read(fd, 1 << 20)
                if not d:
                    break
                buf += d
                *done, buf = buf.split(b'\n')
                if done:
                    out += [l.decode() for l in done]
                    last = time.time()
            elif time.time() - last > job_timeout:
                p.kill()
                break
    finally:
        p.kill() if p.poll() is None and len(out) < len(lines) else None
        p.wait()
        p.stdout.close()
    if p.returncode == 3:
        raise ToolError('harness rejected its input')
    return out


MAX_CRASHES = 12


def run_jobs(binary, jobs, job_timeout=10):
    """Run every job on the real code.  A job that kills or hangs the process becomes an event whose queries
    have the outcome "crash"; after MAX_CRASHES of these the remaining jobs are not run."""
    import concurrent.futures as cf
    crashes = []

    def crash(job):
        crashes.append(1)
        ev = json.loads(json.dumps(job))
        for st in ev['steps']:
            if st['op'] in ('dv', 'df', 'uv', 'uf'):
                st['r'] = True
            else:
                st['r'] = {'s': 'crash', 'e': '', 'd': '', 'st': ''}
        ev['crash'] = True
        return ev

    def go(js):
        res = []
        while js and len(crashes) < MAX_CRASHES:
            out = _stream(binary, [json.dumps(j) for j in js], job_timeout)
            res += [json.loads(l) for l in out]
            js = js[len(out):]
            if js:
                res.append(crash(js[0]))
                js = js[1:]
        return res

    res = []
    B = 400
    batches = [jobs[i:i + B] for i in range(0, len(jobs), B)]
    with cf.ThreadPoolExecutor(8) as ex:
        for r in ex.map(go, batches):
            res.extend(r)
    if crashes:
        log('  %d jobs killed or hung the process' % len(crashes))
    return res


def write_nd(path, events):
    with open(path, 'w') as f:
        for e in events:
            f.write(json.dumps(e, ensure_ascii=True, separators=(',', ':')) + '\n')


class Tlc:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = None
        for m in re.finditer(r'^([\d,]+) states generated, ([\d,]+) distinct states found', out, re.M):
            pass
        self.generated = int(m.group(1).replace(',', '')) if m else 0
        self.distinct = int(m.group(2).replace(',', '')) if m else 0
        self.lines = []
        for l in out.split('\n'):
            if l.startswith('"') and l.endswith('"'):
                try:
                    self.lines.append(json.loads(l))
                except ValueError:
                    self.lines.append(l[1:-1].replace('\\"', '"').replace('\\\\', '\\'))


def tlc(module, work, env=None, cfg=None, workers=8, timeout=800, args=(), heap='8g', ok_rc=(0,)):
    meta = os.path.join(work, 'meta_' + module)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss256m', '-Djava.io.tmpdir=' + work, '-Dtlc2.TLC.stopAfter=%d' % (timeout + 20),
           '-cp', JAR, 'tlc2.TLC', '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE',
           '-config', cfg or module + '.cfg', *args, module + '.tla']
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout + 30)
    except subprocess.TimeoutExpired:
        raise ToolError('TLC timed out on ' + module)
    shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout
    if r.returncode not in ok_rc:
        tail = '\n'.join(out.split('\n')[-60:])
        open(os.path.join(work, 'tlc_%s.log' % module), 'w').write(out + r.stderr)
        raise ToolError('TLC failed on %s (rc %s):\n%s\n%s' % (module, r.returncode, tail, r.stderr[-1500:]))
    return Tlc(out, r.returncode, time.time() - t)


class Check:
    """Collects results of one property's check."""

    def __init__(self, pid, level='model_checking'):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.work = workdir(pid)
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        self.viol = []
        self.assume = []
        self.known = load_known(pid)
        self.known_seen = {}
        self.stages = []

    def add(self, states=0, transitions=0, traces=0):
        self.cov['states'] += states
        self.cov['transitions'] += transitions
        self.cov['traces_validated_against_impl'] += traces

    def sample(self, x):
        if len(self.cov['samples']) < 6:
            self.cov['samples'].append(x)

    def violation(self, what, event):
        self.viol.append((what, event))

    def known_finding(self, key, what):
        self.known_seen.setdefault(key, what)

    def finish(self):
        cov = self.cov
        for k, v in self.stages:
            cov.setdefault('stages', {})[k] = v
        ev = {'property': self.pid, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED,
              'level': self.level, 'coverage': cov, 'assumptions': self.assume,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.viol)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k, kf in self.known.items():
            log('KNOWN-FINDING: property=%s %s' % (self.pid, kf['what']))
        log('%s: %d states, %d transitions, %d traces; %.1f s' % (
            self.pid, cov['states'], cov['transitions'], cov['traces_validated_against_impl'], ev['wall_s']))
        for k, v in self.stages:
            log('  ', k, json.dumps(v))
        if self.viol:
            d = os.path.join(VERIF, 'work', 'replay')
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, self.pid + '.json')
            with open(p, 'w') as f:
                json.dump([{'what': w, 'event': e} for w, e in self.viol[:400]], f, indent=1)
            for w, e in self.viol[:5]:
                log('  violation:', w, json.dumps(e)[:1500])
            log('VIOLATION property=%s replay=%s' % (self.pid, p))
            return 1
        return 0


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return {}
    return {k['key']: k for k in json.load(open(p)).get('known', []) if k['property'] == pid}


def validate(chk, module, events, name, extra_env=None, chunk=40000, timeout=800):
    """Have TLC judge the events with the trace specification `module`.  Prints: "R <i> <verdict>" once per event,
    "BAD <i> <step> <why>" for mismatches, "KNOWN <i> <key>" for listed findings."""
    stats = {'events': len(events)}
    if not events:
        return stats
    for off in range(0, len(events), chunk):
        evs = events[off:off + chunk]
        path = os.path.join(chk.work, '%s_%d.ndjson' % (name, off))
        write_nd(path, evs)
        env = {'TRACE': path}
        env.update(extra_env or {})
        r = tlc(module, chk.work, env=env, timeout=timeout)
        stats['tlc_s'] = round(stats.get('tlc_s', 0) + r.wall, 1)
        seen = 0
        for l in r.lines:
            w = l.split(' ', 3)
            if w[0] == 'R':
                seen += 1
                stats[w[2]] = stats.get(w[2], 0) + 1
            elif w[0] == 'BAD':
                chk.violation('step %s: %s' % (w[2], w[3]), evs[int(w[1]) - 1])
            elif w[0] == 'KNOWN':
                if w[2] in chk.known:
                    chk.known_finding(w[2], w[3] if len(w) > 3 else '')
                    stats['known'] = stats.get('known', 0) + 1
                else:
                    chk.violation('finding not listed: ' + w[2], evs[int(w[1]) - 1])
        if seen != len(evs):
            open(os.path.join(chk.work, 'tlc.log'), 'w').write(r.out)
            raise ToolError('%s: TLC judged %d of %d events' % (module, seen, len(evs)))
        chk.add(r.distinct, r.generated, seen)
        os.remove(path)
    chk.stages.append((name, stats))
    return stats
