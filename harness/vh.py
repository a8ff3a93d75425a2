"""Common machinery: building bab, running it under control, running TLC, verdicts."""
import atexit, json, os, random, re, select, shutil, signal, socket, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
NCPU = os.cpu_count() or 4
GOENV = dict(os.environ, HOME='/root', GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod',
             GOTOOLCHAIN='local', GOFLAGS='-mod=mod -buildvcs=false', GOPROXY='off', GOWORK='off',
             PATH='/opt/veriftools/go1.25.14/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
GOENV.setdefault('GOCACHE', '/root/.cache/go-build')
GOENV['GOCACHE'] = '/root/.cache/go-build'

_scratch = None
def scratch():
    """Scratch directory of this run; removed at exit."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='bv-', dir='/tmp')
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch

class CheckError(Exception):
    """The machinery (not bab) failed."""

def run(cmd, **kw):
    kw.setdefault('stdout', subprocess.PIPE); kw.setdefault('stderr', subprocess.STDOUT)
    return subprocess.run(cmd, **kw)

def build_probe():
    p = os.path.join(scratch(), 'probe')
    if not os.path.exists(p):
        src, pre = os.path.join(VERIF, 'harness/native/probe.c'), os.path.join(VERIF, 'build', 'probe')
        if os.path.exists(pre) and os.path.getmtime(pre) > os.path.getmtime(src): shutil.copy(pre, p)
        else:
            r = run(['gcc', '-O1', '-o', p, src])
            if r.returncode: raise CheckError('probe does not build: ' + r.stdout.decode())
    return p

def build_bab(version=None):
    """Build bab from REPO's working tree."""
    out = os.path.join(scratch(), 'bab' if version is None else 'bab-' + version)
    cmd = ['go', 'build', '-o', out]
    if version is not None: cmd += ['-ldflags', '-X main.version=' + version]
    r = run(cmd + ['.'], cwd=REPO, env=GOENV)
    if r.returncode: raise CheckError('bab does not build: ' + r.stdout.decode())
    return out

def build_driver(name):
    """Build harness/drivers/<name>/*.go inside the module of REPO through an overlay (nothing is written there)."""
    src = os.path.join(VERIF, 'harness/drivers', name)
    ov = {'Replace': {os.path.join(REPO, 'internal/verifdrv', name, f): os.path.join(src, f)
                      for f in os.listdir(src) if f.endswith('.go')}}
    of = os.path.join(scratch(), name + '-overlay.json')
    with open(of, 'w') as f: json.dump(ov, f)
    out = os.path.join(scratch(), 'drv-' + name)
    r = run(['go', 'build', '-overlay', of, '-o', out, './internal/verifdrv/' + name], cwd=REPO, env=GOENV)
    if r.returncode: raise CheckError('driver %s does not build: %s' % (name, r.stdout.decode()))
    return out

def pmap(f, xs, n=None):
    with ThreadPoolExecutor(n or 2 * NCPU) as ex: return list(ex.map(f, xs))

T0 = time.time(); SKIPPED = [0]
def drive(f, xs, n=None, bad=None, enough=8, limit=None):
    """pmap that stops early: after `enough` results for which bad() holds, or when the time is up.
    Returns the inputs done and their results."""
    xs = list(xs); limit = limit or (400 if os.environ['VERIF_TIER'] == 'quick' else 6 * 3600); nb = [0]
    def one(x):
        if nb[0] >= enough or time.time() - T0 > limit: return None
        r = f(x)
        if bad and bad(r): nb[0] += 1
        return (x, r)
    done = [y for y in pmap(one, xs, n) if y]; SKIPPED[0] += len(xs) - len(done)
    return [x for x, _ in done], [r for _, r in done]

# ---------------------------------------------------------------- TLC
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
_tlcn = [0]; _lk = threading.Lock()
def tlc(module, cfg=None, env=None, workers=1, args=(), heap='1500m', timeout=840, ok_codes=(0,)):
    """Run TLC on spec/<module>.tla in a scratch copy of spec/; returns (exit code, output)."""
    with _lk:
        _tlcn[0] += 1; n = _tlcn[0]
        d = os.path.join(scratch(), 'tlc%d' % n)
        shutil.copytree(SPEC, d)
    if cfg is not None and '\n' in cfg:
        with open(os.path.join(d, 'gen.cfg'), 'w') as f: f.write(cfg)
        cfg = 'gen.cfg'
    e = dict(os.environ); e.update(env or {})
    cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xss64m', '-Xmx' + heap, '-cp', JAR, 'tlc2.TLC', '-workers', str(workers),
           '-noGenerateSpecTE', '-nowarning', '-metadir', os.path.join(d, 'states'), '-config', cfg or module + '.cfg', *args, module + '.tla']
    try: r = run(cmd, cwd=d, env=e, timeout=timeout)
    except subprocess.TimeoutExpired: raise CheckError('TLC timed out on ' + module)
    out = r.stdout.decode(errors='replace')
    shutil.rmtree(d, ignore_errors=True)
    if ok_codes is not None and r.returncode not in ok_codes:
        raise CheckError('TLC failed on %s (exit %d):\n%s' % (module, r.returncode, out[-6000:]))
    return r.returncode, out

def tlc_stats(out):
    m = re.findall(r'(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states', out.replace(',', ',').replace('\u202f', ''))
    m = re.findall(r'([\d,]+) states generated.*?, ([\d,]+) distinct states', out)
    if not m: return 0, 0
    a, b = m[-1]
    return int(a.replace(',', '')), int(b.replace(',', ''))

def jdump(x, path):
    with open(path, 'w') as f: json.dump(x, f)

def shards(xs, n):
    n = max(1, min(n, len(xs)))
    return [xs[i::n] for i in range(n)]

# ---------------------------------------------------------------- verdicts and evidence
def known_findings():
    p = os.path.join(VERIF, 'known-findings.jsonl')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#'): out.append(json.loads(l))
    return out

class Check:
    def __init__(self, pid, level='model_checking'):
        self.pid, self.level, self.t0 = pid, level, time.time()
        self.viol = []; self.cov = {}; self.assume = []; self.samples = []
        self.rng = random.Random('%s/%d' % (pid, SEED))
    def violation(self, what, replay):
        """replay: JSON-able description sufficient to reproduce."""
        self.viol.append((what, replay))
    def add(self, **kw):
        for k, v in kw.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool): self.cov[k] = self.cov.get(k, 0) + v
            else: self.cov[k] = v
    def sample(self, s, n=4):
        if len(self.samples) < n: self.samples.append(s)
    def finish(self):
        self.cov['samples'] = self.samples
        if SKIPPED[0]: self.cov['inputs_not_driven'] = SKIPPED[0]
        known = [k for k in known_findings() if k.get('property') == self.pid and k.get('status') == 'open']
        bad = []
        for what, replay in self.viol:
            key = json.dumps(replay, sort_keys=True, ensure_ascii=False)
            hit = [k for k in known if k.get('match') and k['match'] in what + key]
            if not hit: bad.append((what, replay))
        for k in known: print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        ev = dict(property=self.pid, tier=TIER, seed=SEED, level=self.level, coverage=self.cov,
                  assumptions=self.assume, wall_s=round(time.time() - self.t0, 2), violations=len(bad))
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
        if bad:
            rd = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(rd, exist_ok=True)
            for n, (what, replay) in enumerate(bad[:5]):
                rp = os.path.join(rd, '%s-%d.json' % (self.pid, n))
                with open(rp, 'w') as f: json.dump(dict(property=self.pid, what=what, case=replay), f, indent=1)
                print('VIOLATION property=%s replay=%s' % (self.pid, rp))
                print('  ' + what.replace('\n', '\n  ')[:3000])
            sys.stdout.flush()
            return 1
        print('%s: held (%s) %.1fs' % (self.pid, ', '.join('%s=%s' % (k, v) for k, v in self.cov.items() if isinstance(v, int)), time.time() - self.t0))
        return 0

def main(fn):
    try: rc = fn()
    except CheckError as e:
        print('CHECK-ERROR: %s' % e); rc = 3
    except Exception:
        import traceback; traceback.print_exc(); rc = 4
    sys.stdout.flush(); sys.exit(rc)

# ---------------------------------------------------------------- running bab
def base_env(sock=None, home=None, **extra):
    e = {'PATH': scratch() + ':/usr/local/bin:/usr/bin:/bin', 'HOME': home or os.path.join(scratch(), 'home'),
         'LANG': 'C.UTF-8', 'BAB_NO_UPDATE_CHECK': '1', 'TERM': 'screen-256color'}
    if sock: e['BABP_SOCK'] = sock
    e.update(extra)
    return e

def write_files(root, files):
    for name, text in files.items():
        p = os.path.join(root, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if text is None: os.makedirs(p, exist_ok=True); continue
        with open(p, 'w') as f: f.write(text if isinstance(text, str) else json.dumps(text, ensure_ascii=False))

_dn = [0]
def newdir(prefix='s'):
    with _lk:
        _dn[0] += 1
        d = os.path.join(scratch(), '%s%d' % (prefix, _dn[0]))
    os.makedirs(d)
    return d

class Conn:
    __slots__ = ('s', 'buf', 'kind', 'id', 'val', 'released', 'dead', 'acks', 'got')
    def __init__(self, s): self.s = s; self.buf = b''; self.kind = None; self.id = None; self.val = None; self.released = False; self.dead = False; self.acks = 0

LOGRE = re.compile(r'LOG:(\w+):([^\n]*?):GOL')

class Session:
    """One bab process, its probes, and the recorded history."""
    def __init__(self, bab, args, cwd, env=None, pty=False, stdin=None, size=(40, 120), merge=False):
        self.dir = newdir('x'); self.sock = os.path.join(self.dir, 's')
        self.l = socket.socket(socket.AF_UNIX); self.l.bind(self.sock); self.l.listen(64); self.l.setblocking(False)
        self.ev = []; self.conns = []; self.byid = {}; self.out = {1: b'', 2: b''}; self.logpos = {1: 0, 2: 0}
        self.code = None; self.dumps = []; self.lock = None
        e = base_env(self.sock); e.update(env or {})
        self.master = None
        if pty:
            import pty as P, fcntl, termios, struct
            m, s = P.openpty()
            fcntl.ioctl(s, termios.TIOCSWINSZ, struct.pack('HHHH', size[0], size[1], 0, 0))
            self.master = m
            def pre():
                os.setsid(); fcntl.ioctl(0, termios.TIOCSCTTY, 0)
            self.p = subprocess.Popen([bab] + args, cwd=cwd, env=e, stdin=s, stdout=s, stderr=s, preexec_fn=pre)
            os.close(s); os.set_blocking(m, False)
            self.fds = {m: 1}
        else:
            r1, w1 = os.pipe(); r2, w2 = (None, w1) if merge else os.pipe()
            self.p = subprocess.Popen([bab] + args, cwd=cwd, env=e, stdin=stdin if stdin is not None else subprocess.DEVNULL,
                                      stdout=w1, stderr=w2, start_new_session=True)
            self.fds = {r1: 1} if merge else {r1: 1, r2: 2}
            for w in {w1, w2}: os.close(w)
            for r in self.fds: os.set_blocking(r, False)
        self.pidfd = os.pidfd_open(self.p.pid)
        self.po = select.poll()
        self.po.register(self.l, select.POLLIN); self.po.register(self.pidfd, select.POLLIN)
        for fd in self.fds: self.po.register(fd, select.POLLIN)
        self.cfd = {}
        self.tui_out = b''
    def log(self, **e): self.ev.append(e)
    def drain(self):
        for fd, n in list(self.fds.items()):
            while True:
                try: b = os.read(fd, 65536)
                except BlockingIOError: break
                except OSError: b = b''
                if not b:
                    self.po.unregister(fd); os.close(fd); del self.fds[fd]
                    if fd == self.master: self.master = None
                    break
                self.out[n] += b
        if self.master is None:
            for n in (1, 2):
                t = self.out[n]
                k = t.rfind(b'\n') + 1
                if k > self.logpos[n]:
                    for m in LOGRE.finditer(t[self.logpos[n]:k].decode('utf8', 'replace')):
                        self.log(e='log', id=m.group(1), val=m.group(2))
                    self.logpos[n] = k
    def accept(self):
        while True:
            try: s, _ = self.l.accept()
            except BlockingIOError: return
            s.setblocking(False); c = Conn(s); self.conns.append(c)
            self.cfd[s.fileno()] = c; self.po.register(s, select.POLLIN)
            for o in list(self.cfd.values()):  # what was sent before c connected comes first
                if o is not c: self.read(o)
            self.read(c)
    def read(self, c):
        while not c.dead:
            try: b = c.s.recv(65536)
            except BlockingIOError: break
            except ConnectionError: b = b''
            if not b:
                c.dead = True; self.po.unregister(c.s); del self.cfd[c.s.fileno()]; c.s.close()
                if c.kind == 'S' and not c.released: self.log(e='kill', id=c.id)
                break
            c.buf += b
            while b'\n' in c.buf:
                line, c.buf = c.buf.split(b'\n', 1)
                self.line(c, line.decode('utf8', 'replace'))
    def line(self, c, t):
        if t[0] == 'S':
            self.drain()
            c.kind = 'S'; _, c.id, c.val = t.split(' ', 2)
            self.byid[c.id] = c; self.log(e='start', id=c.id, val=c.val)
        elif t[0] == 'G':
            c.kind = 'G'; c.id = t[2:]
            if c.id in self.byid and self.byid[c.id].released: self.free(c)
        elif t[0] == 'D':
            self.drain()
            _, c.id, js = t.split(' ', 2); c.kind = 'D'; c.released = True
            d = json.loads(js)
            h = lambda x: bytes.fromhex(x).decode('utf8', 'surrogateescape')
            d = dict(id=c.id, args=[h(a) for a in d['args']], cwd=h(d['cwd']), env=[h(a) for a in d['env']], tty=d['in'])
            self.dumps.append(d)
        elif t[0] == 'A': c.acks += 1
        elif t[0] == 'R': c.acks += 1; c.got = t[2:]
    def pump(self, timeout):
        """Process what is there, waiting up to timeout seconds; returns whether anything happened."""
        n = len(self.ev); k = len(self.conns); a = sum(c.acks for c in self.conns)
        evs = self.po.poll(max(0, int(timeout * 1000)))
        for fd, _ in evs:
            if fd == self.l.fileno(): self.accept()
            elif fd == self.pidfd:
                if self.code is None: self.code = self.p.wait(); self.po.unregister(self.pidfd)
            elif fd in self.cfd: self.read(self.cfd[fd])
            elif fd in self.fds: self.drain()
        return len(self.ev) != n or len(self.conns) != k or (self.code is not None and bool(evs)) or sum(c.acks for c in self.conns) != a
    def outstanding(self): return [c for c in self.conns if c.kind == 'S' and not c.released and not c.dead]
    def release(self, c, code):
        self.drain(); self.log(e='end', id=c.id, code=code); c.released = True
        try: c.s.send(b'E %d\n' % code)
        except OSError: pass
        for g in self.conns:
            if g.kind == 'G' and g.id == c.id and not g.dead: self.free(g)
    def free(self, c):
        c.released = True
        try: c.s.send(b'E 0\n')
        except OSError: pass
    def write(self, c, fd, data, wait=5.0):
        want = c.acks + 1
        c.s.send(b'W %d %s\n' % (fd, data.hex().encode()))
        end = time.time() + wait
        while c.acks < want and not c.dead:
            if time.time() > end: raise CheckError('probe write not acknowledged')
            self.pump(0.05)
    def read_in(self, c, n, wait=5.0):
        """The command reads from its standard input; None if it does not come back."""
        want = c.acks + 1
        c.s.send(b'R %d\n' % n)
        end = time.time() + wait
        while c.acks < want and not c.dead and time.time() < end: self.pump(0.05)
        return bytes.fromhex(c.got) if c.acks >= want and c.got != '!' else None
    def signal(self, sig):
        self.log(e='sig'); os.kill(self.p.pid, sig)
    def keys(self, data):
        if self.master is not None: os.write(self.master, data)
    def idle(self, q, limit=10.0):
        end = time.time() + limit
        while self.code is None and self.pump(q) and time.time() < end: pass
    def finish(self, deadline=20.0, log=True):
        """Wait for exit; then for the death of everything that was not released."""
        end = time.time() + deadline
        while self.code is None and time.time() < end: self.pump(0.2)
        if self.code is None:
            self.log(e='hang'); self.close(); return
        end = time.time() + 5
        while time.time() < end and [c for c in self.conns if c.kind in ('S', 'G') and not c.dead and not c.released]: self.pump(0.05)
        for _ in range(3): self.pump(0)
        self.drain()
        for c in self.conns:
            if c.kind in ('S', 'G') and not c.dead and not c.released: self.log(e='alive', id=c.id)
        self.log(e='exit', code=self.code)
        self.close()
    def close(self):
        if self.p.poll() is None:
            try: os.kill(self.p.pid, signal.SIGKILL)
            except OSError: pass
            self.p.wait()
        for c in self.conns:
            if not c.dead:
                try: c.s.send(b'E 0\n')
                except OSError: pass
                c.s.close(); c.dead = True
        self.l.close(); os.close(self.pidfd)
        for fd in list(self.fds): os.close(fd)
        self.fds = {}
        shutil.rmtree(self.dir, ignore_errors=True)
