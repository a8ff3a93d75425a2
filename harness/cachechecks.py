"""C27: the file of the update check.  The file operations of real runs are recorded, and CacheFs.tla explores every interleaving of several of
them with a stop of a process or of the machine at every point; real runs are stopped, failed and delayed at real system calls."""
from engine import *
from engchecks import SIZE
from relsvc import Service
from updchecks import stamp

CALLS = 'openat,open,creat,write,pwrite64,writev,fsync,fdatasync,sync,syncfs,ftruncate,truncate,rename,renameat,renameat2,link,linkat,unlink,unlinkat,close'
unhex = lambda t: bytes(int(x, 16) for x in t.split('\\x')[1:]).decode('utf8', 'replace')
STR = re.compile(r'"((?:\\x[0-9a-f]{2})*)"')

class World:
    """A home with a cache directory, a Babfile and a release service."""
    def __init__(self, first=None, etag='', answer=None):
        self.home = newdir('h'); self.dir = os.path.join(self.home, '.cache', 'bab'); self.path = os.path.join(self.dir, 'update-check.json')
        self.w = newdir('w'); write_files(self.w, {'babfile.yml': {'tasks': {'a': {'run': [{'cmd': 'probe run p'}]}}}})
        self.sv = Service(); self.sv.answer = answer or dict(k='ok', tag='v2.0.0', etag='"e2"')
        if first is not None:
            os.makedirs(self.dir, exist_ok=True); open(self.path, 'w').write(first)
    def read(self):
        try: return open(self.path).read()
        except OSError: return None
    def others(self): return sorted(f for f in os.listdir(self.dir) if f != 'update-check.json') if os.path.isdir(self.dir) else []
    def env(self): return dict(self.sv.env(), HOME=self.home, CI='')
    def run(self, bab, strace=None, until=None, limit=6.0):
        """One run that lasts until the answer is dealt with (or until() is true); returns (session, file operations)."""
        log = os.path.join(newdir('t'), 'log')
        cmd = ['strace', '-f', '-y', '-xx', '-s', '65536', '-o', log, '-e', 'trace=' + CALLS] + (strace or []) + ['--', bab, 'a']
        s = Session('/usr/bin/strace' if strace is not None else bab, cmd[1:] if strace is not None else ['a'], self.w, env=self.env())
        end = time.time() + limit; quiet = time.time() + 3; key = None; held = False; n0 = len(self.sv.asked)
        while s.code is None and time.time() < end:
            s.pump(.02)
            k = (len(self.sv.asked), self.sv.done, self.read(), tuple(self.others()), len(s.conns))
            if k != key: key = k; quiet = time.time() + (.3 if s.conns and self.sv.done > 0 else 1.2)
            if until:
                if until(): break
            elif time.time() > quiet: break
        for c in s.outstanding(): s.release(c, 0)
        s.finish(12)
        ops = self.parse(log) if strace is not None and os.path.exists(log) else []
        return s, ops
    def parse(self, log):
        """The operations on files of the cache directory, in order."""
        half = {}; ops = []; hs = {}; n = 0; d = self.dir
        for l in open(log, errors='replace'):
            m = re.match(r'(\d+)\s+(.*)', l)
            if not m: continue
            pid, t = m.groups(); t = t.rstrip()
            if t.endswith('<unfinished ...>'): half[pid] = t[:-len('<unfinished ...>')]; continue
            r = re.match(r'<\.\.\. \w+ resumed>(.*)', t)
            if r: t = half.pop(pid, '') + r.group(1)
            m = re.match(r'(\w+)\((.*)\)\s+= (-?\d+|\?)(.*)', t)
            if not m: continue
            call, args, ret, more = m.groups()
            if ret == '?' or int(ret) < 0: continue
            path = lambda x: unhex(x)
            names = [path(x) for x in STR.findall(args)] if call not in ('write', 'pwrite64', 'writev') else []
            fd = re.match(r'(\d+)<((?:\\x[0-9a-f]{2})*)', args)
            loc = lambda p: os.path.basename(p).replace('update-check.json', 'cache') if os.path.dirname(p) == d else None
            if call in ('openat', 'open', 'creat'):
                if os.path.normpath(names[-1]) == d: hs[int(ret)] = 'dir'; continue
                nm = loc(names[-1])
                if nm is None: hs.pop(int(ret), None); continue
                fl = args if call != 'creat' else 'O_WRONLY|O_CREAT|O_TRUNC'
                n += 1; hs[int(ret)] = n
                if 'O_WRONLY' in fl or 'O_RDWR' in fl or 'O_CREAT' in fl: ops.append(dict(op='open', h=n, name=nm, creat='O_CREAT' in fl, excl='O_EXCL' in fl, trunc='O_TRUNC' in fl))
            elif call in ('write', 'pwrite64', 'writev', 'fsync', 'fdatasync', 'ftruncate', 'close') and fd:
                h = hs.get(int(fd.group(1)))
                if h is None: continue
                if call == 'close': hs.pop(int(fd.group(1)))
                elif h == 'dir':
                    if call in ('fsync', 'fdatasync'): ops.append(dict(op='fsyncdir'))
                elif call in ('write', 'pwrite64', 'writev'):
                    data = ''.join(unhex(x) for x in STR.findall(args)); ops.append(dict(op='write', h=h, data=data.encode()[:int(ret)].decode('utf8', 'replace')))
                elif call == 'ftruncate': ops.append(dict(op='trunc', h=h))
                else: ops.append(dict(op='fsync', h=h))
            elif call in ('rename', 'renameat', 'renameat2', 'link', 'linkat'):
                a, b = loc(names[0]), loc(names[1])
                if a and b: ops.append(dict(op='rename' if call.startswith('rename') else 'link', **{'from': a, 'to': b}))
            elif call in ('unlink', 'unlinkat'):
                a = loc(names[-1])
                if a: ops.append(dict(op='unlink', name=a))
        used = {o['h'] for o in ops if o['op'] in ('write', 'trunc', 'fsync')}
        return [o for o in ops if not (o['op'] == 'open' and o['h'] not in used and not o['creat'] and not o['trunc'])]

def record(text):
    """Whether text is a complete record."""
    try: j = json.loads(text); return bool(j.get('latest_version')) and 'checked_at' in j
    except (ValueError, AttributeError): return False

def old(tag='v1.5.0', etag='"e1"', age=3000): return json.dumps(dict(checked_at=stamp(age), latest_version=tag, etag=etag), separators=(',', ':'))

STARTS = [('no record', None), ('an old record', old), ('a spoilt record', '{"checked'), ('a long record', lambda: old('v1.5.0', 'x' * 300))]
ANSWERS = [dict(k='ok', tag='v2.0.0', etag='"e2"'), dict(k='ok', tag='v3.0.0-long-' + 'x' * 200, etag=''), dict(k='same304', tag='', etag='')]

def recorded(ck, bab, faults):
    """Runs under strace; returns [start, operations, record stored]."""
    jobs = [(i, a, []) for i in range(len(STARTS)) for a in range(len(ANSWERS)) if not (a == 2 and i in (0, 2))] + [(i, 0, f) for i in (0, 1) for f in faults]
    def one(j):
        i, a, f = j; t = STARTS[i][1]; t = t() if callable(t) else t
        w = World(t, answer=ANSWERS[a]); s, ops = w.run(bab, strace=sum((['-e', 'inject=' + x] for x in f), []))
        w.sv.close(); return dict(start=t, ops=ops, end=w.read(), fault=f, code=s.code, name=STARTS[i][0], others=w.others(), text=s.out[2].decode('utf8', 'replace'), killed=any('KILL' in x for x in f), asked=len(w.sv.asked))
    return pmap(one, jobs, 16)

def c27():
    ck = Check('C27'); build_probe(); bab = build_bab('v1.0.0')
    t = subprocess.run(['strace', '-f', '-o', '/dev/null', 'true'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if t.returncode: raise CheckError('strace does not work: ' + t.stdout.decode())
    errs = [['fsync:error=EIO', 'fdatasync:error=EIO'], ['rename:error=EIO', 'renameat:error=EIO', 'renameat2:error=EIO'], ['rename:error=EACCES', 'renameat:error=EACCES', 'renameat2:error=EACCES']] + [['write:error=ENOSPC:when=%d' % k] for k in range(1, SIZE(9, 16))] + [['openat:error=EMFILE:when=%d' % k] for k in SIZE((6, 9, 12, 15), range(1, 24))] + [['close:error=EIO:when=%d' % k] for k in SIZE((), range(3, 20))]
    kills = [[c + ':signal=KILL' for c in cs] for cs in (['fsync', 'fdatasync'], ['rename', 'renameat', 'renameat2', 'link', 'linkat'], ['unlink', 'unlinkat'])] + [['write:signal=KILL:when=%d' % k] for k in range(1, SIZE(9, 16))] + [['openat:signal=KILL:when=%d' % k] for k in SIZE((8, 10, 12, 14, 16), range(1, 24))] + [['close:signal=KILL:when=%d' % k] for k in SIZE((8, 12), range(3, 24))]
    obs = recorded(ck, bab, errs + kills)
    # what is on the disk after a stop or a failure at a real system call
    whole = 0; stored = 0
    for o in obs:
        ok = o['end'] is None or o['end'] == o['start'] or record(o['end'])
        whole += 1; stored += o['end'] != o['start'] and o['end'] is not None
        if not ok: ck.violation('the file is %r after %s at %s' % (o['end'], 'a stop' if o['killed'] else 'a failure' if o['fault'] else 'a run', o['fault'] or o['name']), dict(obs=o))
        elif not o['killed'] and o['code'] != 0 and not any('openat' in x or 'write' in x or 'close' in x for x in o['fault']): ck.violation('exit status %r although only the update check fails (%s): %s' % (o['code'], o['fault'], o['text']), dict(obs=o))
        elif not o['killed'] and o['others'] and not any('openat' in x or 'unlink' in x for x in o['fault']): ck.violation('left behind after %s: %r' % (o['fault'] or 'an ordinary run', o['others']), dict(obs=o))
        elif o['start'] is not None and record(o['start']) and o['end'] is None: ck.violation('the stored record is lost after %s' % (o['fault'] or 'a run'), dict(obs=o))
    # every interleaving of recorded programs, with stops
    progs = [o for o in obs if o['ops'] and (o['end'] != o['start'] or o['fault'])]
    if not any(o['end'] != o['start'] and not o['fault'] for o in obs): raise CheckError('no run stored a record')
    r = random.Random('C27/%d' % SEED); cases = []; plain = [o for o in progs if not o['fault']]
    def case(start, ps):
        good = [start] if start is not None else []
        good += [p['end'] for p in ps if p['end'] and record(p['end'])]
        return dict(init=[dict(name='cache', data=start)] if start is not None else [], progs=[p['ops'] for p in ps], good=good)
    for p in progs: cases.append(case(p['start'], [p]))
    for _ in range(SIZE(16, 60)): cases.append(case(r.choice([None, old(), '{"che']), r.sample(plain, 2)))
    for _ in range(SIZE(3, 14)): cases.append(case(r.choice([None, old()]), r.sample(plain, 3)))
    for _ in range(SIZE(8, 40)): q = r.choice(plain); cases.append(case(r.choice([None, old()]), [q, r.choice([x for x in progs if x is not q])]))   # (one run twice would have the same random names)
    def explore(sh):
        if not sh: return 0
        d = newdir('fs'); jdump(sh, d + '/b.json')
        rc, out = tlc('CacheFs', env={'BATCH': d + '/b.json'}, ok_codes=(0, 12), workers=1)
        if rc: ck.violation('a sequence of the recorded file operations can leave something else than a complete record:\n' + '\n'.join(l for l in out.split('\n') if re.match(r'Error: Inv|/\\ (c|pc|ino|dir|pend) =|State \d', l))[:3000], dict(cases=sh, trace=out))
        return tlc_stats(out)[1]
    states = sum(pmap(explore, [cases[i::8] for i in range(8)], 8))
    # interrupted writes: what they leave is removed later, but not while it may still be written
    left = held = 0
    def leftover(f):
        w = World(old()); s, _ = w.run(bab, strace=sum((['-e', 'inject=' + x] for x in f), [])); o = w.others()
        if not o: w.sv.close(); return None
        for x in o: os.utime(os.path.join(w.dir, x), (time.time() - 3 * 86400,) * 2)
        w.run(bab); res = (o, w.others(), w.read()); w.sv.close(); return res
    for f, x in zip(kills, pmap(leftover, kills, 16)):
        if x is None: continue
        left += 1
        if set(x[0]) & set(x[1]): ck.violation('the temporary file %r of a write stopped at %s three days ago is still there after another run' % (x[1], f), dict(fault=f, obs=x))
        elif not (x[2] and record(x[2])): ck.violation('after a write stopped at %s the next run stores %r' % (f, x[2]), dict(fault=f, obs=x))
    def paused(cs):
        """One writer waits before a system call (a write: with its file still empty) while another run stores its record."""
        w = World(old()); res = {}; d = 1500; empty = cs[0].startswith('write')
        def slow(): res['a'] = w.run(bab, strace=sum((['-e', 'inject=%s:delay_enter=%d%s' % (c.split(':')[0], d * 1000, ':' + c.split(':')[1] if ':' in c else '')] for c in cs), []), limit=d / 1000 + 6, until=lambda: res.get('mid') and res.get('seen') and not set(res['seen']) & set(w.others()))
        th = threading.Thread(target=slow); th.start()
        end = time.time() + 5
        while time.time() < end and not w.others(): time.sleep(.01)
        seen = w.others(); res['mid'] = True; t0 = time.time()
        def size(f):
            try: return os.path.getsize(os.path.join(w.dir, f))
            except OSError: return -1
        if empty:                            # (another write is the one that waits)
            time.sleep(.08)
            if any(size(f) for f in seen): seen = []
        if seen:
            res['seen'] = seen; w.run(bab, limit=1.2); after = w.others(); mid = w.read(); within = time.time() - t0 < d / 1000 * .9
            th.join(); w.sv.close(); return seen, after, mid, w.read(), within
        res['seen'] = ['?']; th.join(); w.sv.close(); return None
    for cs, x in zip((a := [['fsync', 'fdatasync'], ['rename', 'renameat', 'renameat2']] * SIZE(2, 5) + [['write:when=%d' % k] for k in range(1, SIZE(5, 9))] * 3), pmap(paused, a, 12)):
        if x is None: continue
        seen, after, mid, end, within = x; held += 1
        if within and not set(seen) <= set(after): ck.violation('a run removes the temporary file %r another process is still writing (waiting before %s)' % (seen, cs[0]), dict(obs=x))
        elif not (mid and record(mid)) or not (end and record(end)): ck.violation('two writers, one waiting before %s: the file is %r, then %r' % (cs[0], mid, end), dict(obs=x))
    ck.add(states=states, recorded_runs=len(obs), stops_and_failures=len(errs + kills) * 2, stored=stored, leftovers=left, delayed_writers=held, operations=len({json.dumps(x['ops']) for x in progs}))
    for o in plain[:2]: ck.sample(dict(start=o['start'], operations=o['ops']), 3)
    ck.assume += ['a machine that stops keeps any subset of the directory changes since its last sync, and of a file that was not synced either version or something torn',
                  'the file operations are those strace records for files of the cache directory']
    return ck.finish()
