"""C26: the update check, histories of runs against a controlled release service, judged by Update.tla."""
from engine import *
from engchecks import SIZE
from drychecks import judge_batch
from relsvc import Service
import datetime

BINS = ['dev', 'v1.0.0', '1.2.3', 'v2.0.0-rc.1', 'v1.10.0', 'odd']
TAGS = ['v1.0.0', 'v0.9.9', 'v1.2.3', '1.2.4', 'v1.9.0', 'v1.10.0', 'v1.10.1', 'v2.0.0-rc.1', 'v2.0.0-rc.2', 'v2.0.0-rc.10', 'v2.0.0-beta', 'v2.0.0', 'v2', 'v2.0', 'v10.0.0', 'v2.0.0+build5', 'nightly', 'v', '2026-01-02x']
FAILS = ['500', '404', '403', '429', '301', '302', '204', 'notjson', 'empty', 'notag', 'emptytag', 'list', 'number', 'null', 'huge', 'cut', 'refuse', 'reset', 'badcert', 'hang', 'down']

def version(t):
    """The structure of a version text, for the specification."""
    m = re.fullmatch(r'v?(\d+(?:\.\d+)*)(?:-([0-9A-Za-z.-]+))?(?:\+[0-9A-Za-z.-]+)?', t)
    if not m: return dict(ok=False, nums=[], pre=[])
    pre = [dict(n=int(p), s=[]) if p.isdigit() else dict(n=-1, s=[ord(c) for c in p]) for p in (m.group(2) or '').split('.') if p != '']
    return dict(ok=True, nums=[int(x) for x in m.group(1).split('.')], pre=pre)

def stamp(age): return (datetime.datetime.now(datetime.timezone.utc) - datetime.timedelta(minutes=age)).isoformat().replace('+00:00', 'Z')
BAD = ['', '{', 'null', '[]', '{}', '"x"', '\x00\x01', '{"checked_at":"2026-01-01T00:00:00Z"}', '{"checked_at":"yesterday","latest_version":"v9.9.9","etag":""}', '{"checked_at":"2026-01-01T00:00:00Z","latest_version":"","etag":"x"}',
       '{"checked_at":"2026-01-01T00:00:00Z","latest_version":"v9.9.9","eta', '{"checked_at":5,"latest_version":"v9.9.9"}']

def gen(seed):
    r = random.Random(seed); steps = []
    for _ in range(r.choice([3, 5, 7, 10])):
        z = r.random()
        if z < .33: steps.append(dict(a='pass', d=r.choice([1, 1400, 1439, 1441, 1441, 1441, 1500, 3000, 50000])))
        elif z < .38: steps.append(dict(a='spoil', text=r.choice(BAD)))
        elif z < .41: steps.append(dict(a='future', d=r.choice([5, 600, 100000])))
        elif z < .43: steps.append(dict(a='remove'))
        else:
            x = r.random(); tag = r.choice(TAGS)
            sv = dict(k='ok', tag=tag, etag=r.choice(['', '"e1"', '"e2"', 'W/"e3"'])) if x < .55 else dict(k='same304', tag='', etag='') if x < .63 else dict(k='fail', tag='', etag='', how=r.choice(FAILS))
            if x < .2 and steps: sv = dict(next((s['sv'] for s in reversed(steps) if s['a'] == 'run' and s['sv']['k'] == 'ok'), sv))
            off = r.choice([{}] * 8 + [{'BAB_NO_UPDATE_CHECK': '1'}, {'CI': 'true'}, {'CI': '1'}, {'CI': 'false'}, {'BAB_NO_UPDATE_CHECK': '0'}, {'CI': ''}])
            steps.append(dict(a='run', sv=sv, bin=r.choice(BINS + BINS[1:5] * 2), env=off, how=r.choice(['held', 'held', 'held', 'held-fail', 'list', 'validate', 'unknown', 'completion'])))
    return dict(steps=steps, first=r.choice(['none', 'none', 'rec', 'rec', 'rec', 'bad']), tag=r.choice(TAGS), age=r.choice([0, 100, 1438, 1442, 1442, 9000]), etag=r.choice(['', '"e1"']), block=r.random() < .06)

def is_off(e): return e.get('BAB_NO_UPDATE_CHECK') == '1' or e.get('CI') in ('true', '1')

def play(bins, case):
    """Carries out a history; returns the observed steps."""
    home = newdir('h'); cdir = os.path.join(home, '.cache', 'bab'); path = os.path.join(cdir, 'update-check.json')
    w = newdir('w'); write_files(w, {'babfile.yml': {'tasks': {'a': {'run': [{'cmd': 'probe run p'}]}}}})
    sv = Service(); obs = []
    def put(t):
        if case['block']: return
        os.makedirs(cdir, exist_ok=True); open(path, 'w').write(t)
    def rec(tag, etag, age): put(json.dumps(dict(checked_at=stamp(age), latest_version=tag, etag=etag)))
    if case['block']: os.makedirs(os.path.dirname(cdir)); open(cdir, 'w').write('x')
    elif case['first'] == 'rec': rec(case['tag'], case['etag'], case['age'])
    elif case['first'] == 'bad': put('{"checked')
    def load():
        try: t = open(path).read()
        except OSError: return dict(k='none')
        try:
            j = json.loads(t); c = datetime.datetime.fromisoformat(j['checked_at'].replace('Z', '+00:00'))
            if not j.get('latest_version'): return dict(k='bad')
            return dict(k='rec', tag=j['latest_version'], etag=j.get('etag', ''), secs=(datetime.datetime.now(datetime.timezone.utc) - c).total_seconds())
        except (ValueError, KeyError, TypeError, AttributeError): return dict(k='bad')
    for st in case['steps']:
        if st['a'] == 'pass':
            c = load()
            if c['k'] == 'rec': rec(c['tag'], c['etag'], c['secs'] / 60 + st['d'])
            continue
        if st['a'] == 'future':
            c = load()
            if c['k'] == 'rec': rec(c['tag'], c['etag'], -st['d'])
            continue
        if st['a'] == 'spoil': put(st['text']); continue
        if st['a'] == 'remove':
            if os.path.exists(path): os.remove(path)
            continue
        before = load(); sv.answer = st['sv']; n0 = len(sv.asked)
        env = dict(sv.env(direct=st['sv'].get('how') == 'down'), HOME=home, **{}); env.pop('XDG_CACHE_HOME', None); env['CI'] = ''; env.update(st['env'])
        args = {'held': ['a'], 'held-fail': ['a'], 'list': ['--list'], 'validate': ['--validate'], 'unknown': ['zz'], 'completion': ['__complete', '']}[st['how']]
        s = Session(bins[st['bin']], args, w, env=env); held = st['how'].startswith('held')
        if held:
            end = time.time() + 10
            while time.time() < end and not s.outstanding() and s.code is None: s.pump(.02)
            # give the check the time to ask and to store
            quiet = time.time() + .25; end = time.time() + (.6 if st['sv'].get('how') == 'hang' else 4); d0 = sv.done; key = None
            while time.time() < min(quiet, end):
                s.pump(.02); k = (len(sv.asked), sv.done, load().get('secs', 0) < 30, tuple(sorted(os.listdir(cdir))) if os.path.isdir(cdir) else ())
                if k != key: key = k; quiet = time.time() + .25
            t0 = time.time()
            for c in s.outstanding(): s.release(c, 3 if st['how'] == 'held-fail' else 0)
        else: t0 = time.time()
        s.finish(15); took = time.time() - t0; time.sleep(.02)
        err = s.out[2].decode('utf8', 'replace'); note = re.search(r'new version of bab', err)
        obs.append(dict(step=st, before=before, after=load(), asked=sv.asked[n0:], notice=bool(note), text=err, code=s.code, took=took, hang=any(e['e'] == 'hang' for e in s.ev), left=sorted(os.listdir(cdir)) if os.path.isdir(cdir) else [], out=s.out[1].decode('utf8', 'replace')))
    sv.close()
    return obs

def store(c): return dict(k='rec', tag=c['tag'], etag=c['etag'], age=int(c['secs'] // 60)) if c['k'] == 'rec' else c
def entry(case, o):
    st = o['step']
    return dict(st=store(o['before']), sv={k: st['sv'][k] for k in ('k', 'tag', 'etag')}, run=dict(dev=st['bin'] == 'dev', off=is_off(st['env']), tag=st['bin']), finished=st['how'].startswith('held') and st['sv'].get('how') != 'hang',
                writable=not case['block'], tags=[dict(tag=t, v=version(t)) for t in sorted({st['bin'], st['sv']['tag'], o['before'].get('tag', '')})])

def wrong(case, o, allowed):
    st = o['step']
    if o['hang'] or o['took'] > 8: return 'the run takes %.1f s' % o['took']
    code = {'held': 0, 'held-fail': 1, 'list': 0, 'validate': 0, 'unknown': 1, 'completion': 0}[st['how']]
    if o['code'] != code: return 'exit status %r, specified %r: %s' % (o['code'], code, o['text'])
    if len(o['asked']) > 1: return 'the service is asked %d times in one run' % len(o['asked'])
    a = store(o['after'])
    for w in allowed:
        if w['asked'] == bool(o['asked']) or st['sv'].get('how') == 'down':
            # after a failure or without a question the record is the same; otherwise it is fresh
            exp = w['store']; same = exp['k'] == a['k'] and (a['k'] != 'rec' or (exp['tag'] == a['tag'] and exp['etag'] == a['etag'] and abs(exp['age'] - a['age']) <= 1))
            if same and w['notice'] == o['notice']:
                if o['asked'] and w['asked'] and o['asked'][0]['inm'] not in (w['inm'], '') and o['asked'][0]['first'].startswith('GET'): continue
                if o['notice'] and (a.get('tag', '') not in o['text'] or st['bin'] not in o['text']): return 'the notice names other versions: %s' % o['text']
                return ''
    return 'asked %r, notice %r, stored afterwards %r; specified one of %s' % (o['asked'], o['notice'], a, json.dumps(allowed))

def c26():
    ck = Check('C26'); build_probe()
    vs = ['dev', *BINS[1:]]; bl = pmap(build_bab, vs, 4); bins = dict(zip(vs, bl))
    ex = ThreadPoolExecutor(1)
    fut = ex.submit(lambda: tlc('UpdateMC', cfg='CONSTANT MaxLen = %d\nINIT Init\nNEXT Next\nINVARIANTS Rare Quiet Harmless Known Says Total\nCHECK_DEADLOCK FALSE\n' % SIZE(4, 5), workers=2))
    n = SIZE(170, 2500); cases = [gen('C26/%d/%d' % (SEED, i)) for i in range(n)]; cnt = dict(runs=0, asked=0, notices=0, renewed=0)
    def one(todo):
        todo, obs = drive(lambda i: play(bins, cases[i]), todo, 16, limit=500); flat = [(i, o) for i, os_ in zip(todo, obs) for o in os_]
        res, _ = judge_batch('UpdateCheck', [entry(cases[i], o) for i, o in flat])
        bad = {}
        for (i, o), a in zip(flat, res):
            w = wrong(cases[i], o, a); cnt['runs'] += 1; cnt['asked'] += bool(o['asked']); cnt['notices'] += o['notice']; cnt['renewed'] += bool(o['asked']) and o['before'].get('tag') == o['after'].get('tag') and o['after'].get('secs', 99) < 60
            if w and i not in bad: bad[i] = (w, o, a)
            elif not w and o['asked']: ck.sample(dict(version=o['step']['bin'], service=o['step']['sv'], before=o['before'], after=o['after'], notice=o['notice']), 4)
        return bad
    bad = one(range(n))
    if bad: bad = one(sorted(bad)[:30])
    for i, (w, o, a) in sorted(bad.items()):
        ck.violation('%s\n %s of version %s, service %s, environment %s, record before %s' % (w, o['step']['how'], o['step']['bin'], json.dumps(o['step']['sv']), o['step']['env'], json.dumps(o['before'])), dict(case=cases[i], obs=o, allowed=a))
    rc, out = fut.result(); ck.add(states=tlc_stats(out)[1], histories=n, **cnt)
    ck.assume += ['time passes by ageing the stored record', 'the release service is a stand-in on the loopback, reached through the proxy setting', 'a run that is not held open may end before the answer is stored']
    return ck.finish()
