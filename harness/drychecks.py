"""C08: dry runs."""
from engine import *
from engchecks import SIZE, nitems, ids_of

def prompt_item(g, var, interp=''):
    """A prompt of any type; ans: non-interactive answer (if has), dry: answer in a dry run."""
    r = g.r
    t = r.choice(['input', 'confirm', 'select', 'multiselect', 'password', 'number'])
    has = r.random() < .6
    it = g.prompt(var, '', type=t, has=has); ex = {}
    if t == 'input':
        if has: ex['default'] = it['ans'] = r.choice(['v1', 'two words', 'x' + interp])
    elif t == 'confirm':
        if has:
            d = r.choice(['true', 'false', 'yes', 'No', 'Y', '1'])
            ex['default'] = d; it['ans'] = 'true' if d.lower() in ('true', 'yes', 'y', '1') else 'false'
    elif t == 'select':
        ex['options'] = ['oa', 'ob', 'oc']
        if has: ex['default'] = it['ans'] = 'ob'
    elif t == 'multiselect':
        ex['options'] = ['oa', 'ob', 'oc']
        if has: ex['defaults'] = r.choice([['oa'], ['oc', 'oa']]); it['ans'] = ','.join(ex['defaults'])
    elif t == 'password':
        it['has'] = has = False
        if r.random() < .3: ex['confirm'] = True
    elif t == 'number':
        if has: ex['default'] = it['ans'] = '7'
        if r.random() < .4: ex['min'] = 1; ex['max'] = 9
    it['extra'] = ex
    it['dry'] = it['ans'] if has else '<%s>' % var
    if not has: it['ans'] = 'unused'
    return it

def dryprog(g, refs=True):
    r = g.r
    names = ['a', 'b', 'c', 'd', 'e'][:r.randint(1, 5)]
    ns = r.random() < .3 and len(names) > 1
    if ns:
        k = r.randint(1, len(names) - 1); names = [n if i < k else 'm:' + n for i, n in enumerate(names)]
    incv = [['y', 'iy']] if ns and r.random() < .5 else []
    gv = [['x', '1'], ['y', 'gy'], ['e', ''], ['f', 'False']]
    tasks = {}
    for i, n in enumerate(names):
        inc = n.startswith('m:')
        later = [m for m in names[i + 1:] if m.startswith('m:') or not inc]
        own = [[v, r.choice(['o' + n[-1], '${{ y }}.' + n[-1]])] for v in 'xw' if r.random() < .35]
        vis = ['x', 'y'] + (['w'] if any(o[0] == 'w' for o in own) else [])
        asked = []
        def text():
            z = r.random()
            return 'v' if z < .2 else '/'.join('${{ %s }}' % v for v in r.sample(vis, min(len(vis), 2))) if z < .96 else '${{ nope }}'
        def when():
            return r.choice(['', '', '', '', '', "${{ f }}", "${{ e }}", "${{ x }} == '1'", "${{ x }} != '1'"] + ["${{ %s }} == 'true'" % v for v in asked] + ['${{ %s }}' % v for v in asked])
        items = []
        for _ in range(r.randint(0 if later else 1, 4)):
            z = r.random()
            if z < .25:
                v = r.choice(['p', 'q', 'x']); it = prompt_item(g, v, '${{ x }}' if r.random() < .2 else '')
                it['when'] = when(); items.append(it)
                if not it['when']: asked.append(v); vis.append(v)
            elif z < .33 and refs and later: items.append(g.ref(r.choice(later), when=when()))
            elif z < .45 and refs:
                items.append(g.par([g.ref(r.choice(later)) if later and r.random() < .5 else g.cmd(text=text()) for _ in range(r.randint(1, 3))], r.choice([0, 1]), when=when()))
            elif z < .52: items.append(g.log(text=text(), when=when()))
            else: items.append(g.cmd(text=text(), when=when(), plat=r.random() > .08, bad=r.random() < .03))
        deps = [m for m in later if r.random() < .45]; r.shuffle(deps)
        if not items and not deps: items = [g.cmd()]
        tasks[n] = dict(deps=deps, run=items, when=r.choice([''] * 6 + ["${{ f }}", "${{ x }} == '1'"]) if i else '', scopes=([incv] if inc else []) + [own])
    return g.prog(tasks, gvars=gv)

def addall(p):
    for _, it, _ in all_items(p):
        if it['k'] == 'prompt' and 'dry' not in it: it['dry'] = it['ans'] if it['has'] else '<%s>' % it['var']
    return p

LINES = [('cmd', re.compile(r'Would run cmd=(.*) env=\d+ dir=(.*)$')), ('task', re.compile(r'Would run task task=(.*)$')),
         ('par', re.compile(r'Would run parallel items=(\d+) mode=')), ('prompt', re.compile(r'Would prompt var=(\S+) type=')), ('log', re.compile(r'Would log (.*?)(?: level=\S*)?$'))]
PROBE = re.compile(r'''^"?probe \w+ (\w+) '(.*)'"?$''')
def parse(out):
    recs = []
    for l in re.sub(r'\x1b\[[0-9;?]*[a-zA-Z]', '', out).replace('\r', '').split('\n'):
        if 'Would' not in l:
            m = LOGRE.search(l)
            if m: recs.append(['logged', m.group(1), m.group(2)])
            continue
        for k, rx in LINES:
            m = rx.search(l)
            if not m: continue
            if k == 'cmd':
                q = PROBE.match(m.group(1)); recs.append(['cmd', q.group(1), q.group(2)] if q else ['cmd', '?', m.group(1)])
            elif k == 'log':
                q = LOGRE.search(m.group(1)); recs.append(['log', q.group(1), q.group(2)] if q else ['log', '?', m.group(1)])
            else: recs.append([k, m.group(1).strip('"'), ''])
            break
        else: recs.append(['?', l, ''])
    return recs

def snapshot(d):
    return sorted((os.path.relpath(os.path.join(a, f), d), os.stat(os.path.join(a, f)).st_size) for a, _, fs in os.walk(d) for f in fs)

def dry_case(bab, c):
    p = c['prog']; d = newdir('p'); files = render(p); write_files(d, files)
    home = os.path.join(d, '.home'); os.makedirs(home)
    before = snapshot(d); eff = []
    s = Session(bab, [c['flag']] if c['pick'] else [c['flag'], p['main']] if c['first'] else [p['main'], c['flag']], d, env={'HOME': home}, pty=c['pty'], merge=True, size=(40, 400))
    if c['pick']:                   # the first task of the picker is the main one
        end = time.time() + 10
        while s.code is None and time.time() < end and not re.search(rb'\d/\d', s.out[1]): s.pump(.05)
        s.idle(.1, .4); s.keys(b'\r')
    end = time.time() + 20
    while s.code is None and time.time() < end:
        s.pump(.1)
        for x in s.outstanding(): eff.append('executed ' + x.id); s.release(x, 0)
    if s.code is None: eff.append('hang')
    s.finish(5)
    for e in s.ev:
        if e['e'] == 'start' and 'executed ' + e['id'] not in eff: eff.append('executed ' + e['id'])
    if snapshot(d) != before: eff.append('changed files')
    out = s.out[1].decode('utf8', 'replace')
    shutil.rmtree(d, ignore_errors=True)
    return dict(prog=p, recs=parse(out), code=s.code if s.code is not None else -1, effects=eff), out

def judge_batch(module, obs, extra=None):
    """Runs a batch module (BATCH -> RESULT) in shards; returns the per-entry results."""
    res = [None] * len(obs); tot = [0, 0]
    def one(sh):
        if not sh: return
        d = newdir('b'); jdump([obs[i] for i in sh], os.path.join(d, 'batch.json'))
        rc, out = tlc(module, env={'BATCH': os.path.join(d, 'batch.json'), 'RESULT': os.path.join(d, 'res.json'), **(extra or {})})
        r = json.load(open(os.path.join(d, 'res.json')))
        a, b = tlc_stats(out)
        with _lk2: tot[0] += a; tot[1] += b
        for k, i in enumerate(sh): res[i] = r[k]
    pmap(one, shards(list(range(len(obs))), min(NCPU, 1 + len(obs) // 20)), NCPU)
    return res, tot
from engine import _lk2

def c08():
    ck = Check('C08'); build_probe(); bab = build_bab()
    cases = []
    for i in range(SIZE(400, 4000)):
        r = random.Random('C08/%d/%d' % (SEED, i)); g = Gen(r)
        pick = r.random() < .08
        cases.append(dict(prog=addall(dryprog(g)), pick=pick, pty=pick or r.random() < .3, flag=r.choice(['--dry-run', '-n']), first=r.random() < .5))
    ex = ThreadPoolExecutor(1)
    def mc():
        progs = []; i = 0
        while len(progs) < SIZE(60, 400):
            i += 1; p = addall(dryprog(Gen(random.Random('C08m/%d/%d' % (SEED, i))), refs=False))
            # a real run fails at a prompt without a default, a dry run does not
            if all(it['k'] != 'prompt' or it['has'] for _, it, _ in all_items(p)): progs.append(p)
        f = os.path.join(newdir('mc'), 'progs.json'); jdump(progs, f)
        rc, out = tlc('DryMC', env={'PROGS': f}, workers=2)
        a, b = tlc_stats(out); ck.add(design_states=b, design_transitions=a, design_programs=len(progs))
    fut = ex.submit(mc)
    cases, obs = drive(lambda c: dry_case(bab, c), cases, 3 * NCPU)
    res, tot = judge_batch('DryCheck', [o for o, _ in obs])
    ck.add(states=tot[1], transitions=tot[0], traces_validated_against_impl=len(obs), records=sum(len(o['recs']) for o, _ in obs))
    for c, (o, out), r in zip(cases, obs, res):
        ck.sample(dict(program=o['prog'], records=o['recs']), 2)
        if r['bad']:
            ck.violation('dry run differs (%s)\nreported: %s exit %s %s\nspecified: %s' % (', '.join(r['bad']), o['recs'], o['code'], o['effects'], r['want']),
                         dict(files=render(o['prog']), observed=o, want=r['want'], output=out[-2000:]))
    fut.result()
    # the same programs really run: the previewed commands are the executed ones
    ck.assume.append('prompts without a default are previewed with a placeholder answer <name>')
    return ck.finish()
