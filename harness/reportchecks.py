"""C32: reports are the same each time, and what they offer exists."""
from engine import *
from engchecks import SIZE
from drychecks import judge_batch
import loadchecks
import subprocess

WORDS = ['name', 'value', 'build', 'target', 'path', 'mode', 'region', 'user', 'output', 'token', 'level', 'stage', 'Deploy', 'TestAll', 'BUILD']
def spoil(r, w, used):
    """A name nothing has, but near to w."""
    while True:
        i = r.randrange(len(w))
        x = r.choice([w[:i] + w[i + 1:], w + r.choice('sxz'), w[:i] + r.choice('abxyz') + w[i + 1:], w.upper(), w[:3], w + '_' + r.choice(WORDS), 'zz' + str(len(used)), w.capitalize()])
        if x and x not in used and x not in WORDS and not x[0].isdigit(): used.add(x); return x

def gen(r):
    """Babfiles with several problems of some kinds at once; unknown names are unique, so that they tell where they were used."""
    used = set(); places = {}; files = {}; rate = r.choice([0, .15, .4, .8]); kinds = set(r.sample(['gvar', 'tvar', 'env', 'item', 'dep', 'ref', 'alias', 'cycle', 'include', 'clash'], r.choice([1, 2, 2, 4])))
    bad = lambda k: k in kinds and r.random() < rate
    paths = ['babfile.yml'] + r.sample(['a.yml', 'sub/b.yml', 'c d.yml'], r.choice([0, 0, 1, 2]))
    def var(p, t, scope, asks):
        x = spoil(r, r.choice(sorted(scope) or WORDS), used); places[x] = dict(file=p, task=t, asks=list(asks)); return '${{ %s }}' % x
    for i, p in enumerate(paths):
        up = files[paths[0]]['vars'] if i else {}
        own = {w: 'x' for w in r.sample(WORDS, r.randint(0, 6))}
        for w in own:
            z = r.random()
            if bad('gvar'): own[w] = 'a ' + var(p, '', set(own) | set(up), [])
            elif z < .2: own[w] = '${{ %s }}' % r.choice(sorted(set(own) | set(up))) if 'cycle' in kinds else 'plain'
        tasks = {}; names = r.sample(WORDS, r.randint(2, 6)); al = []
        for j, t in enumerate(names):
            tv = {w: 'y' for w in r.sample(WORDS, r.choice([0, 1, 3, 5]))}
            scope = set(own) | set(up) | set(tv)
            for w in tv:
                if bad('tvar'): tv[w] = var(p, t, scope, [])
            env = {w.upper(): var(p, t, scope, []) if bad('env') else 'z' for w in r.sample(WORDS, r.choice([0, 0, 2, 5]))}
            asks = []; run = []
            for k in range(r.randint(1, 4)):
                if bad('ref'): run.append(dict(task=spoil(r, r.choice(names), used))); continue
                z = r.random()
                if z < .15: asks.append(r.choice(WORDS) + 'q'); run.append(dict(prompt=asks[-1], type='input', message='m', default='d'))
                elif z < .3 and j + 1 < len(names): run.append(dict(task=r.choice(names[j + 1:])))
                elif z < .45: run.append(dict(log='say %s' % (var(p, t, scope | set(asks), asks) if bad('item') else 'it')))
                else:
                    it = dict(cmd='echo %s' % (var(p, t, scope | set(asks), asks) if bad('item') else t))
                    if r.random() < .3: it['env'] = {w.upper(): var(p, t, scope | set(asks), asks) if bad('env') else 'q' for w in r.sample(WORDS, 3)}
                    run.append(it)
            if 'cycle' in kinds and bad('cycle'): run.append(dict(task=r.choice(names)))
            d = dict(run=run)
            if tv: d['vars'] = tv
            if env: d['env'] = env
            deps = r.sample(names[j + 1:], min(len(names) - j - 1, r.choice([0, 0, 1]))) + [spoil(r, r.choice(names), used) for _ in range(3) if bad('dep')]
            if deps: d['deps'] = deps
            als = [r.choice(al + ['al%d' % len(al), r.choice(names)]) if bad('alias') else 'al%d' % (len(al) + q) for q in range(r.choice([0, 1, 3]))]
            if als: d['aliases'] = als; al += als
            if r.random() < .5: d['desc'] = 'about ' + t
            tasks[t] = d
        f = dict(vars=own, tasks=tasks)
        if i == 0 and r.random() < .3: f['env'] = {w.upper(): var(p, '', set(own), []) if bad('env') else 'q' for w in r.sample(WORDS, 4)}
        files[p] = f
    incs = {p: {} for p in paths}
    for i, p in enumerate(paths[1:], 1):
        at = paths[0] if i == 1 or r.random() < .5 else paths[i - 1]
        incs[at]['n%d' % i] = p
    for p in paths:
        inc = {ns: dict(babfile=os.path.relpath('/r/' + q, os.path.dirname('/r/' + p))) for ns, q in incs[p].items()}
        if bad('include'): inc.update({'m%d' % k: dict(babfile=r.choice(['none%d.yml' % k, 'broken%d.yml' % k, 'babfile.yml'])) for k in range(r.randint(2, 5))})
        if bad('clash'):
            for ns, q in incs[p].items():
                for t in r.sample(sorted(files[q]['tasks']), min(len(files[q]['tasks']), 3)): files[p]['tasks'][ns + ':' + t] = dict(run=[dict(cmd='echo')])
        if inc: files[p]['includes'] = dict(r.sample(sorted(inc.items()), len(inc)))
    model = [dict(k=p, v=dict(vars=sorted(files[p]['vars']), incs=[dict(k=ns, v=dict(file=q)) for ns, q in incs[p].items()],
                              tasks=[dict(k=t, v=dict(vars=sorted(d.get('vars', {})), aliases=d.get('aliases', []))) for t, d in files[p]['tasks'].items()])) for p in paths]
    texts = dict(files)
    for k in range(5): texts['broken%d.yml' % k] = 'tasks: {a: {run: 1}}\n'
    ts = ['%s' % t for t in files[paths[0]]['tasks']] + ['%s:%s' % (ns, t) for ns, q in incs[paths[0]].items() for t in files[q]['tasks']]
    near = spoil(r, r.choice(ts + [a for d in files[paths[0]]['tasks'].values() for a in d.get('aliases', [])]), used)
    cmds = r.sample([[r.choice(ts)], [r.choice(ts)], ['-n', r.choice(ts)], ['-v', r.choice(ts)], ['--validate'], ['--list'], ['__complete', ''], [near], ['-v', '--validate']], 3)
    return texts, model, places, cmds, 'babfile.yml'

def gen_load(r):
    fs = loadchecks.gen_set(r, 3.0); texts, model = loadchecks.render_set(r, fs)
    m = [dict(k=f['path'], v=dict(vars=[], incs=[dict(k=i['ns'], v=dict(file=i['file'])) for i in f['incs']], tasks=[dict(k=t['name'], v=dict(vars=[], aliases=t['aliases'])) for t in f['tasks']])) for f in model]
    return texts, m, {}, r.sample([['--validate'], ['--validate'], ['-n', r.choice(fs[0]['tasks'])['name']], ['--list'], ['__complete', ''], ['buil'], ['-v', '--validate']], 2), 'Babfile'

OFFER = re.compile(r'(task "|undefined variable: )([^\s"]+)"?(?: not found)? \(did you mean "([^"]*)"\?\)')
N = 12
def observe(bab, seed):
    r = random.Random(seed); texts, model, places, cmds, root = gen(r) if r.random() < .75 else gen_load(r)
    d = newdir('rp'); write_files(d, texts); out = []
    for c in cmds:
        runs = []; offers = []
        for _ in range(N):
            q = subprocess.run([bab] + c, cwd=d, env=base_env(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
            runs.append('%d\n%s\n%s' % (q.returncode, q.stdout.decode('utf8', 'replace'), q.stderr.decode('utf8', 'replace')))
        for x in sorted(set(runs)):
            for m in OFFER.finditer(x):
                k = 'var' if m.group(1).startswith('und') else 'run' if c[-1] == m.group(2) and not re.search(r'(?<![\w:-])%s(?![\w:-])' % re.escape(m.group(2)), json.dumps(texts)) else 'task'
                if k == 'var' and m.group(2) not in places: continue          # not placed by the generator
                o = dict(kind=k, name=m.group(2), offer=m.group(3), **places.get(m.group(2), dict(file='', task='', asks=[])))
                if o not in offers: offers.append(o)
        out.append((dict(root=root, files=[dict(k=f['k'], **f['v']) for f in flat(model)], runs=runs, offers=offers), c, texts))
    shutil.rmtree(d, ignore_errors=True)
    return out

def flat(model): return [dict(k=f['k'], v=dict(f['v'], incs=[dict(k=i['k'], **i['v']) for i in f['v']['incs']], tasks=[dict(k=t['k'], **t['v']) for t in f['v']['tasks']])) for f in model]

def c32():
    ck = Check('C32'); bab = build_bab()
    _, obs = drive(lambda i: observe(bab, 'C32/%d/%d' % (SEED, i)), range(SIZE(140, 2500)), None, lambda o: any(len(set(x['runs'])) > 1 for x, _, _ in o))
    obs = [x for o in obs for x in o]
    _, out = tlc('ReportMC', workers=2); a, b = tlc_stats(out); ck.add(design_states=b, design_transitions=a)
    rc, out = tlc('ReportMC', cfg='ReportAny.cfg', ok_codes=(12,))        # the property is not idle: chance in the order shows
    res, tot = judge_batch('ReportCheck', [o for o, _, _ in obs])
    ck.add(states=tot[1], transitions=tot[0], traces_validated_against_impl=len(obs), runs=sum(len(o['runs']) for o, _, _ in obs), failing=sum(o['runs'][0][0] != '0' for o, _, _ in obs), offers=sum(len(o['offers']) for o, _, _ in obs))
    for (o, c, texts), q in zip(obs, res):
        if o['offers']: ck.sample(dict(args=c, report=o['runs'][0], offers=o['offers']), 3)
        if q: ck.violation('%s\nbab %s said\n%s\noffers %s' % (', '.join(sorted(q)), ' '.join(c), '\nor\n'.join(sorted(set(o['runs']))[:4]), o['offers']), dict(args=c, texts=texts, runs=sorted(set(o['runs'])), offers=o['offers']))
    return ck.finish()
