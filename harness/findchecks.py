"""C13: which Babfile is used."""
import itertools
from engine import *
from engchecks import SIZE
from drychecks import judge_batch

NAMES = ['Babfile', 'Babfile.yaml', 'Babfile.yml', 'babfile.yaml', 'babfile.yml']
OTHER = ['BABFILE', 'babfile', 'Babfile.yaml.bak', '.Babfile', 'Babfile.json', 'Babfiles', 'bab.yml', 'Babfile.YML', 'BabFile', 'xBabfile', 'other.yml', 'my file', 'Makefile',
         '.git', '.hg', 'go.mod', 'package.json', '.bab', '.babrc', '.config', 'Taskfile.yml', '.root', 'node_modules']
KINDS = ['file', 'file', 'file', 'bad', 'dir', 'link', 'dirlink', 'broken']
MODES = ['run', 'dry', 'list', 'validate', 'complete', 'alias']

def gen_case(r, full=None):
    n = r.randint(1, 5) if r.random() < .9 else r.randint(6, 25); dirs = []
    for i in range(n):
        d = {}
        for x in NAMES:
            if r.random() < (r.choice([.05, .2, .5]) if n < 6 else .015): d[x] = r.choice(KINDS)
        for x in OTHER:
            if r.random() < .12 / (1 + n // 6): d[x] = r.choice(['file', 'dir'])
        dirs.append(d)
    if full is not None:
        dirs = [{x: k for x, k in zip(NAMES, full) if k}, {NAMES[r.randrange(5)]: 'file'}]
    c = dict(dirs=dirs, flag='', fdir=0, fname='')
    if full is None and r.random() < .45:
        c['flag'] = 'yes'
        have = [(i + 1, x) for i, d in enumerate(dirs) for x in d]
        c['fdir'], c['fname'] = r.choice(have) if have and r.random() < .75 else (r.randint(1, len(dirs)), r.choice(NAMES + OTHER))
    return c

def run_case13(bab, c, seed):
    r = random.Random(seed); base = os.path.realpath(newdir('f')); n = len(c['dirs'])
    path = [None] * n; p = os.path.join(base, 'top')
    for i in range(n - 1, -1, -1):
        path[i] = p; os.makedirs(p); p = os.path.join(p, r.choice(['sub', 'Babfile.d', 'a b', 'é', '.hid', '..x']))
    def text(i, x): return json.dumps({'tasks': {'which': {'desc': 'ID=%d=%s=' % (i + 1, x), 'alias': 'w', 'run': [{'log': 'ID=%d=%s=' % (i + 1, x)}]}}})
    store = os.path.join(base, 'store'); os.makedirs(store + '/d')
    for i, d in enumerate(c['dirs']):
        for x, k in d.items():
            f = os.path.join(path[i], x)
            if k == 'file': open(f, 'w').write(text(i, x))
            elif k == 'bad': open(f, 'w').write(r.choice(['tasks: [', 'tasks: {which: {run: [{nope: 1}]}}', 'tasks: {which: {run: [{task: zz}]}}', 'just text', 'tasks: {which: {deps: [which]}}']))
            elif k == 'dir': os.mkdir(f)
            elif k == 'link': t = os.path.join(store, '%d-%s' % (i, x)); open(t, 'w').write(text(i, x)); os.symlink(t if r.random() < .5 else os.path.relpath(t, path[i]), f)
            elif k == 'dirlink': os.symlink(store + '/d', f)
            elif k == 'broken': os.symlink(store + '/nothing', f)
    up = os.path.dirname(base)
    while True:
        if any(os.path.exists(os.path.join(up, x)) for x in NAMES): raise CheckError('there is a Babfile above the scratch directory: ' + up)
        if up == '/': break
        up = os.path.dirname(up)
    fl = []
    if c['flag']:
        f = os.path.join(path[c['fdir'] - 1], c['fname'])
        f = r.choice([f, os.path.relpath(f, path[0]), './' + os.path.relpath(f, path[0])])
        fl = r.choice([['--babfile', f], ['-b', f], ['--babfile=' + f]])
    env = base_env(); w = r.random()
    if w < .3: env['PWD'] = path[0]
    elif w < .6: env['PWD'] = r.choice([base, '/nonexistent', path[-1] if n > 1 else base, store])
    if r.random() < .4: env['HOME'] = r.choice(path + [base])
    runs = []
    for mode in MODES:
        a = {'run': ['which'], 'alias': ['w'], 'dry': ['-n', 'which'], 'list': ['--list'], 'validate': ['--validate'], 'complete': ['']}[mode]
        a = ['__complete'] + fl + a if mode == 'complete' else fl + a if r.random() < .5 else a + fl
        q = subprocess.run([bab] + a, cwd=path[0], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
        m = set(re.findall(r'ID=(\d+)=([^=]+)=', q.stdout.decode('utf8', 'replace')))
        used = [0, ''] if not m else [int(min(m)[0]), min(m)[1]] if len(m) == 1 else [-1, str(sorted(m))]
        runs.append(dict(mode=mode, code=q.returncode, used=used))
    shutil.rmtree(base, ignore_errors=True)
    return dict(dirs=[[[x, k] for x, k in d.items()] for d in c['dirs']], flag=c['flag'], fdir=c['fdir'], fname=c['fname'], runs=runs)

def c13():
    ck = Check('C13'); bab = build_bab()
    rc, out = tlc('DiscoverMC', workers=4); a, b = tlc_stats(out); ck.add(design_states=b, design_transitions=a)
    cases = [gen_case(random.Random('C13x/%d' % i), f) for i, f in enumerate(itertools.product(['', 'file', 'dir'], repeat=5))]
    if THOROUGH: cases += [gen_case(random.Random('C13y/%d' % i), f) for i, f in enumerate(itertools.product(['', 'file', 'broken', 'link'], repeat=5))]
    cases += [gen_case(random.Random('C13/%d/%d' % (SEED, i))) for i in range(SIZE(350, 5000))]
    _, obs = drive(lambda x: run_case13(bab, x[1], 'r%d/%d' % (SEED, x[0])), enumerate(cases), 2 * NCPU)
    res, tot = judge_batch('DiscoverCheck', obs)
    ck.add(states=tot[1], transitions=tot[0], traces_validated_against_impl=sum(len(o['runs']) for o in obs), trees=len(obs), with_flag=sum(o['flag'] != '' for o in obs), exhaustive_single_directory=243)
    for o, q in zip(obs, res):
        ck.sample(o, 2)
        if q['bad']: ck.violation('%s used another Babfile than specified: %s\nobserved %s' % (q['bad'], q['want'], o['runs']), dict(observed=o, want=q['want']))
    ck.assume.append('no Babfile in the ancestors of the scratch directory (checked); symbolic links to the current directory itself are not generated')
    return ck.finish()
