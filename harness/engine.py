"""Execution-engine scenarios: generate programs, run them on the real bab under a controlled
schedule, and have TLC check the recorded histories against spec/Engine.tla."""
import json, os, random, signal, time
from vh import *

# ------------------------------------------------------------ program -> Babfile
def item_yaml(it, inpar=False):
    y = {}
    if it['k'] == 'cmd':
        y['cmd'] = it.get('pre', '') + "probe %s %s '%s'" % (it.get('probe', 'run'), it['id'], it['text'])
        if it.get('bad'): y['dir'] = './no-such-dir'
        if inpar: y['label'] = it['id']
    elif it['k'] == 'log':
        y['log'] = 'LOG:%s:%s:GOL' % (it['id'], it['text'])
        if inpar: y['label'] = it['id']
    elif it['k'] == 'task':
        y['task'] = it['task']
        if inpar and it.get('label'): y['label'] = it['label']
    elif it['k'] == 'prompt':
        y.update(prompt=it['var'], type=it.get('type', 'input'), message='Ask%d.' % it['ask'] if it.get('ask') else 'value for ' + it['var'])
        if 'extra' in it: y.update(it['extra'])
        elif it['has'] and not it.get('typed'): y['default'] = it.get('raw', it['ans'])
    elif it['k'] == 'par':
        y['parallel'] = [item_yaml(x, True) for x in it['items']]
        if it['limit']: y['limit'] = it['limit']
        if it.get('mode'): y['mode'] = it['mode']
    if it.get('when'): y['when'] = it['when']
    if not it['plat']: y['platforms'] = ['windows']
    elif it.get('platx'): y['platforms'] = it['platx']
    if it.get('silent') is not None and it['k'] != 'log': y['silent'] = it['silent']
    return y

def task_yaml(t):
    y = {}
    if t['scopes'] and t['scopes'][-1]: y['vars'] = dict(t['scopes'][-1])
    if t['when']: y['when'] = t['when']
    if t['deps']: y['deps'] = t['deps']
    if t['run']: y['run'] = [item_yaml(i) for i in t['run']]
    y.setdefault('desc', 'd')
    return y

def render(prog):
    """Files of the program: tasks named ns:x live in an included file ns.yml."""
    files = {}
    main = {'tasks': {}}
    if prog['gvars']: main['vars'] = dict(prog['gvars'])
    inc = {}
    for n, t in prog['tasks'].items():
        if ':' in n:
            ns, b = n.split(':', 1)
            inc.setdefault(ns, {'tasks': {}})
            loc = json.loads(json.dumps(t))
            loc['deps'] = [d.split(':', 1)[1] for d in loc['deps']]
            def strip(items):
                for i in items:
                    if i['k'] == 'task': i['task'] = i['task'].split(':', 1)[1]
                    if i['k'] == 'par': strip(i['items'])
            strip(loc['run'])
            inc[ns]['tasks'][b] = task_yaml(loc)
            if len(t['scopes']) > 1 and t['scopes'][0]: inc[ns]['vars'] = dict(t['scopes'][0])
        else: main['tasks'][n] = task_yaml(t)
    for ns, y in inc.items():
        files[ns + '.yml'] = y
        main.setdefault('includes', {})[ns] = {'babfile': ns + '.yml'}
    files['Babfile'] = main
    return files

def all_items(prog):
    for n, t in prog['tasks'].items():
        for i in t['run']:
            yield n, i, None
            if i['k'] == 'par':
                for x in i['items']: yield n, x, i

# ------------------------------------------------------------ generation
class Gen:
    def __init__(self, rng): self.r = rng; self.n = 0
    def id(self, p='c'): self.n += 1; return '%s%d' % (p, self.n)
    def cmd(self, **k): return dict(dict(k='cmd', id=self.id(), text='v', when='', plat=True, bad=False), **k)
    def log(self, **k): return dict(dict(k='log', id=self.id('l'), text='v', when='', plat=True), **k)
    def ref(self, t, **k): return dict(dict(k='task', task=t, when='', plat=True), **k)
    def par(self, items, limit=0, **k): return dict(dict(k='par', items=items, limit=limit, when='', plat=True), **k)
    def prompt(self, var, ans, **k): return dict(dict(k='prompt', var=var, ans=ans, has=True, when='', plat=True), **k)
    def task(self, run, deps=(), when='', scopes=([],)): return dict(deps=list(deps), run=list(run), when=when, scopes=[list(map(list, s)) for s in scopes])
    def prog(self, tasks, main='a', gvars=()): return dict(main=main, gvars=[list(x) for x in gvars], tasks=tasks)

    def random(self, nt, share=0.5, par=0.4, limits=(0, 0, 1, 2, 3), logs=0.1, conds=0.0, plats=0.0, prompts=0.0, vars=0.0, bad=0.0, mode=None, maxitems=3, ns=False, tree=0.0):
        r = self.r
        names = [chr(97 + i) for i in range(nt)]
        if ns and nt >= 3:
            k = r.randint(1, nt - 1)
            names = [n if i < k else 'm:' + n for i, n in enumerate(names)]
        gv = [['x', '1'], ['f', 'false'], ['e', '']] if (conds or vars) else []
        def cond(own):
            if r.random() >= conds: return ''
            return r.choice(["${{ x }}", "${{ f }}", "${{ x }} == '1'", "${{ x }} != '1'", "${{ e }} == 'q'", "${{ e }}", "${{ f }} == 'false'", "${{ x }} == '2'"])
        def deco(it, own):
            it['when'] = cond(own)
            if r.random() < plats:
                if r.random() < 0.5: it['plat'] = False
                else: it['platx'] = r.choice([['linux'], ['darwin', 'linux']])
            return it
        tasks = {}
        for i, n in enumerate(names):
            later = [m for m in names[i + 1:] if ('m:' in n) <= ('m:' in m) and (not (('m:' in n) and not ('m:' in m)))]
            own = []
            scopes = [[]]
            if r.random() < vars: scopes = [[['x', r.choice(['1', '2', '${{ f }}'])], ['y', 'y' + n[-1]]]]
            def text():
                if r.random() < vars:
                    ch = ['${{ x }}']
                    if scopes[-1]: ch.append('${{ y }}-${{ x }}')
                    if r.random() < 0.06: ch = ['${{ y }}']
                    if own: ch.append('${{ %s }}' % r.choice(own))
                    return r.choice(ch)
                return 'v'
            def leaf(inpar):
                z = r.random()
                if later and z < share: it = self.ref(r.choice(later[:3]))
                elif z < share + logs: it = self.log(text=text())
                else: it = self.cmd(text=text(), bad=r.random() < bad, probe='tree' if r.random() < tree else 'run')
                return deco(it, own)
            items = []
            for _ in range(r.randint(0 if i and later else 1, maxitems)):
                if r.random() < par:
                    its = [leaf(True) for _ in range(r.randint(1, 4))]
                    it = deco(self.par(its, r.choice(limits)), own)
                    if mode: it['mode'] = r.choice(mode)
                    items.append(it)
                elif r.random() < prompts:
                    v = 'p' + n[-1]
                    it = deco(self.prompt(v, r.choice(['1', 'false', 'zz'])), own)
                    if r.random() < 0.08: it['has'] = False
                    items.append(it)
                    if it['when'] == '' and it['plat']: own.append(v)
                else: items.append(leaf(False))
            deps = [m for m in later[:3] if r.random() < share * 0.6]
            r.shuffle(deps)
            if not items and not deps: items = [self.cmd()]
            tasks[n] = dict(deps=deps, run=items, when=cond([]) if i or r.random() < .2 else '', scopes=scopes)
        return self.prog(tasks, main=names[0], gvars=gv)

# ------------------------------------------------------------ expectation of concurrency (only steers waiting)
def plain(x): return not x['when'] and x['plat'] and not x.get('bad') and '${{' not in x.get('text', '')
def blocks_of(prog):
    """Parallel blocks in which each item is known to start and run exactly one command: (ids, limit)."""
    refs = {}
    for n, t in prog['tasks'].items():
        for d in t['deps']: refs[d] = refs.get(d, 0) + 1
    for n, i, _ in all_items(prog):
        if i['k'] == 'task': refs[i['task']] = refs.get(i['task'], 0) + 1
    def rep(x):
        if x['k'] == 'cmd' and plain(x): return x['id']
        if x['k'] == 'task' and plain(x) and refs[x['task']] == 1:
            t = prog['tasks'][x['task']]
            if not t['deps'] and not t['when'] and not any(t['scopes']) and len(t['run']) == 1 and t['run'][0]['k'] == 'cmd' and plain(t['run'][0]): return t['run'][0]['id']
        return None
    out = []
    for n, t in prog['tasks'].items():
        for i in t['run']:
            if i['k'] == 'par' and i['items']:
                ids = [rep(x) for x in i['items']]
                if all(ids): out.append((ids, i['limit']))
    return out

def askable(prog, r):
    """Whether the prompts of the program can be answered on a terminal; numbers them and decides which are answered
    by typing, which by accepting the default."""
    ps = [i for _, i, _ in all_items(prog) if i['k'] == 'prompt']
    if any(not i['has'] or i.get('type', 'input') != 'input' or 'extra' in i for i in ps): return False
    for k, i in enumerate(ps): i.update(ask=k + 1, typed='$' not in i['ans'] and r.random() < .6)
    return True

# ------------------------------------------------------------ running
def run_case(bab, case):
    """case: prog, seed, fails {id: code}, policy fields; returns the trace."""
    prog = case['prog']; r = random.Random(case['seed'])
    d = newdir('p')
    rp = random.Random('pre%s' % case['seed'])
    for _, i, _ in all_items(prog):          # commands are run by `sh -c` as they are: the last one counts
        if i['k'] == 'cmd' and rp.random() < .12: i['pre'] = rp.choice(['false; ', 'false\n', ': "$unset"; ', '! true; ', 'x=$(false); ', '(exit 3); ', 'false | true && ', 'set -- a; '])
    files = render(prog); via = case.get('via'); name = prog['main']; cwd = d
    if via == 'alias':
        name = 'zz-' + name
        files['Babfile']['tasks'][prog['main']]['alias'] = name
    write_files(d, files)
    fails = case.get('fails', {})
    args = case.get('args', []) + [name]
    if via == 'flag':
        cwd = newdir('c'); args += [r.choice(['-b', '--babfile']), os.path.join(r.choice([d, os.path.relpath(d, cwd)]), 'Babfile')]
    s = Session(bab, args if via != 'pick' else args[:-1], cwd, env=case.get('env'), pty=case.get('pty', False), merge=True)
    if via == 'pick':                   # the first task of the picker is the main one
        end = time.time() + 10
        while s.code is None and time.time() < end and not re.search(rb'\d/\d', s.out[1]): s.pump(.05)
        s.idle(.1, .4)
        if case.get('sigask') == 0: s.signal(r.choice([signal.SIGTERM, signal.SIGINT]))
        else: s.keys(b'\r')
    blocks = case.get('blocks')
    if blocks is None: blocks = blocks_of(prog)
    sigat = case.get('sigat')          # send the signal when that many starts were seen ...
    order = case.get('order')          # explicit order of completion: list of ids, as far as they apply
    q = case.get('q', 0.03)
    patience = case.get('patience', 15.0)
    nstart = lambda: sum(1 for e in s.ev if e['e'] == 'start')
    started = lambda: {e['id'] for e in s.ev if e['e'] == 'start'}
    ended = lambda: {e['id'] for e in s.ev if e['e'] in ('end', 'kill')}
    def wanted():
        """Starts that must come without any release."""
        st, en = started(), ended()
        for ids, lim in blocks:
            if not st & set(ids): continue
            cap = lim or len(ids)
            need = min(len(ids), len(en & set(ids)) + cap)
            if len(st & set(ids)) < need: return True
        return False
    deadline = time.time() + case.get('deadline', 40)
    signalled = False
    last = time.time(); nolive = 0
    asked = 0; answered = set()
    typed = {i['ask']: i['ans'] for _, i, _ in all_items(prog) if i['k'] == 'prompt' and i.get('typed')}
    def pending():
        """The number of a prompt that was displayed and not answered yet."""
        return next((int(n) for n in re.findall(rb'Ask(\d+)\.', s.out[1]) if int(n) not in answered), None) if case.get('pty') else None
    while s.code is None and time.time() < deadline:
        s.pump(q)
        s.idle(q if r.random() < 0.7 else 0.004, 3.0)
        if s.code is not None: break
        if sigat is not None and not signalled and nstart() >= sigat:
            signalled = True
            if r.random() < 0.3: time.sleep(r.random() * 0.01)
            if case.get('pty') and case.get('key'): s.log(e='sig'); s.keys(b'\x03')
            else: s.signal(signal.SIGTERM if r.random() < 0.5 else signal.SIGINT)
            if r.random() < 0.4:                  # a command ends at the same moment
                o = s.outstanding()
                # (the last item of a live view ends the view, and the key with it)
                if o and not (case.get('key') and len(o) < 2 and nstart() >= case['nblock']): c = r.choice(o); s.release(c, fails.get(c.id, 0))
            break
        k = pending()
        if k:
            s.idle(.08, .4); answered.add(k); asked += 1; nolive = 0
            if case.get('sigask') == asked: s.signal(r.choice([signal.SIGTERM, signal.SIGINT])); break
            s.keys(typed.get(k, '').encode() + b'\r'); continue
        o = s.outstanding()
        if not o:
            if nolive == 0: last = time.time()
            nolive = 1
            if time.time() - last > 15: break
            continue
        nolive = 0
        if wanted() and not signalled:
            t0 = time.time()
            while wanted() and time.time() - t0 < patience and s.code is None: s.pump(0.1)
            if wanted() and s.code is None:
                s.idle(0.5); s.log(e='quiet')
                blocks = []
            continue
        if order:
            c = next((c for i in order for c in o if c.id == i), None) or r.choice(o)
        else: c = r.choice(o) if not case.get('lifo') else o[-1]
        s.release(c, fails.get(c.id, 0))
    s.finish(case.get('exit_deadline', 20))
    tr = dict(prog=prog, ev=s.ev)
    case['stderr'] = (s.out[2] or s.out[1])[-1500:].decode('utf8', 'replace')
    shutil.rmtree(d, ignore_errors=True)
    return tr

# ------------------------------------------------------------ judging
def judge(traces, nshards=None, module='EngineTrace'):
    """Returns (list of (index, furthest event) of rejected traces, states, distinct)."""
    idx = list(range(len(traces)))
    tot = [0, 0]; bad = []
    def one(sh):
        if not sh: return []
        d = newdir('b')
        jdump([traces[i] for i in sh], os.path.join(d, 'batch.json'))
        rc, out = tlc(module, env={'BATCH': os.path.join(d, 'batch.json'), 'RESULT': os.path.join(d, 'res.json')})
        res = json.load(open(os.path.join(d, 'res.json')))
        a, b = tlc_stats(out)
        with _lk2: tot[0] += a; tot[1] += b
        return [(sh[k], got) for k, (got, want) in enumerate(res) if got != want]
    for r in pmap(one, shards(idx, nshards or NCPU), NCPU): bad += r
    return sorted(bad), tot[0], tot[1]
_lk2 = threading.Lock()

def broken(traces):
    """Names of the history predicates of EngineProps that each trace breaks."""
    if not traces: return []
    d = newdir('b')
    jdump(traces, os.path.join(d, 'batch.json'))
    tlc('EngineHist', env={'BATCH': os.path.join(d, 'batch.json'), 'RESULT': os.path.join(d, 'res.json')})
    return json.load(open(os.path.join(d, 'res.json')))

def describe(trace, at):
    ev = trace['ev']
    t = []
    for i, e in enumerate(ev):
        t.append('%s%s' % ('>>> ' if i == at - 1 else '    ', ' '.join(str(v) for v in e.values())))
    return 'recorded history is not a behaviour of the specification; first impossible event marked:\n' + '\n'.join(t[:80])

def conformance(ck, bab, cases, what='trace'):
    t0 = time.time()
    cases, traces = drive(lambda c: run_case(bab, c), cases, 3 * NCPU, bad=lambda t: any(e['e'] in ('hang', 'alive') for e in t['ev']))
    t1 = time.time()
    bad, a, b = judge(traces)
    ck.add(states=b, transitions=a, traces_validated_against_impl=len(traces), events=sum(len(t['ev']) for t in traces))
    ck.cov['distinct_histories'] = len({json.dumps(t) for t in traces})
    for t in traces: ck.sample(dict(program=t['prog'], history=[' '.join(str(v) for v in e.values()) for e in t['ev']]), 2)
    try: brk = broken([traces[i] for i, _ in bad[:5]])
    except CheckError: brk = []
    for n, (i, at) in enumerate(bad):
        ck.violation((('breaks ' + ', '.join(brk[n]) + '\n') if n < len(brk) and brk[n] else '') + describe(traces[i], at) + '\n' + cases[i].get('stderr', '')[-600:], dict(files=render(traces[i]['prog']), main=traces[i]['prog']['main'], trace=traces[i], at=at, case={k: v for k, v in cases[i].items() if k != 'prog'}))
    if os.environ.get('VERIF_TIMES'): print('run %.1fs judge %.1fs' % (t1 - t0, time.time() - t1))
    return cases, traces, bad
