"""Checks C01-C07, C09: families of programs for the execution engine."""
from engine import *

def ids_of(p): return [it['id'] for _, it, _ in all_items(p) if it['k'] == 'cmd']
def nitems(p): return len(list(all_items(p)))

def design(ck, gen, n, size, sig=False, seed='d', timeout=400):
    """Design-level model checking of the engine on small programs of the family."""
    progs = []; i = 0
    while len(progs) < n and i < 4000:
        i += 1
        p = gen(Gen(random.Random('%s/%s/%d/%d' % (ck.pid, seed, SEED, i))))
        if nitems(p) <= size and 1 <= len(ids_of(p)) <= (3 if sig else 4) + THOROUGH: progs.append(p)
    f = os.path.join(newdir('mc'), 'progs.json'); jdump(progs, f)
    rc, out = tlc('EngineMC', env={'PROGS': f, 'SIG': '1' if sig else '0'}, workers=NCPU, heap='6g', timeout=timeout)
    a, b = tlc_stats(out)
    ck.add(design_states=b, design_transitions=a, design_programs=len(progs))

def namespaced(r, p, prob=.25):
    """Moves the tasks that one task reaches into an included Babfile."""
    if r.random() >= prob or any(':' in n for n in p['tasks']) or p['gvars'] or any(any(t['scopes']) for t in p['tasks'].values()): return
    def refs(t):
        for i in t['run']:
            for x in [i] + (i['items'] if i['k'] == 'par' else []):
                if x['k'] == 'task': yield x
    top = [n for n in p['tasks'] if n != p['main']]
    if not top: return
    inc = set(); todo = [r.choice(top) if r.random() < .4 else top[0]]
    while todo:
        n = todo.pop()
        if n in inc: continue
        inc.add(n); t = p['tasks'][n]; todo += t['deps'] + [x['task'] for x in refs(t)]
    if p['main'] in inc: return
    nm = lambda n: 'm:' + n if n in inc else n
    for t in p['tasks'].values():
        t['deps'] = [nm(d) for d in t['deps']]
        for x in refs(t): x['task'] = nm(x['task'])
    p['tasks'] = {nm(n): t for n, t in p['tasks'].items()}

def on_terminal(r, p, c, prob=.3):
    """Runs the program on a terminal, its blocks in any mode (log lines cannot be told from the views)."""
    its = [i for _, i, _ in all_items(p)]
    if r.random() >= prob or any(i['k'] == 'log' for i in its) or c.get('sigat') is not None or not askable(p, r): return
    c['pty'] = True
    for i in its:
        if i['k'] == 'par': i.setdefault('mode', r.choice(['interleaved', 'grouped', 'grouped', 'tabs', '']))

def cases_from(ck, gen, n, policy=None, tag='c'):
    out = []
    for i in range(n):
        r = random.Random('%s/%s/%d/%d' % (ck.pid, tag, SEED, i))
        p = gen(Gen(r))
        c = dict(prog=p, seed=r.randrange(1 << 30), lifo=r.random() < 0.25)
        if r.random() < .12: c['args'] = ['--verbose']
        namespaced(r, p)
        if policy: c = policy(r, p, c)
        if c and 'pty' not in c:
            on_terminal(r, p, c)
            plain = ':' not in p['main'] and all(p['main'] <= t for t in p['tasks'])
            z = r.random()
            if z < .06 and plain and not any(i['k'] == 'log' for _, i, _ in all_items(p)) and c.get('sigat') is None and askable(p, r): c.update(via='pick', pty=True)
            elif z < .14: c['via'] = 'flag'
            elif z < .2 and plain: c['via'] = 'alias'
        if c: out.append(c)
    return out

def with_fail(prob=0.3, many=0.15):
    def f(r, p, c):
        ids = ids_of(p)
        if ids and r.random() < prob:
            c['fails'] = {r.choice(ids): r.choice([1, 2, 77, 255, 130, 1009, 1015])}
            if r.random() < many: c['fails'][r.choice(ids)] = 3
        return c
    return f

SIZE = (lambda q, t: t if THOROUGH else q)

def finish(ck, bab, cases, mc):
    ck.assume += ['commands are observed through probe processes; one schedule of bab-internal steps is sampled per run, all are explored in the design model',
                  'the design model is exhaustive over schedules and failures of the listed number of programs']
    ex = ThreadPoolExecutor(1)
    fut = ex.submit(mc) if mc else None
    conformance(ck, bab, cases)
    if fut: fut.result()
    return ck.finish()

# ---------------------------------------------------------------- C01
def hub(g):
    """Many concurrent and sequential references to few tasks."""
    r = g.r
    ns = r.random() < 0.4
    nm = lambda x: ('m:' if ns else '') + x
    k = r.randint(1, 2)
    shared = [nm('s%d' % i) for i in range(k)]
    tasks = {}
    def user(name, deps):
        items = [g.ref(r.choice(shared)) for _ in range(r.randint(0, 2))] + ([g.cmd()] if r.random() < .6 else [])
        if r.random() < .35: items.append(g.par([g.ref(r.choice(shared)) for _ in range(r.randint(1, 2))] + [g.cmd()], r.choice([0, 0, 1])))
        r.shuffle(items)
        tasks[name] = g.task(items or [g.cmd()], deps=deps)
    items = []
    users = [nm('u%d' % i) for i in range(r.randint(1, 4))]
    block = [g.ref(r.choice(shared + users)) for _ in range(r.randint(2, 6))]
    if r.random() < .5: block.append(g.cmd())
    items.append(g.par(block, r.choice([0, 0, 0, 1, 2, 3])))
    if r.random() < .5: items.append(g.ref(r.choice(shared + users)))
    if r.random() < .3: items.append(g.par([g.ref(r.choice(shared + users)) for _ in range(3)], r.choice([0, 2])))
    if r.random() < .3: r.shuffle(items)
    tasks['a'] = g.task(items, deps=[r.choice(shared + users)] if r.random() < .3 else [])
    for u in users: user(u, sorted({r.choice(shared) for _ in range(r.randint(0, 2))}))
    for s in shared:
        tasks[s] = g.task([g.cmd() for _ in range(r.randint(1, 2))] if r.random() < .7 else [g.par([g.cmd(), g.cmd()])])
    if ns:                         # same short names in the main file: different tasks
        tasks['s0'] = g.task([g.cmd()])
        tasks['a']['deps'].append('s0')
        if r.random() < .5: next(i for i in tasks['a']['run'] if i['k'] == 'par')['items'].append(g.ref('s0'))
    return g.prog(tasks)

def diamond(g): return g.random(g.r.randint(3, 6), share=.75, par=.45, ns=g.r.random() < .4)

def c01():
    ck = Check('C01'); build_probe(); bab = build_bab()
    n = SIZE(130, 900)
    cases = cases_from(ck, hub, n, with_fail(.35), 'hub') + cases_from(ck, diamond, n, with_fail(.25), 'dia')
    return finish(ck, bab, cases, lambda: design(ck, lambda g: hub(g) if g.r.random() < .6 else diamond(g), SIZE(14, 60), SIZE(8, 9)))

# ---------------------------------------------------------------- C02
def ordered(g):
    r = g.r
    names = ['a', 'b', 'c', 'd', 'e'][:r.randint(3, 5)]
    tasks = {}
    for i, n in enumerate(names):
        later = names[i + 1:]
        deps = [x for x in later if r.random() < .5]; r.shuffle(deps)
        items = []
        for _ in range(r.randint(1, 3)):
            z = r.random()
            if later and z < .3: items.append(g.ref(r.choice(later)))
            elif z < .6:
                its = [g.ref(r.choice(later)) if later and r.random() < .6 else g.cmd() for _ in range(r.randint(1, 3))]
                items.append(g.par(its, r.choice([0, 0, 1, 2])))
            elif z < .68: items.append(g.log())
            else: items.append(g.cmd())
        tasks[n] = g.task(items, deps=deps)
    return g.prog(tasks)

def listed(g):
    """Long lists of dependencies and items in no particular order of names."""
    r = g.r
    leaves = r.sample('bcdefghijk', r.randint(2, 6)); mid = r.sample('uvwxyz', r.randint(1, 3))
    tasks = {'a': g.task([g.ref(m) for m in mid] if r.random() < .5 else [g.par([g.ref(m) for m in mid], r.choice([0, 1]))])}
    for m in mid:
        items = [g.cmd()] if r.random() < .6 else [g.ref(x) for x in r.sample(leaves, r.randint(1, 2))]
        tasks[m] = g.task(items, deps=r.sample(leaves, r.randint(0, len(leaves))))
    for x in leaves: tasks[x] = g.task([g.cmd() for _ in range(r.randint(1, 2))])
    return g.prog(tasks)

def c02():
    ck = Check('C02'); build_probe(); bab = build_bab()
    n = SIZE(150, 1200)
    cases = cases_from(ck, listed, n // 2, with_fail(.1), 'lst') + cases_from(ck, ordered, n, with_fail(.15), 'ord') + cases_from(ck, lambda g: g.random(g.r.randint(2, 5), share=.6, par=.4, ns=g.r.random() < .3), n // 2, None, 'rnd')
    return finish(ck, bab, cases, lambda: design(ck, ordered, SIZE(14, 60), SIZE(7, 8)))

# ---------------------------------------------------------------- C03
def failing(g):
    r = g.r
    p = g.random(r.randint(2, 5), share=.6, par=.4, logs=.05, bad=.06, plats=.08, conds=.1, vars=.2, prompts=.1, ns=r.random() < .25)
    return p
def each_fail(ck, gen, n, tag):
    out = []
    for i in range(n):
        r = random.Random('%s/%s/%d/%d' % (ck.pid, tag, SEED, i))
        p = gen(Gen(r))
        for x in ids_of(p):
            out.append(dict(prog=p, seed=r.randrange(1 << 30), fails={x: r.choice([1, 1, 2, 3, 77, 126, 127, 130, 137, 255, 1002, 1009, 1013, 1015])}, lifo=r.random() < .3))
    return out
def waiters(g):
    """Tasks that run at the same time and need one that fails: before, while or after it runs."""
    r = g.r; tasks = {}; block = []
    shared = ['s', 'z'][:r.choice([1, 1, 1, 2])]
    for i in range(r.randint(2, 4)):
        n = 'u%d' % i; s = r.choice(shared); z = r.random()
        need = [g.ref(s)] if z < .5 else [g.ref('w')] if z < .65 and 'z' not in shared else [g.par([g.ref(s)] + [g.cmd()] * (r.random() < .5), r.choice([0, 1]))] if z < .8 else []
        its = [g.cmd() for _ in range(r.choice([0, 0, 1]))] + need + [g.cmd() for _ in range(r.choice([0, 1, 1, 2]))]
        tasks[n] = g.task(its or [g.cmd()], deps=[s] if not need else [])
        block.append(n)
    if any(i.get('task') == 'w' for t in tasks.values() for i in t['run']): tasks['w'] = g.task([g.ref('s'), g.cmd()])
    for s in shared: tasks[s] = g.task([g.cmd() for _ in range(r.choice([1, 1, 2]))])
    first = [g.ref(n) for n in block]
    if r.random() < .25: tasks['v'] = g.task([first.pop(), g.cmd()]); first.append(g.ref('v'))
    run = [g.par(first + [g.cmd()] * (r.random() < .2), r.choice([0, 0, 0, 1, 2]))]
    if r.random() < .2: run.append(g.cmd())
    return g.prog({'a': g.task(run), **tasks})
def shared_fails(r, p, c):
    x = [i['id'] for n, t in p['tasks'].items() if n.split(':')[-1] in ('s', 'z') for i in t['run'] if i['k'] == 'cmd']
    c['fails'] = {r.choice(x): r.choice([1, 3, 77, 1009])}
    if r.random() < .2: c['fails'][r.choice(ids_of(p))] = 5
    return c
def shared_fails_views(r, p, c):
    c = shared_fails(r, p, c); c['pty'] = True
    if not askable(p, r): return None
    for _, i, _ in all_items(p):
        if i['k'] == 'par': i['mode'] = r.choice(['grouped', 'tabs'])
    return c

def c03():
    ck = Check('C03'); build_probe(); bab = build_bab()
    cases = each_fail(ck, ordered, SIZE(22, 160), 'each')[:SIZE(150, 1200)] + cases_from(ck, failing, SIZE(150, 1000), with_fail(.6, .3), 'mix')
    cases += cases_from(ck, waiters, SIZE(60, 400), shared_fails, 'wait') + cases_from(ck, waiters, SIZE(20, 120), shared_fails_views, 'waitv')
    return finish(ck, bab, cases, lambda: design(ck, lambda g: waiters(g) if g.r.random() < .3 else failing(g), SIZE(20, 80), SIZE(8, 9)))

# ---------------------------------------------------------------- C04
def blocks(g, live=False):
    """Blocks within blocks; live: for a terminal, in live views, without log lines."""
    r = g.r
    tasks = {}; items = []
    def block(depth):
        n = r.randint(1, 6) if depth == 0 else r.randint(1, 3)
        its = []
        for _ in range(n):
            z = r.random()
            if z < (.5 if live else .3):
                t = 't%d' % len(tasks); tasks[t] = None
                if depth < 2 and r.random() < (.7 - .3 * depth if live else .4): tasks[t] = g.task([block(depth + 1)])
                else: tasks[t] = g.task([g.cmd() for _ in range(r.choice([1, 1, 2]))])
                its.append(g.ref(t))
            elif z < .36 and not live: its.append(g.log())
            else: its.append(g.cmd())
        b = g.par(its, r.choice([0, 1, 1, 2, 2, 3] if live else [0, 0, 1, 2, 3, n, n + 1]))
        if live: b['mode'] = r.choice(['interleaved', 'grouped', 'grouped', 'tabs', 'tabs'])
        elif r.random() < .4: b['mode'] = r.choice(['interleaved', 'grouped', 'tabs'])
        return b
    for _ in range(r.randint(1, 2)): items.append(block(0))
    if r.random() < .5: items.append(g.cmd())
    tasks['a'] = g.task(items)
    return g.prog(tasks)
def flat(g):
    """Blocks whose items all are single commands, so that filling of places can be demanded."""
    r = g.r
    n = r.randint(2, 8)
    tasks = {}; its = []
    for k in range(n):
        if r.random() < .3:
            tasks['t%d' % k] = g.task([g.cmd()]); its.append(g.ref('t%d' % k))
        else: its.append(g.cmd())
    b = g.par(its, r.choice([0, 0, 1, 2, 3, 4, n]))
    b['mode'] = r.choice(['interleaved', 'grouped', 'tabs', ''])
    tasks['a'] = g.task([b] + [g.cmd()])
    return g.prog(tasks)
def c04():
    ck = Check('C04'); build_probe(); bab = build_bab()
    def pol(r, p, c):
        c = with_fail(.35, .4)(r, p, c)
        if r.random() < .5: c['pty'] = True
        return c
    def polf(r, p, c):
        c = pol(r, p, c); ids = ids_of(p); r.shuffle(ids); c['order'] = ids; return c
    def nolog(g):
        p = blocks(g)
        return p
    def nologs(r, p, c):
        c = pol(r, p, c)
        if c.get('pty') and any(i['k'] == 'log' for _, i, _ in all_items(p)): c['pty'] = False
        return c
    def live(r, p, c): return dict(pol(r, p, c), pty=True)
    cases = cases_from(ck, flat, SIZE(150, 900), polf, 'flat') + cases_from(ck, blocks, SIZE(110, 700), nologs, 'nest') + \
        cases_from(ck, lambda g: blocks(g, True), SIZE(60, 500), live, 'live')
    return finish(ck, bab, cases, lambda: design(ck, lambda g: blocks(g) if g.r.random() < .6 else flat(g), SIZE(12, 50), SIZE(6, 7)))

# ---------------------------------------------------------------- C05
def c05():
    """Many schedules of the same program: accepted by the engine and by the denotation, hence the same outcome."""
    ck = Check('C05'); build_probe(); bab = build_bab()
    gens = [lambda g: g.random(g.r.randint(3, 5), share=.7, par=.7, limits=(0, 0, 1, 2)), hub, blocks]
    cases = []
    for i in range(SIZE(34, 220)):
        r = random.Random('C05/%d/%d' % (SEED, i))
        p = gens[i % 3](Gen(r))
        ids = ids_of(p)
        fails = {x: 1 for x in ids if r.random() < .5 / max(2, len(ids))} if r.random() < .6 else {}
        pty = r.random() < .35 and not any(x['k'] == 'log' for _, x, _ in all_items(p)) and askable(p, r)
        if pty:
            for _, x, _ in all_items(p):
                if x['k'] == 'par': x['mode'] = r.choice(['interleaved', 'grouped', 'tabs'])
        for k in range(8):
            o = list(ids); r.shuffle(o)
            cases.append(dict(pty=pty and k % 4 > 0, prog=p, seed=r.randrange(1 << 30), fails=fails, order=o if k % 2 else None, lifo=k == 2, group=i))
    cases, traces, bad = conformance(ck, bab, cases)
    groups = {}
    for c, t in zip(cases, traces):
        ex = [e['code'] for e in t['ev'] if e['e'] == 'exit']
        fl = c['fails']
        st = {(e['id'], e['val']) for e in t['ev'] if e['e'] == 'start'}
        groups.setdefault(c['group'], []).append((ex, st if not fl else None, c, t))
    for gi, rs in groups.items():
        if any(x[0] != rs[0][0] or x[1] != rs[0][1] for x in rs[1:]):
            o = next(x for x in rs[1:] if x[0] != rs[0][0] or x[1] != rs[0][1])
            ck.violation('two schedules of one program differ: exit %s / %s' % (rs[0][0], o[0]), dict(files=render(o[3]['prog']), a=rs[0][3]['ev'], b=o[3]['ev']))
    ck.add(programs=len(groups), schedules_per_program=8)
    brk = [b for b in broken(traces)]
    for t, b in zip(traces, brk):
        if 'Outcome' in b: ck.violation('outcome differs from the denotation', dict(files=render(t['prog']), trace=t))
    design(ck, lambda g: gens[g.r.randint(0, 2)](g), SIZE(14, 60), SIZE(7, 8))
    ck.assume += ['schedules are sampled on the implementation and exhaustive on the design model']
    return ck.finish()

# ---------------------------------------------------------------- C06
def gated(g):
    r = g.r
    p = g.random(r.randint(2, 4), share=.45, par=.45, logs=.1, conds=.5, plats=r.choice([.18, .18, .4]), prompts=.15, vars=.25, ns=r.random() < .4)
    return p
def c06():
    ck = Check('C06'); build_probe(); bab = build_bab()
    def pol(r, p, c):
        if r.random() < .15: c = with_fail(1)(r, p, c)
        return c
    cases = cases_from(ck, gated, SIZE(420, 2800), pol, 'gate')
    return finish(ck, bab, cases, lambda: design(ck, gated, SIZE(40, 150), SIZE(8, 9)))

# ---------------------------------------------------------------- part of C21
def together(g):
    """Tasks that prompt and run in parallel, in views that go on meanwhile."""
    r = g.r
    names = ['p', 'q', 's', 't', 'u'][:r.randint(2, 5)]; tasks = {}
    for k, n in enumerate(names):
        its = []; vis = []
        for _ in range(r.randint(1, 4)):
            z = r.random()
            if z < .45:
                v = r.choice('vw'); vis += [v]
                its.append(g.prompt(v, ''.join(r.choice('abxyz019') for _ in range(r.randint(1, 12)))))
            elif z < .55 and k + 1 < len(names): its.append(g.ref(r.choice(names[k + 1:])))
            elif z < .62 and k + 1 < len(names):
                b = g.par([g.ref(m) for m in names[k + 1:k + 3]], r.choice([0, 1])); its.append(b)
            else: its.append(g.cmd(text='/'.join('${{ %s }}' % x for x in vis) or 'v'))
        its.append(g.cmd(text='/'.join('${{ %s }}' % x for x in vis) or 'v'))
        tasks[n] = g.task(its, deps=[m for m in names[k + 1:] if r.random() < .1])
    first = names[:r.randint(2, len(names))]
    b = g.par([g.ref(n) for n in first] + [g.cmd() for _ in range(r.randint(0, 2))], r.choice([0, 0, 1, 2]))
    r.shuffle(b['items'])
    return g.prog({'a': g.task([g.prompt('v', 'A1')] * (r.random() < .3) + [b] + [g.prompt('w', 'A2'), g.cmd(text='${{ w }}')] * (r.random() < .4)), **tasks})
def together_cases(ck, n):
    def pol(r, p, c):
        c = with_fail(.15)(r, p, c)
        if not askable(p, r): return None
        c['pty'] = True
        for _, i, _ in all_items(p):
            if i['k'] == 'par': i['mode'] = r.choice(['interleaved', 'grouped', 'grouped', 'tabs', 'tabs'])
        return c
    return cases_from(ck, together, n, pol, 'tog')

# ---------------------------------------------------------------- C07
def cancelled(g):
    r = g.r
    p = (flat if r.random() < .3 else blocks if r.random() < .4 else ordered)(g)
    for _, it, _ in all_items(p):
        if it['k'] == 'cmd' and r.random() < .4: it['probe'] = 'tree'
    return p
def c07():
    ck = Check('C07'); build_probe(); bab = build_bab()
    def pol(r, p, c):
        ids = ids_of(p)
        if not ids: return None
        c['sigat'] = r.randint(1, max(1, min(len(ids), 6)))
        c['exit_deadline'] = 12
        if r.random() < .3: c['fails'] = {r.choice(ids): 1}
        if r.random() < .3 and not any(i['k'] == 'log' for _, i, _ in all_items(p)):
            c['pty'] = True
            bl = [i for i in p['tasks']['a']['run'] if i['k'] == 'par']
            if bl and p['tasks']['a']['run'][0] is bl[0] and r.random() < .6 and not p['tasks']['a']['deps'] and all(i['k'] == 'cmd' for i in bl[0]['items']) and len(p['tasks']['a']['run']) == 1 + 0:
                bl[0]['mode'] = r.choice(['grouped', 'tabs']); c['key'] = True; c['nblock'] = len(bl[0]['items'])
        return c
    def keyed(g):
        r = g.r
        b = g.par([g.cmd(probe='tree' if r.random() < .5 else 'run') for _ in range(r.randint(1, 5))], r.choice([0, 0, 1, 2]))
        b['mode'] = r.choice(['grouped', 'tabs'])
        return g.prog({'a': g.task([b] + ([g.cmd()] if r.random() < .7 else []))})
    def polk(r, p, c):
        blk = p['tasks']['a']['run'][0]
        c.update(pty=True, key=True, nblock=len(blk['items']), exit_deadline=12, sigat=r.randint(1, min(blk['limit'] or 9, len(blk['items']))))
        return c
    def asking(g):
        """Prompts on the way to the commands, each a place where the signal may find the run."""
        r = g.r
        def items(later):
            out = [g.prompt('q', r.choice(['1', 'zz'])) if r.random() < .45 else g.ref(later.pop(0)) if later and r.random() < .3 else g.cmd(probe='tree' if r.random() < .3 else 'run') if r.random() < .7 else
                   g.par([g.cmd() for _ in range(r.randint(1, 3))], r.choice([0, 1])) for _ in range(r.randint(1, 3))]
            return out
        names = ['a', 'b', 'c'][:r.randint(1, 3)]; tasks = {}
        for k, n in enumerate(names):
            its = items(names[k + 1:k + 2])
            tasks[n] = g.task(its + ([g.prompt('q', 'P')] if n == 'a' and r.random() < .6 else []), deps=[m for m in names[k + 1:] if r.random() < .5])
        return g.prog(tasks)
    def polp(r, p, c):
        if not askable(p, r): return None
        n = sum(i['k'] == 'prompt' for _, i, _ in all_items(p))
        if r.random() < .15: c.update(via='pick', sigask=0)
        elif n and r.random() < .85: c['sigask'] = r.randint(1, n)
        elif ids_of(p): c['sigat'] = r.randint(1, len(ids_of(p)))
        c.update(pty=True, exit_deadline=12)
        return c
    def polt(r, p, c):
        c = polp(r, p, c)
        for _, i, _ in all_items(p):
            if i['k'] == 'par': i['mode'] = r.choice(['interleaved', 'grouped', 'tabs'])
        return c
    cases = cases_from(ck, asking, SIZE(60, 400), polp, 'ask') + cases_from(ck, together, SIZE(40, 300), polt, 'tog') + cases_from(ck, cancelled, SIZE(190, 1400), pol, 'can') + cases_from(ck, keyed, SIZE(40, 250), polk, 'key')
    return finish(ck, bab, cases, lambda: design(ck, cancelled, SIZE(10, 40), SIZE(4, 5), sig=True))

# ---------------------------------------------------------------- C09
def scoped(g):
    """Variables of one name in many scopes, prompts, shared tasks; every command shows what it sees."""
    r = g.r
    names = ['a', 'b', 'c', 'd'][:r.randint(2, 4)]
    ns = r.random() < .5
    if ns:
        k = r.randint(1, len(names) - 1)
        names = [n if i < k else 'm:' + n for i, n in enumerate(names)]
    incvars = [[v, 'i' + v if v == 'x' or r.random() < .5 else 'i-${{ x }}'] for v in 'xy' if r.random() < .6] if ns else []
    gv = [['x', 'gx'], ['y', 'gy'], ['z', 'g-${{ x }}']]
    tasks = {}
    for i, n in enumerate(names):
        inc = n.startswith('m:')
        later = [m for m in names[i + 1:] if m.startswith('m:') or not inc]
        if inc: later = [m for m in later if m.startswith('m:')]
        own = [[v, '%s%s' % (n[-1], v) if r.random() < .7 else '${{ y }}+' + n[-1]] for v in 'xw' if r.random() < .45]
        scopes = ([incvars] if inc else []) + [own]
        vis = ['x', 'y', 'z'] + (['w'] if any(o[0] == 'w' for o in own) else [])
        def text(vis): return '/'.join('${{ %s }}' % v for v in vis)
        items = []
        for _ in range(r.randint(1, 4)):
            z = r.random()
            if z < .28:
                v = r.choice(['x', 'y', 'q', 'w'])
                items.append(g.prompt(v, r.choice(['P', 'P${{ x }}', '1']) + n[-1]))
                if v not in vis: vis.append(v)
            elif later and z < .5: items.append(g.ref(r.choice(later)))
            elif z < .75:
                its = [g.ref(r.choice(later)) if later and r.random() < .4 else g.cmd(text=text(vis)) for _ in range(r.randint(1, 3))]
                items.append(g.par(its, r.choice([0, 0, 1, 2])))
            elif z < .82: items.append(g.log(text=text(vis)))
            elif z < .87: items.append(g.cmd(text='v', when="${{ %s }} == 'P%s'" % (r.choice(vis), n[-1])))
            elif z < .89: items.append(g.cmd(text='${{ %s }}' % r.choice(['q', 'w', 'nope'])))
            else: items.append(g.cmd(text=text(vis)))
        tasks[n] = dict(deps=[m for m in later if r.random() < .3], run=items, when='', scopes=scopes)
    return g.prog(tasks, gvars=gv)
def c09():
    ck = Check('C09'); build_probe(); bab = build_bab()
    cases = cases_from(ck, scoped, SIZE(330, 2500), with_fail(.05), 'sc')
    return finish(ck, bab, cases, lambda: design(ck, scoped, SIZE(25, 100), SIZE(8, 9)))
