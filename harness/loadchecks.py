"""C10, C12, C15: loading of Babfile sets."""
from engine import *
from engchecks import SIZE
from drychecks import judge_batch

ANSI = re.compile(r'\x1b\[[0-9;?]*[a-zA-Z]')

# ---------------------------------------------------------------- generation
def gen_set(r, defects=1.0, big=False):
    """A set of Babfiles; defects scales the probability of unsound constructs."""
    nf = r.choice([1, 1, 2, 2, 3, 4, 5])
    paths = ['Babfile'] + r.sample(['inc.yml', 'sub/babfile.yml', 'sub/deep/x.yaml', 'sub/Babfile', 'other dir/b.yml', 'Inc.yml', 'INC.yml', 'Sub/babfile.yml', 'babfile'], nf - 1)
    bad = lambda p: r.random() < p * defects
    files = []
    n = [0]
    for fi, path in enumerate(paths):
        incs = []
        later = paths[fi + 1:]
        for q in later:
            if r.random() < .65: incs.append((r.choice(['m', 'n', 'k', 'x', 'm:n']), q))
        if fi == 0 and nf > 1 and not incs: incs.append(('m', paths[1]))
        if bad(.04): incs.append(('zz', r.choice(paths)))               # may be a cycle
        if bad(.04): incs.append(('mi', 'missing.yml'))
        seen = set(); incs = [x for x in incs if not (x[0] in seen or seen.add(x[0]))]
        names = r.sample(['a', 'b', 'c', 'x', 'y', 'n:a', 'build', 'build-all', 'm:b'] if r.random() < .7 else ['a', 'b', 'c', 'd'], r.randint(1, 4))
        if bad(.04): names.append(r.choice(names))
        tasks = []
        for i, nm in enumerate(names):
            t = dict(name=nm, aliases=[], deps=[], items=[], desc=r.choice(['', '', 'about it', 'about ' + nm.replace(':', ' '), '[old] ' + nm.replace(':', ' '), "it's: é" + nm.replace(':', ' '), '50% "q" ' + nm.replace(':', ' ')]))
            forward = names[i + 1:] + ['%s:%s' % (ns, '?') for ns, _ in incs]
            def target():
                if bad(.06): return r.choice(names + ['nope', 'a:b', 'B'])
                z = r.choice(forward) if forward else None
                if z is None: return None
                return z
            for _ in range(r.choice([0, 0, 1, 2])):
                d = target()
                if d and d not in t['deps']: t['deps'].append(d)
            for _ in range(r.choice([1, 1, 2, 3])):
                z = r.random()
                if z < .5:
                    n[0] += 1; t['items'].append(('cmd', 'i%d' % n[0]))
                elif z < .75:
                    d = target()
                    if d: t['items'].append(('task', d))
                else:
                    its = []
                    for _ in range(r.randint(1, 3)):
                        d = target()
                        if d and r.random() < .6: its.append(('task', d))
                        else: n[0] += 1; its.append(('cmd', 'i%d' % n[0]))
                    t['items'].append(('par', its))
            if not t['items'] and not t['deps']: n[0] += 1; t['items'].append(('cmd', 'i%d' % n[0]))
            for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
                t['aliases'].append('%s%d' % (r.choice(['q', 'al', 'z']), n[0] * 10 + r.randint(0, 9)) if not bad(.07) else r.choice(names + ['q', 'q', 'dup']))
            tasks.append(t)
        files.append(dict(path=path, incs=incs, tasks=tasks))
    if bad(.12):                # a cycle, each step of it by a dependency, a reference or an item of a block
        f = r.choice(files); ts = r.sample(f['tasks'], r.randint(1, min(3, len(f['tasks']))))
        for x, y in zip(ts, ts[1:] + ts[:1]):
            z = r.random()
            if z < .3: x['deps'].append(y['name'])
            elif z < .5: x['items'].append(('task', y['name']))
            else: x['items'].append(('par', [('task', y['name'])] + [('cmd', 'y%d' % len(x['items']))] * (r.random() < .3)))
    # resolve "ns:?" to a task of the included file
    byp = {f['path']: f for f in files}
    def names_of(p, depth=0):
        f = byp.get(p)
        if not f or depth > 3: return []
        return [t['name'] for t in f['tasks']] + [ns + ':' + x for ns, q in f['incs'] for x in names_of(q, depth + 1)]
    for f in files:
        m = dict(f['incs'])
        def fix(d):
            if not d.endswith(':?'): return d
            ns = d[:-2]; c = names_of(m[ns])
            return ns + ':' + r.choice(c) if c else None
        for t in f['tasks']:
            t['deps'] = [x for x in dict.fromkeys(fix(d) for d in t['deps']) if x]
            t['items'] = [(k, v if k == 'cmd' else fix(v) if k == 'task' else [(a, fix(b) if a == 'task' else b) for a, b in v]) for k, v in t['items']]
            t['items'] = [(k, [y for y in v if y[1]] if k == 'par' else v) for k, v in t['items'] if v]
            t['items'] = [(k, v) for k, v in t['items'] if v]
    return files

def render_set(r, files, gated=False):
    """YAML text with the line of every construct; returns (texts, model)."""
    texts, model = {}, []
    for f in files:
        L = []
        def w(s):
            L.append(s)
            if r.random() < .07: L.append(r.choice(['', '# comment', '  # indented: comment']))
            return None
        def at(s): w_line = len(L) + 1; w(s); return w_line
        if r.random() < .3: w('# file ' + f['path'])
        inclines = {}
        def incs():
            if not f['incs']: return
            w('includes:')
            for ns, q in f['incs']:
                rel = os.path.relpath(os.path.join('/r', q), os.path.dirname(os.path.join('/r', f['path'])))
                inclines[ns] = at('  %s:' % json.dumps(ns)); w('    babfile: %s' % json.dumps(rel if r.random() < .8 else './' + rel))
        mt = []
        def tasks():
            w('tasks:')
            for t in f['tasks']:
                m = dict(name=t['name'], line=at('  %s:' % (json.dumps(t['name']) if ':' in t['name'] or r.random() < .2 else t['name'])), depsline=0, desc=t['desc'], aliases=list(t['aliases']), deps=list(t['deps']), refs=[], ids=[])
                parts = []
                def desc():
                    if t['desc']: w('    desc: %s' % json.dumps(t['desc'], ensure_ascii=r.random() < .5))
                def alias():
                    al = list(t['aliases'])
                    if al and r.random() < .5: w('    alias: %s' % json.dumps(al.pop(0)))
                    if al:
                        w('    aliases:')
                        for a in al: w('      - %s' % json.dumps(a))
                def deps():
                    if t['deps']:
                        if r.random() < .5: m['depsline'] = at('    deps: %s' % json.dumps(t['deps']))
                        else:
                            m['depsline'] = at('    deps:')
                            for d in t['deps']: w('      - %s' % json.dumps(d))
                def runs():
                    if not t['items']: return
                    w('    run:')
                    def item(k, v, ind):
                        if k == 'cmd': w(ind + '- cmd: probe dump %s' % v); m['ids'].append(v)
                        elif k == 'task':
                            if r.random() < .2: ln = at(ind + '- silent: true'); w(ind + '  task: %s' % json.dumps(v))
                            else: ln = at(ind + '- task: %s' % json.dumps(v))
                            m['refs'].append(dict(task=v, line=ln))
                        else:
                            w(ind + '- parallel:')
                            for a, b in v: item(a, b, ind + '    ')
                            if r.random() < .6: w(ind + '  ' + r.choice(['limit: 1', 'limit: 1', 'limit: 1', 'limit: 1', 'limit: 2', 'mode: grouped', 'mode: tabs', 'when: ""', 'color: false', 'silent: true', 'output: false', 'platforms: [linux]'] + (['platforms: [windows]', 'when: ${{ env.NOPE }}'] * 3 if gated else [])))
                        if gated and k != 'par' and r.random() < .3: w(ind + '  ' + r.choice(['platforms: [windows]', 'when: ${{ env.NOPE }}', 'when: ${{ env.HOME }}']))
                    for k, v in t['items']: item(k, v, '      ')
                def when():                # what may never run must be sound all the same
                    if gated and r.random() < .2: w('    when: ${{ env.NOPE }}')
                order = [desc, alias, deps, when, runs]
                if r.random() < .4: r.shuffle(order)
                for o in order: o()
                if not (t['desc'] or t['aliases'] or t['deps'] or t['items']): w('    desc: x'); m['desc'] = 'x'
                mt.append(m)
        for o in r.sample([incs, tasks], 2): o()
        texts[f['path']] = '\n'.join(L) + '\n'
        model.append(dict(path=f['path'], exists=True, tasks=mt, incs=[dict(ns=ns, file=q, line=inclines[ns]) for ns, q in f['incs']]))
    return texts, model

# ---------------------------------------------------------------- observation
RX = [('missing', re.compile(r'^(.*?):(\d+): task "(.*?)" not found')),
      ('conflict', re.compile(r'^(.*?):(\d+): alias "(.*?)" for task ".*?" conflicts with')),
      ('dupalias', re.compile(r'^(.*?):(\d+): alias "(.*?)" for task ".*?" already defined')),
      ('duptask', re.compile(r'^(.*?):(\d+): duplicate task "(.*?)"')),
      ('cycle', re.compile(r'^(.*?):(\d+): circular dependency: (.*)$')),
      ('inccycle', re.compile(r'^[^:]*: circular include: (.*)$')), ('clash', re.compile(r'^[^:]*: task name collision: (.*)$')), ('nofile', re.compile(r'^[^:]*: open (.*): no such file'))]
INC = re.compile(r'^([^:]*):(\d+): (?=[^:]*: (?:circular include|task name collision|open )|[^:]*:\d+: )')
def diags(err, cwd, base):
    out = []
    for l in ANSI.sub('', err).split('\n'):
        l = l.strip()
        if l.startswith('ERRO '): l = l[5:]
        elif not l: continue
        rel = lambda p: os.path.relpath(os.path.normpath(os.path.join(cwd, p)), base)
        places = []; rest = l
        while INC.match(rest):
            m = INC.match(rest); places.append([rel(m.group(1)), int(m.group(2))]); rest = rest[m.end():]
        for k, rx in RX[5:]:
            m = rx.match(rest)
            if m: out.append([k, places, 0, m.group(1).split(' → ') if k == 'inccycle' else rel(m.group(1)) if k == 'nofile' else m.group(1)]); break
        else: places = None
        if places is not None: continue
        for k, rx in RX[:5]:
            m = rx.search(l)
            if not m: continue
            out.append([k, rel(m.group(1)), int(m.group(2)), m.group(3).split(' → ') if k == 'cycle' else m.group(3)])
            break
        else: out.append(['other', '', 0, l])
    return out

def quick(bab, args, cwd, extra=None):
    """Run bab to the end; returns (code, stdout, stderr, ids of executed commands)."""
    s = Session(bab, args, cwd, env=extra)
    s.finish(30)
    if s.code is None: return -1, '', 'HANG', [d['id'] for d in s.dumps], s.dumps
    return s.code, s.out[1].decode('utf8', 'replace'), s.out[2].decode('utf8', 'replace'), [d['id'] for d in s.dumps], s.dumps

def parse_list(out):
    """Tree of --list: (full names of all nodes that may be tasks, aliases per node)."""
    stack, nodes = [], []
    for l in ANSI.sub('', out).split('\n'):
        if not l.strip(): continue
        depth = 0
        while l[:4] in ('│   ', '    ', '├── ', '└── '):
            mark = l[:4]; l = l[4:]; depth += 1
            if mark in ('├── ', '└── '): break
        m = re.match(r'^(\S+)(?: \(([^)]*)\))?(.*)$', l)
        stack = stack[:depth] + [m.group(1)]
        nodes.append((':'.join(stack), [a.strip() for a in m.group(2).split(',')] if m.group(2) else [], m.group(3).strip()))
    return nodes

def observe(bab, files, seed, which):
    r = random.Random(seed)
    texts, model = render_set(r, files, which == 0)
    d = os.path.realpath(newdir('l')); write_files(d, texts)
    cwd = d
    args = []
    z = r.random()
    if z < .25: args = [r.choice(['-b', '--babfile']), os.path.join(d, 'Babfile')]; cwd = os.path.realpath(scratch())
    elif z < .4:
        os.makedirs(os.path.join(d, 'e/f'), exist_ok=True); cwd = os.path.join(d, 'e/f')
    o = {}
    o['validate'], so, se, ids, _ = quick(bab, args + ['--validate'], cwd)
    stray = list(ids)
    m = re.search(r'tasks=(\d+)', se); o['count'] = int(m.group(1)) if m else -1
    o['diags'] = diags(se, cwd, d) if o['validate'] else []
    o['listcode'], so, _, ids, _ = quick(bab, args + ['--list'], cwd); stray += ids
    allnames = known_names(model)
    nodes = parse_list(so) if o['listcode'] == 0 else []
    # inner nodes that only group tasks carry neither aliases nor a description; they are told from tasks by name
    o['list'] = [n for n, a, dsc in nodes if n in allnames or a or dsc]
    o['listdesc'] = [[n, dsc] for n, a, dsc in nodes if n in allnames or a or dsc]
    o['listalias'] = [[n, x] for n, a, _ in nodes for x in a]
    _, so, _, ids, _ = quick(bab, ['__complete'] + args + [''], cwd); stray += ids
    comp = lambda so: [l.split('\t')[0] for l in so.split('\n') if l and not re.match(r'^:\d+$', l)]
    o['complete'] = comp(so)
    o['compdesc'] = [(l.split('\t', 1) + [''])[:2] for l in so.split('\n') if l and not re.match(r'^:\d+$', l)]
    al = sorted({a for x in model for t in x['tasks'] for a in t['aliases']})
    o['prefix'] = r.choice(['a', 'm', 'm:', 'b', 'q', 'bui', 'zzz'])
    _, so, _, ids, _ = quick(bab, ['__complete'] + args + [o['prefix']], cwd); stray += ids
    o['prefixed'] = comp(so)
    names = sorted(allnames)
    pick = r.sample(names, min(len(names), which)) + r.sample(al, min(len(al), which)) + [r.choice(['nope', 'A', 'm', 'a:', ':a', 'buil', 'm:', '', 'm:zz', 'n:q'])]
    if which: pick += ['m:' + a for a in r.sample(al, min(len(al), 1))] + ['m:' + a for a in r.sample(names, 1)]
    o['runs'] = []
    for x in pick:
        dry = r.random() < .12
        code, _, se, ids, _ = quick(bab, args + (['-n'] if dry else []) + [x], cwd)
        o['runs'].append(dict(name=x, code=code, ids=ids, dry=dry))
    shutil.rmtree(d, ignore_errors=True)
    return dict(fs=model, root='Babfile', obs=o, stray=stray), texts

def known_names(model):
    byp = {m['path']: m for m in model}
    def go(p, depth):
        if p not in byp or depth > 4: return set()
        return {t['name'] for t in byp[p]['tasks']} | {i['ns'] + ':' + x for i in byp[p]['incs'] for x in go(i['file'], depth + 1)}
    return go('Babfile', 0)

RELEVANT = {'C10': {'accept', 'count', 'list-status', 'complete', 'run-status', 'run-commands', 'stray'},
            'C12': {'list', 'list-aliases', 'list-desc', 'complete-desc', 'complete', 'complete-prefix', 'run-commands', 'run-status', 'count'},
            'C15': {'diagnostics'}}

def load_check(pid, n, defects, which):
    ck = Check(pid); build_probe(); bab = build_bab()
    sets = []
    for i in range(n):
        r = random.Random('%s/%d/%d' % (pid, SEED, i))
        sets.append((gen_set(r, defects if r.random() < .85 else 0), r.randrange(1 << 30)))
    _, obs = drive(lambda x: observe(bab, x[0], x[1], which if x[1] % 4 else 0), sets, 2 * NCPU)
    res, tot = judge_batch('LoadCheck', [o for o, _ in obs])
    runs = sum(len(o['obs']['runs']) + 4 for o, _ in obs)
    ck.add(states=tot[1], transitions=tot[0], traces_validated_against_impl=runs, babfile_sets=len(obs),
           rejected=sum(o['obs']['validate'] != 0 for o, _ in obs), diagnostics=sum(len(o['obs']['diags']) for o, _ in obs),
           diagnostic_kinds=sorted({d[0] for o, _ in obs for d in o['obs']['diags']}))
    for (o, texts), q in zip(obs, res):
        ck.sample(dict(files=texts, observed=o['obs']), 2)
        bad = set(q['bad']) | ({'stray'} if o['stray'] else set())
        if bad & RELEVANT[pid]:
            ck.violation('%s\nobserved %s\nspecified %s\n%s' % (sorted(bad), json.dumps(o['obs'])[:1500], json.dumps(q['want'])[:1500], '\n'.join('--- %s\n%s' % x for x in texts.items())[:1500]),
                         dict(files=texts, observed=o, bad=sorted(bad), want=q['want']))
    ck.assume.append('Babfile sets of up to four files with names from a small alphabet')
    return ck

def c10(): return load_check('C10', SIZE(300, 3000), 1.0, 2).finish()
def c12(): return load_check('C12', SIZE(180, 2000), .12, 6).finish()
def c15():
    import effchecks
    ck = load_check('C15', SIZE(200, 2500), 2.0, 0)
    # undefined variables found while running
    return effchecks.eff_check('C15', SIZE(130, 1500), dict(env=.3, dir=.2, undef=.07, rootglobals=1.0), nruns=4, ck=ck).finish()
