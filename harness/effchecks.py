"""C11, C18, C19, C20 (and the run-time part of C15): what commands see and show."""
from engine import *
from engchecks import SIZE
from drychecks import judge_batch
from loadchecks import ANSI

ENVN = ['A', 'B', 'C', 'D', 'FORCE_COLOR', 'NO_COLOR', 'LONG_NAME']
DIRS = ['d1', 'd1/d2', 'sub', 'sub/d1', 'sub/deep', 'sub/deep/d1', 'with space', 'data/x']

# ---------------------------------------------------------------- generation
class EGen:
    """opts: env, dir, so (silent/output), bad (missing directories), undef, fail, rootglobals"""
    def __init__(self, r, **o): self.r = r; self.o = o; self.n = 0; self.said = []
    def p(self, k, d=0.0): return self.r.random() < self.o.get(k, d)
    def id(self): self.n += 1; return 'i%d' % self.n
    def tri(self):
        return self.r.choice(['t', 'f']) if self.p('so') else ''
    def val(self, vis):
        r = self.r
        if self.p('undef'): return '${{ %s }}' % r.choice(['nope', 'xx', 'X'])
        if self.p('wild'):
            # values are handed on as they are, whatever they contain
            v = r.choice(['#', '# x', ' lead', 'trail ', 'a  b', 'a=b', '=', ':', 'k: v', '- x', '[1]', '{a}', '{{ x }}', '$$', '$$x', '$(echo no)', '`no`', 'q"q', '\\n', '\\', 'tab\there', 'two\nlines', '%d', '%', '~', '*', 'null', 'true', '0x1f', '1e3', 'é', '日本', '“', 'a;b', '!x', '&', '|', '>', '\x7f', 'A' * 300])
            return v if r.random() < .6 else v + '${{ env.A }}' + v
        vs = sorted(vis)
        c = ['v%d' % r.randint(0, 9), 'a b', '', '$A', '$${{ x }}', '${{ env.A }}', '${{ env.UNSET }}', 'é/ü', 'x=y', '${{ env.A }}-${{env.B}}']
        if vs: c += ['${{ %s }}' % r.choice(vs), '${{%s}}/${{  %s }}' % (r.choice(vs), r.choice(vs)), '<${{ %s }}>' % r.choice(vs)] * 2
        return r.choice(c)
    def arg(self, vis):
        r = self.r
        if self.p('undef'): return '${{ %s }}' % r.choice(['nope', 'xx', 'y.z'])
        vs = sorted(vis)
        return r.choice(['p', 'p q', '${{ env.A }}'] + (['${{ %s }}' % r.choice(vs), '<${{ %s }}|${{ %s }}>' % (r.choice(vs), r.choice(vs))] * 2 if vs else []))
    def env(self, vis, p=None):
        if not (self.p('env') if p is None else self.r.random() < p): return []
        return [[k, self.val(vis)] for k in self.r.sample(ENVN, self.r.randint(1, 3))]
    def dir(self, vis, home):
        r = self.r
        if not self.p('dir'): return ''
        if self.p('undef'): return '${{ nope }}'
        if self.p('bad'): return r.choice(['missing', 'd1/none', '../none', 'file.txt', '/nonexistent/x', 'd1/../none'])
        ex = [x for x in DIRS]
        tgt = r.choice(ex + [''])
        rel = os.path.relpath('/' + tgt, '/' + home)
        z = r.random()
        if z < .45: return rel
        if z < .6: return './' + rel + r.choice(['', '/'])
        if z < .7: return 'd1/../' + rel if home == '' else rel + '/.'
        if z < .85: return '${{ env.ROOT }}/' + tgt
        if 'dn' in vis: return rel + '/${{ dn }}'
        return rel
    def vars(self, vis, tag):
        out = []
        for v in ['x', 'y', 'z']:
            if self.r.random() < .4: out.append([v, self.r.choice([tag + v, tag + v, '%s+${{ env.B }}' % tag] + ['%s~${{ %s }}' % (tag, w) for w in sorted(vis - {v}) if w not in [o[0] for o in out]])])
        # avoid cycles within one scope: a definition only refers to outer variables or to earlier siblings
        names = {o[0] for o in out}
        fixed = []
        for k, v in out:
            m = re.findall(r'\$\{\{ (\w+) \}\}', v)
            seen = {f[0] for f in fixed}
            if any(w in names and w not in seen for w in m): v = tag + k
            fixed.append([k, v])
        if self.r.random() < .2: fixed.append(['dn', '.'])
        self.r.shuffle(fixed)
        return fixed
    def files(self):
        r = self.r
        nf = r.choice(self.o.get('nf', [1, 2, 2, 3]))
        paths = ['Babfile'] + r.sample(['inc.yml', 'sub/babfile.yml', 'sub/deep/x.yaml', 'data/b.yml'], nf - 1)
        fs = []
        parent = {}
        for i in range(1, nf): parent[i] = r.choice(range(i))
        vis = {}
        for i, p in enumerate(paths):
            up = vis.get(parent.get(i), set())
            g = not (i == 0 and not self.p('rootglobals', 1.0))
            gv = self.vars(up, 'g%d' % i) if g else []
            vis[i] = up | {k for k, _ in gv}
            home = os.path.dirname(p)
            f = dict(path=p, dir=home, vars=gv, env=self.env(vis[i], .7 if self.o.get('env', 0) > .2 else None) if g else [], gdir=self.dir(vis[i], home) if g else '',
                     silent=self.tri() if g else '', output=self.tri() if g else '', incs=[], tasks=[])
            f['_i'] = i
            fs.append(f)
        for i in range(1, nf): fs[parent[i]]['incs'].append(dict(ns=r.choice(['m', 'k', 'lib']) + str(i), file=paths[i]))
        # tasks; the first of every file is referenced by nobody, the others at most once
        for i in reversed(range(nf)):
            f = fs[i]; home = f['dir']
            names = ['a', 'b', 'c', 'd', 'e'][:r.randint(2, 5)]
            pool = []   # referencable tasks, full names from this file's point of view
            for inc in f['incs']:
                g = next(x for x in fs if x['path'] == inc['file'])
                pool += [inc['ns'] + ':' + x for x in g['_free']]
            tasks = {}
            for n in reversed(names):
                v0 = vis[i]
                tv = self.vars(v0, 't%d%s' % (i, n))
                vv = v0 | {k for k, _ in tv}
                when = r.choice([''] * 8 + ['${{ env.A }}', "${{ env.UNSET }}", "${{ env.UNSET }} == ''"] + (["${{ %s }} != 'q'" % r.choice(sorted(vv))] if vv else []))
                if when and self.p('undef'): when = '${{ nope }}'
                t = dict(name=n, line=0, dir=self.dir(vv, home) if r.random() < .6 else '', env=self.env(vv), vars=tv, silent=self.tri(), output=self.tri(), when=when, deps=[], run=[])
                def take():
                    if not pool: return None
                    return pool.pop(r.randrange(len(pool)))
                def item(inpar):
                    z = r.random()
                    w = r.choice([''] * 10 + ['${{ env.UNSET }}', "'${{ env.A }}' != ''", "${{ env.B }} == 'x'"])
                    if w and self.p('undef'): w = '${{ nope }} == \'1\''
                    base = dict(line=0, when=w, label=(r.choice(['L1', 'lab el', 'ü', 'x']) + str(self.n) if inpar and r.random() < .6 else ''), silent='', output='')
                    if z < (.5 if not inpar else .35):
                        d = take()
                        if d: return dict(base, k='task', task=d, silent=self.tri(), output=self.tri())
                    if z > self.o.get('logs', .9):
                        l = self.id()
                        w = (lambda: r.choice(['%d', '%s %!', '100%', ' a=b', ' "q"', " it's", '  two  blanks', '{{ x }}', '$(no)', '`no`', ' n', '|', ' # c', 'é日本', ' k: v', ' <b>', ' *', '~', '  '])) if self.p('wild') else lambda: ''
                        text = '%slog%s %s.%s%s' % (w() if r.random() < .2 and self.p('wild') else '', l, self.arg(vv), w(), r.choice(['\n.log%s%s' % (l, self.arg(vv)), '\n.log%s%s' % (l, self.arg(vv)), '\n', '\n\n', '\n\n.log' + l, '\n.log%s\n' % l]) if r.random() < .2 else '')
                        if self.said and r.random() < .25: text = r.choice(self.said[-2:])      # the very same message again
                        elif '${{' not in text: self.said.append(text)
                        return dict(base, k='log', text=text, level=r.choice(['', '', 'info', 'debug', 'warn', 'error']))
                    id = self.id(); code = 3 if self.p('fail') else 0
                    a = self.arg(vv)
                    return dict(base, k='cmd', id=id, arg=a, code=code, dir=self.dir(vv, home) if r.random() < .5 else '', env=self.env(vv), silent=self.tri(), output=self.tri(),
                                cmd="probe dump %s '%s'; echo OUT:%s; echo ERR:%s >&2%s" % (id, a, id, id, '; exit 3' if code else ''))
                for _ in range(r.choice([0, 0, 0, 1, 2])):
                    d = take()
                    if d: t['deps'].append(d)
                for _ in range(0 if t['deps'] and r.random() < .2 else r.choice([1, 2, 3, 4]) if n != 'a' or r.random() < .9 else 1):
                    z = r.random()
                    if z < .3:
                        its = [item(True) for _ in range(r.randint(1, 3))]
                        b = dict(k='par', items=its, silent=self.tri(), output=self.tri(), color=r.choice(['', '', 't', 'f']), line=0,
                                 when='' if r.random() < .8 else "${{ nope }}" if self.p('undef') else r.choice(['${{ env.UNSET }}', "${{ env.A }} != 'q'", "${{ env.B }} == 'x'"]), label='', limit=r.choice([0, 0, 1, 2]), mode=r.choice(['', '', 'grouped', 'tabs', 'interleaved']))
                        t['run'].append(b)
                    elif z < .38 and self.o.get('prompt', 1):
                        v = 'q%d' % self.n
                        t['run'].append(dict(k='prompt', var=v, ans='w' + self.arg(vv), when='', line=0)); vv = vv | {v}
                    else: t['run'].append(item(False))
                if n == 'a' and r.random() < .4:
                    full = sorted({x for tt in tasks.values() for x in [tt['name']]})
                    if full: t['run'].append(dict(k='task', task=r.choice(full), silent=self.tri(), output=self.tri(), when='', line=0, label=''))
                tasks[n] = t
                if n != 'a': pool.append(n)
            f['_free'] = [x for x in pool]
            f['tasks'] = [tasks[n] for n in names]
        # names still free in the root are never referenced: they are entry points too
        return fs

# ---------------------------------------------------------------- rendering
TRI = {'t': True, 'f': False}
def opt(y, x, *ks):
    for k in ks:
        if x.get(k): y[k] = TRI[x[k]] if k in ('silent', 'output', 'color') else x[k]
    return y
def item_map(it):
    y = {}
    if it['k'] == 'cmd':
        y['cmd'] = it['cmd']; opt(y, it, 'dir', 'silent', 'output', 'when', 'label')
        if it['env']: y['env'] = dict(map(tuple, it['env']))
    elif it['k'] == 'task': y['task'] = it['task']; opt(y, it, 'silent', 'output', 'when', 'label')
    elif it['k'] == 'log': y['log'] = it['text']; opt(y, it, 'when', 'label', 'level')
    elif it['k'] == 'prompt': y.update(prompt=it['var'], type='input', message='m', default=it['ans'])
    return y
J = lambda x: json.dumps(x, ensure_ascii=False).replace('\x7f', '\\u007f')
def render_file(r, f):
    L = []
    def at(s): L.append(s); return len(L)
    for k in ('vars', 'env'):
        if f[k]:
            at(k + ':')
            for a, b in f[k]: at('  %s: %s' % (a, J(b)))
    if f['gdir']: at('dir: %s' % J(f['gdir']))
    for k in ('silent', 'output'):
        if f[k]: at('%s: %s' % (k, J(TRI[f[k]])))
    if f['incs']:
        at('includes:')
        for i in f['incs']: at('  %s: {"babfile": %s}' % (i['ns'], J(os.path.relpath('/' + i['file'], '/' + f['dir']))))
    at('tasks:')
    for t in f['tasks']:
        t['line'] = at('  %s:' % t['name'])
        for k in ('dir', 'when'):
            if t[k]: at('    %s: %s' % (k, J(t[k])))
        for k in ('silent', 'output'):
            if t[k]: at('    %s: %s' % (k, J(TRI[t[k]])))
        for k in ('vars', 'env'):
            if t[k]: at('    %s: %s' % (k, J(dict(map(tuple, t[k])))))
        if t['deps']: at('    deps: ' + J(t['deps']))
        if t['run']:
            at('    run:')
            for it in t['run']:
                if it['k'] == 'par':
                    first = r.choice(['parallel', 'parallel', 'when', 'color'])
                    if first != 'parallel' and it[first]: it['line'] = at('      - %s: %s' % (first, J(TRI[it[first]] if first == 'color' else it[first]))); at('        parallel:')
                    else: first = 'parallel'; it['line'] = at('      - parallel:')
                    for x in it['items']: x['line'] = at('          - ' + J(item_map(x)))
                    if it['when'] and first != 'when': at('        when: ' + J(it['when']))
                    for k in ('silent', 'output', 'color'):
                        if it[k] and k != first: at('        %s: %s' % (k, J(TRI[it[k]])))
                    if it['mode']: at('        mode: ' + it['mode'])
                    if it['limit']: at('        limit: %d' % it['limit'])
                else: it['line'] = at('      - ' + J(item_map(it)))
    return '\n'.join(L) + '\n'

# ---------------------------------------------------------------- observation
SKIPENV = {'PWD', 'OLDPWD', 'SHLVL', '_'}
LAB = re.compile(r'^\[([^\]]*?) *\] ')
def parse_lines(out, err, base, cwd):
    lines, diags, odd = [], [], []
    for s, t in (('out', out), ('err', err)):
        t = ANSI.sub('', t)
        for l in (t[:-1] if t.endswith('\n') else t).split('\n') if t else []:
            lab = []; raw = l
            while True:
                m = LAB.match(l)
                if not m: break
                lab.append(m.group(1)); l = l[m.end():]
            if l.startswith('● Running '): l = 'RUN ' + l[10:]
            elif l.startswith('▶ '): l = 'DEP ' + l[2:]
            elif re.match(r'(DEBU|INFO|WARN|ERRO) .{0,14}logi\d', l) and not lab: l = {'DEBU': 'DEBUG', 'ERRO': 'ERROR'}.get(l[:4], l[:4]) + l[4:]
            elif l.startswith('DEBU ') and not lab: continue        # what --verbose adds
            elif l.startswith('ERRO ') and not lab:
                m = re.match(r'^ERRO (?:.*?: )??((?:[^:]*?))(?::(\d+))?: undefined variable: (\S+)', l)
                if m:
                    p = m.group(1)
                    p = os.path.relpath(os.path.normpath(os.path.join(cwd, p)), base)
                    diags.append(['undef', p, int(m.group(2) or 0), m.group(3)])
                else: diags.append(['other', '', 0, l])
                continue
            lines.append(dict(s=s, lab=lab, text=l))
    return lines, diags
def obs_run(bab, root, name, base, cwd, args, env, live=False):
    s = Session(bab, args, cwd, env=env, pty=live)
    s.finish(30)
    out, err = s.out[1].decode('utf8', 'replace'), s.out[2].decode('utf8', 'replace')
    cmds = [dict(id=d['id'], arg=d['args'][0] if d['args'] else '', cwd=d['cwd'],
                 env=[e.split('=', 1) for e in d['env'] if e.split('=', 1)[0] not in SKIPENV | {'BABP_SOCK'}]) for d in s.dumps]
    view = '\x1b[?25l' in out if live else False
    lines, diags = ([], []) if live else parse_lines(out, err, base, cwd)
    return dict(root=root, name=name, verbose='-v' in args, code=s.code if s.code is not None else -1, cmds=cmds, lines=lines, diags=diags, live=live, view=view), out + err

def observe(bab, gen, seed, pairs=False, nruns=3):
    r = random.Random(seed)
    fs = gen.files()
    base = os.path.realpath(newdir('e'))
    for d in DIRS: os.makedirs(os.path.join(base, d), exist_ok=True)
    write_files(base, {'file.txt': 'x'})
    texts = {f['path']: render_file(r, f) for f in fs}
    write_files(base, texts)
    env = {'ROOT': base}
    for k in ['A', 'B', 'C']:
        if r.random() < .7: env[k] = r.choice(['os' + k, 'x', ''])
    if r.random() < .15: env['NO_COLOR'] = '1'
    if r.random() < .15: env['FORCE_COLOR'] = '0'
    dirs = {base} | {os.path.join(base, d) for d, _, _ in os.walk(base)}
    runs, ps, outs = [], [], []
    def go(root, name, live=False, verbose=None):
        z = r.random()
        path = os.path.join(base, root)
        if z < .3 and root in ('Babfile', 'sub/babfile.yml'): cwd = os.path.dirname(path); args = []
        elif z < .45 and root == 'Babfile': cwd = os.path.join(base, 'd1/d2'); args = []
        else:
            cwd = r.choice([base, os.path.join(base, 'data/x'), os.path.realpath(scratch())]); args = ['-b', r.choice([path, os.path.relpath(path, cwd)])]
        if r.random() < gen.o.get('verbose', .1) if verbose is None else verbose: args = r.choice([args + ['-v'], ['-v'] + args])
        o, out = obs_run(bab, root, name, base, cwd, args + [name], env, live)
        runs.append(o); outs.append(out)
        return len(runs)
    root = fs[0]
    byp = {f['path']: f for f in fs}
    def alln(p, pre=''):
        f = byp[p]
        return [(pre + t['name'], p, pre) for t in f['tasks']] + [x for i in f['incs'] for x in alln(i['file'], pre + i['ns'] + ':')]
    names = alln('Babfile')
    if pairs:
        for inc in root['incs']:
            cand = alln(inc['file'])
            for n, _, _ in r.sample(cand, min(len(cand), nruns)):
                live = not gen.o.get('prompt', 1) and r.random() < .4
                vb = r.random() < .15; i = go('Babfile', inc['ns'] + ':' + n, live, vb); a = go(inc['file'], n, live, vb)
                ps.append(dict(inc=i, alone=a, ns=inc['ns']))
    else:
        first = [n for n in names if n[0].split(':')[-1] == 'a']
        pick = r.sample(first, min(len(first), nruns)) + r.sample(names, min(len(names), 1))
        for n, p, pre in pick:
            if r.random() < .25 and p != 'Babfile': go(p, n[len(pre):])
            else: go('Babfile', n)
    model = [{k: v for k, v in f.items() if not k.startswith('_')} for f in fs]
    benv = base_env(); benv.update(env)
    shutil.rmtree(base, ignore_errors=True)
    return dict(fs=model, base=base, env=[[k, v] for k, v in benv.items()], dirs=sorted(dirs), runs=runs, pairs=ps), texts, outs

REL = {'C11': {'alone-exit', 'alone-commands', 'alone-lines', 'alone-view', 'specification'},
       'C18': {'env'}, 'C19': {'cwd', 'dirrun'}, 'C20': {'cmdline', 'output', 'header', 'hidden', 'twice'}, 'C15': {'diag'}, 'C30': {'log'}}
def eff_check(pid, n, opts, pairs=False, nruns=3, ck=None):
    ck = ck or Check(pid); build_probe(); bab = build_bab()
    def one(i):
        r = random.Random('%s/%d/%d' % (pid, SEED, i))
        o = dict(opts)
        if pairs and i % 2: o['prompt'] = 0
        for k in ('undef', 'bad', 'fail', 'wild'):
            if k in o and r.random() < .5: o[k] = 0
        return observe(bab, EGen(r, **o), r.randrange(1 << 30), pairs, nruns)
    _, obs = drive(one, range(n), 2 * NCPU)
    res, tot = judge_batch('EffectsCheck', [o for o, _, _ in obs])
    ck.add(states=tot[1], transitions=tot[0], traces_validated_against_impl=sum(len(o['runs']) for o, _, _ in obs), babfile_sets=len(obs),
           commands=sum(len(x['cmds']) for o, _, _ in obs for x in o['runs']), lines=sum(len(x['lines']) for o, _, _ in obs for x in o['runs']),
           pairs=sum(len(o['pairs']) for o, _, _ in obs), failed_runs=sum(x['code'] != 0 for o, _, _ in obs for x in o['runs']),
           diagnostics=sum(len(x['diags']) for o, _, _ in obs for x in o['runs']))
    for (o, texts, outs), q in zip(obs, res):
        ck.sample(dict(files=texts, runs=[dict(name=x['name'], root=x['root'], code=x['code'], lines=x['lines'][:6]) for x in o['runs'][:1]]), 2)
        bad = set(q['bad'])
        # which commands run at all is this property's business where a directory or a hidden failure decides it
        if {'executed', 'exit'} & bad:
            if opts.get('bad'): bad.add('dirrun')
            if opts.get('fail'): bad.add('hidden')
        if bad & REL[pid]:
            w = next((x for x in (q['want'][0] if q['want'] else []) if x['bad']), None)
            k = next((k for k, x in enumerate(q['want'][0]) if x['bad']), 0) if q['want'] else 0
            ck.violation('%s\nrun %s of %s, exit %s\n%s\nspecified %s\n%s' % (sorted(bad), o['runs'][k]['name'], o['runs'][k]['root'], o['runs'][k]['code'], outs[k][:1200], json.dumps(w)[:1500],
                         '\n'.join('--- %s\n%s' % x for x in texts.items())[:2500]), dict(files=texts, observed=o, bad=sorted(bad), want=q['want']))
    ck.assume.append('each task is reachable once from concurrent items, so that one run has one outcome; file trees of depth at most three')
    return ck

def c11(): return eff_check('C11', SIZE(150, 1500), dict(env=.4, dir=.4, so=.3, bad=.03, fail=.03, undef=.02, rootglobals=0.0, nf=[2, 2, 3, 3, 4]), pairs=True, nruns=3).finish()
def c18(): return eff_check('C18', SIZE(170, 1800), dict(env=.6, dir=.1, so=.15, rootglobals=1.0, wild=.2), nruns=3).finish()
def c19(): return eff_check('C19', SIZE(170, 1800), dict(env=.05, dir=.6, so=.05, bad=.08, rootglobals=1.0), nruns=3).finish()
def c30(): return eff_check('C30', SIZE(150, 1500), dict(env=.05, dir=.05, so=.35, fail=.04, wild=.4, logs=.5, verbose=.35, rootglobals=1.0), nruns=3).finish()
def c20(): return eff_check('C20', SIZE(170, 1800), dict(env=.05, dir=.05, so=.45, fail=.04, rootglobals=1.0), nruns=3).finish()
