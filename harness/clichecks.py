"""C33: what an invocation does is what its command line says."""
from engine import *
from engchecks import SIZE
from drychecks import judge_batch
import subprocess

NAMES = ['t', 'u', 'help', 'list', 'completion', 'version', 'run', '-n', '-x', 'ns:t', '__x', 'true']
def gen(r):
    """Files, and a line of words."""
    world = []
    for p in ['babfile.yml', 'other.yml', 'sub dir/B.yml', 'bad.yml']:
        if p == 'babfile.yml' and r.random() < .12: continue
        ts = {n: '%s%d' % ('abcd'[len(world)], k) for k, n in enumerate(r.sample(NAMES, r.randint(1, 6)))}
        ok = p != 'bad.yml' and r.random() < .95
        al = {t: 'w%d' % k for k, t in enumerate(ts) if r.random() < .3}
        world.append(dict(path=p, ok=ok, ts=ts, al=al, tasks=[[t, i] for t, i in ts.items()] + [[a, ts[t]] for t, a in al.items()]))
    names = [n for f in world for n, _ in f['tasks']]; files = [f['path'] for f in world] + ['none.yml', '', './other.yml']
    files.remove('./other.yml')
    w = []
    yes = lambda: r.choice(['true', 'false', '1', '0', 'T', 'f', 'TRUE', 'False', '', 'yes', 'no', 'on', '2'])
    for _ in range(r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6])):
        z = r.random(); f = r.choice(files)
        if z < .34: w.append(r.choice(names) if r.random() < .8 else r.choice(['nope', '', '', '', '-', 'a b', 'T', 't ', 'help', '=', 'true']))
        elif z < .42: w += [r.choice(['-b', '--babfile']), f]
        elif z < .5: w.append(r.choice(['-b', '-b=', '--babfile=']) + f)
        elif z < .6: w.append(r.choice(['-n', '--dry-run', '-n', '--dry-run', '--dry-run=' + yes(), '-n=' + yes()]))
        elif z < .7: w.append(r.choice(['-v', '--verbose', '-v', '--verbose=' + yes(), '-v=' + yes(), '-vv']))
        elif z < .76: w.append(r.choice(['-l', '--list', '--list=' + yes(), '-l=' + yes()]))
        elif z < .8: w.append(r.choice(['--validate', '--validate', '--validate=' + yes()]))
        elif z < .85: w += r.choice([['-c', 'bash'], ['-czsh'], ['-c=fish'], ['--completion', 'powershell'], ['--completion=bash'], ['--completion='], ['--completion=tcsh'], ['-c', 'Bash'], ['-c']])
        elif z < .89: w.append(r.choice(['-h', '--help', '--version', '--help=' + yes(), '--version=' + yes()]))
        elif z < .94: w.append(r.choice(['-nv', '-vn', '-nl', '-nvb', '-nb' + f, '-vb=' + f, '-nh', '-ln=false', '-nn', '-vx', '-nc', '-lcbash']))
        elif z < .97: w.append('--')
        else: w.append(r.choice(['--no-such', '-x', '-V', '--verb', '--dryrun', '---n', '--=', '-=', '-n=', '--List', '--babfile', '-b', '--dry_run', '-?', '--no-dry-run']))
    if r.random() < .04: w = ['', r.choice(names)] + w
    return world, w

HEADS = [('# bash completion', 'bash'), ('#compdef', 'zsh'), ('# fish completion', 'fish'), ('# powershell completion', 'powershell')]
def observe(bab, seed):
    r = random.Random(seed); world, words = gen(r)
    d = newdir('cl'); files = {}
    for f in world:
        files[f['path']] = dict(tasks={t: dict(desc='says ' + i, run=[dict(cmd='echo "%s" >> "$LOG"' % i)], **(dict(alias=f['al'][t]) if t in f['al'] else {})) for t, i in f['ts'].items()})
        if not f['ok']: files[f['path']]['tasks'][r.choice(NAMES)] = dict(run=[dict(task='nowhere')])
    write_files(d, files); log = os.path.join(scratch(), 'log-' + os.path.basename(d)); open(log, 'w').close()
    q = subprocess.run([bab] + words, cwd=d, env=base_env(LOG=log), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, start_new_session=True)
    out, err = q.stdout.decode('utf8', 'replace'), re.sub(r'\x1b\[[0-9;]*m', '', q.stderr.decode('utf8', 'replace'))
    ran = open(log).read().split('\n')[:-1]; os.remove(log)
    named = sorted(set(re.findall(r'echo \\?"(\w\d+)', err)))
    said = sorted(set(re.findall(r'says (\w)\d+', out)))
    what = ''
    if 'Usage:' in out and '--dry-run' in out: what = 'help'
    elif re.match(r'bab version ', out): what = 'version'
    elif any(out.startswith(h) for h, _ in HEADS): what = next(n for h, n in HEADS if out.startswith(h))
    elif said: what = 'list ' + ' '.join(world['abcd'.index(k)]['path'] for k in said)
    elif out.strip(): what = 'other: ' + out[:200]
    m = re.search(r'^INFO Babfile is valid tasks=(\d+)$', err, re.M)
    if m: what += 'valid '
    left = sorted(os.path.relpath(os.path.join(a, x), d) for a, _, c in os.walk(d) for x in c)
    if left != sorted(files): what += 'files ' + ' '.join(left)
    shutil.rmtree(d, ignore_errors=True)
    o = dict(world=[{k: f[k] for k in ('path', 'ok', 'tasks')} for f in world], words=words, code=q.returncode, out=what, ran=ran, named=named, debug='DEBU ' in err, errors='ERRO ' in err)
    if what == 'valid ':         # which file was validated: its number of tasks, as far as that tells
        may = [f['path'] for f in world if f['ok'] and len(f['ts']) == int(m.group(1))]
        o['may'] = may
    return o, out[-600:], err[-1200:]

def c33():
    ck = Check('C33'); bab = build_bab()
    seeds = ['C33/%d/%d' % (SEED, i) for i in range(SIZE(1500, 30000))]
    mc = threading.Thread(target=lambda: mcout.append(tlc('CliMC', workers=3, heap='2500m')[1])); mcout = []; mc.start()
    _, obs = drive(lambda s: observe(bab, s), seeds)
    flatobs = []
    for o, _, _ in obs:           # a validation names no file: it is taken for any file with that many tasks
        flatobs.append([dict({k: v for k, v in o.items() if k != 'may'}, out=o['out'] + p) for p in o['may']] if o.get('may') else [{k: v for k, v in o.items() if k != 'may'}])
    entries = [e for es in flatobs for e in es]
    res, tot = judge_batch('CliCheck', entries); mc.join()
    if not mcout: raise CheckError('CliMC did not finish')
    a, b = tlc_stats(mcout[0]); ck.add(design_states=b, design_transitions=a)
    it = iter(res); modes = {}
    ck.add(states=tot[1], transitions=tot[0], traces_validated_against_impl=len(obs))
    for (o, out, err), es in zip(obs, flatobs):
        qs = [next(it) for _ in es]; best = min(qs, key=lambda q: len(q['bad']))
        for m in best['modes']: modes[m] = modes.get(m, 0) + 1
        ck.sample(dict(words=o['words'], out=o['out'], ran=o['ran'], code=o['code']), 4)
        if best['bad']: ck.violation('bab %s: %s\nobserved %s\nspecified %s\n%s\n%s' % (o['words'], sorted(best['bad']), {k: o[k] for k in ('code', 'out', 'ran', 'named', 'debug', 'errors')}, best['want'], out, err), dict(observed=o))
    ck.add(**{'mode_' + k: v for k, v in modes.items()})
    return ck.finish()
