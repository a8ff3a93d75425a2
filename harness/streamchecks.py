"""C29: the standard streams of commands, recorded histories against Streams.tla."""
from engine import *
from engchecks import SIZE
from drychecks import judge_batch

def gen(r):
    """A Babfile whose tasks are reached either outside parallel blocks (s..) or only from them (p..)."""
    cmds = {}; n = [0]
    def cmd(par):
        n[0] += 1; id = 'c%d' % n[0]
        out = r.choice([None, None, True, False])
        cmds[id] = dict(par=par, shown=out is not False)
        it = {'cmd': 'probe run %s v' % id}
        if out is not None: it['output'] = out
        if par: it['label'] = id
        return it
    S = ['s1', 's2', 's3'][:r.randint(0, 3)]; P = ['p1', 'p2', 'p3'][:r.randint(0, 3)]
    def block(ps):
        b = {'parallel': [{'task': r.choice(ps)} if ps and r.random() < .4 else cmd(True) for _ in range(r.randint(1, 3))]}
        if r.random() < .4: b['limit'] = r.randint(1, 2)
        if r.random() < .4: b['mode'] = r.choice(['interleaved', 'grouped', 'tabs'])
        return b
    def seq(ss, ps):
        out = []
        for _ in range(r.randint(1, 4)):
            z = r.random()
            if z < .2 and ss: out.append({'task': r.choice(ss)})
            elif z < .35: out.append(block(ps))
            elif z < .45: out.append({'prompt': 'v', 'type': 'input', 'message': 'm', 'default': 'd'})
            else: out.append(cmd(False))
        return out
    def par(ps):
        return [block(ps) if r.random() < .2 else {'task': r.choice(ps)} if ps and r.random() < .2 else cmd(True) for _ in range(r.randint(1, 2))]
    tasks = {'a': {'run': seq(S, P) + [cmd(False)], 'desc': 'd'}}
    if S and r.random() < .4: tasks['a']['deps'] = [r.choice(S)]
    for k, x in enumerate(S):
        tasks[x] = {'run': seq(S[k + 1:], P)}
        if S[k + 1:] and r.random() < .3: tasks[x]['deps'] = [r.choice(S[k + 1:])]
    for k, x in enumerate(P): tasks[x] = {'run': par(P[k + 1:])}
    silent = r.random() < .6
    y = {'tasks': tasks}
    if silent: y['silent'] = True
    return dict(y=y, cmds=cmds, silent=silent, kind=r.choice(['pipe', 'pipe', 'pipe', 'file', 'null']))

def blob(r, n=None):
    n = n or r.choice([1, 2, 3, 7, 20, 60, 200])
    z = r.random()
    if z < .3: return bytes(r.randrange(256) for _ in range(n))
    return b''.join(r.choice([b'line\n', b'x', b'\n', b'\r', b'\x1b[31m', b'\xc3\xa9', b'ab c', b'\x00', b'\r\n', b'\xff', b'[c1] ']) for _ in range(n))[:n]

def run(bab, c, seed):
    r = random.Random(seed); d = newdir('s'); write_files(d, {'Babfile': c['y']})
    inp = b''; rd = wr = None
    if c['kind'] == 'pipe':
        rd, wr = os.pipe(); os.set_blocking(wr, False)
        inp = blob(r) if r.random() < .6 else b''
        if inp: os.write(wr, inp)
    elif c['kind'] == 'file':
        inp = blob(r, r.choice([1, 10, 400])); f = os.path.join(d, 'in')
        with open(f, 'wb') as h: h.write(inp)
        rd = os.open(f, os.O_RDONLY)
    args = (['--verbose'] if not c['silent'] and r.random() < .2 else []) + ['a']
    s = Session(bab, args, d, stdin=rd)
    ev = s.ev; left = len(inp); opn = wr is not None; was = opn
    deadline = time.time() + 40; quiet = time.time()
    while s.code is None and time.time() < deadline:
        s.pump(.02); o = s.outstanding()
        if not o:
            if time.time() - quiet > 12: break
            continue
        k = r.choice(o); me = c['cmds'][k.id]; z = r.random(); quiet = time.time()
        if z < .3: s.release(k, 0)
        elif z < .55 and not me['par']:
            b = blob(r); fd = r.choice([1, 1, 2]); s.log(e='write', id=k.id, fd=fd, d=list(b)); s.write(k, fd, b)
        elif z < .85 and me['shown'] and (me['par'] or left or not opn):
            n = r.choice([1, 2, 5, 50, 512]); b = s.read_in(k, n)
            if b is None: s.log(e='stuck', id=k.id, n=n); break
            s.log(e='read', id=k.id, n=n, d=list(b)); left -= len(b)
        elif z < .93 and opn:
            b = blob(r); os.write(wr, b); s.log(e='feed', d=list(b)); left += len(b)
        elif z < .95 and opn: os.close(wr); wr = None; opn = False; s.log(e='close')
    s.finish(10)
    if wr is not None: os.close(wr)
    rest = b''
    if rd is not None:
        while True:
            b = os.read(rd, 65536)
            if not b: break
            rest += b
        os.close(rd)
    shutil.rmtree(d, ignore_errors=True)
    out = [s.out[1], s.out[2]]
    code = next((e['code'] for e in ev if e['e'] == 'exit'), None)
    hist = [e for e in ev if e['e'] in ('start', 'end', 'read', 'write', 'feed', 'close', 'stuck', 'kill')]
    for e in hist: e.pop('val', None); e.pop('code', None)
    return dict(inp=list(inp), open=was, cmds=c['cmds'], ev=hist, rest=list(rest), out=[list(out[0]), list(out[1])], exact=[1, 2] if c['silent'] else [1]), code

def terminal(ck, bab):
    """A command outside parallel blocks reads what is typed."""
    d = newdir('t'); write_files(d, {'Babfile': {'silent': True, 'tasks': {'a': {'run': [{'cmd': 'probe run c1 v'}]}}}})
    s = Session(bab, ['a'], d, pty=True, merge=True)
    end = time.time() + 10
    while not s.outstanding() and s.code is None and time.time() < end: s.pump(.1)
    s.keys(b'word\n'); b = None
    if s.outstanding():
        b = s.read_in(s.outstanding()[0], 50)
        if b is None: s.log(e='stuck', id='c1', n=50)
        else: s.log(e='read', id='c1', n=50, d=list(b)); s.release(s.outstanding()[0], 0)
    s.finish(5)
    ev = [{k: v for k, v in e.items() if k not in ('val', 'code')} for e in s.ev if e['e'] in ('start', 'end', 'read', 'stuck', 'kill')]
    return dict(inp=list(b'word\n'), open=True, cmds=dict(c1=dict(par=False, shown=True)), ev=ev, rest=[], out=[[], []], exact=[])

def c29():
    ck = Check('C29'); build_probe(); bab = build_bab()
    cases = [gen(random.Random('C29/%d/%d' % (SEED, i))) for i in range(SIZE(300, 3000))]
    ex = ThreadPoolExecutor(1)
    fut = ex.submit(lambda: tlc('StreamsMC', cfg=open(os.path.join(VERIF, 'spec/StreamsMC.cfg')).read().replace('= 6', '= %d' % SIZE(5, 6)), workers=2))
    done, obs = drive(lambda x: run(bab, x[1], x[0]), list(enumerate(cases)), 2 * NCPU, bad=lambda o: o[1] is None)
    t = terminal(ck, bab)
    res, tot = judge_batch('StreamsCheck', [o for o, _ in obs] + [t])
    n = dict(read=0, write=0, feed=0)
    for i, ((o, code), q) in enumerate(zip(obs, res)):
        for e in o['ev']:
            if e['e'] in n: n[e['e']] += 1
        c = done[i][1]
        ck.sample(dict(babfile=c['y'], history=o['ev'][:12]), 2)
        what = ''
        if q['bad']: what = 'differs in %s%s\n specified: %s\n observed: rest %s, stdout %r, stderr %r' % (', '.join(q['bad']), ', impossible event %s' % o['ev'][q['at'] - 1] if q['at'] else '', q['want'], bytes(o['rest']), bytes(o['out'][0]), bytes(o['out'][1])[:600])
        elif code is None: what = 'bab does not end'
        elif code != 0: what = 'exit status %s although no command failed' % code
        if what: ck.violation(what + '\n' + json.dumps(c['y']), dict(case=c, entry=o))
    if res[-1]['bad']: ck.violation('a command reading its standard input from a terminal is stopped: %s' % t['ev'], dict(terminal=True, entry=t))
    rc, out = fut.result(); g, dist = tlc_stats(out)
    ck.add(states=dist, transitions=g, traces_validated_against_impl=len(obs) + 1, reads=n['read'], writes=n['write'], feeds=n['feed'])
    ck.assume += ['what commands in parallel blocks write is judged by C22 and C23', 'the input of a command whose output is hidden is not specified']
    return ck.finish()

CHECKS = {'C29': c29}
