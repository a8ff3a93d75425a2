"""C22, C23: the output of parallel blocks."""
import codecs
from engine import *
from engine import _lk2
from engchecks import SIZE
from drychecks import judge_batch

# ---------------------------------------------------------------- texts
TXT = ['a', 'b', 'word', ' ', '  ', 'é', '日本', '✓', '😀', '[L1] x', '[', ']', '|', '50%', 'm', '1;31m', '\t', '\u00a0', '\\', 'e\u0301', '\u200d', '0', 'ÿ', '\u0153']
SGR = ['\x1b[31m', '\x1b[m', '\x1b[0m', '\x1b[1;38;5;200m', '\x1b[38:2::1:2:3m', '\x1b[;m', '\x1b[4:3m', '\x1b[48;2;1;2;3m']
OTHER = ['\x1b[2J', '\x1b[H', '\x1b[10;20H', '\x1b[K', '\x1b[1A', '\x1b[?25l', '\x1b[?1049h', '\x1b[>4;2m', '\x1b[?4m', '\x1b[>0m', '\x1b[0 m', '\x1b[1 q', '\x1b[!p', '\x1b[6n', '\x1b[c', '\x1b[<u', '\x1b[=1u', '\x1b[31M', '\x1b[20`', '\x1b[1~', '\x1b[s', '\x1b[t', "\x1b['{",
         '\x1b]0;title\x07', '\x1b]0;ti✓tle\x07', '\x1b]8;;http://x/\x1b\\', '\x1b]52;c;YQ==\x07', '\x1b]1337;a=b\x1b\\', '\x1b]0;\x1b\\',
         '\x1bP1$r0m\x1b\\', '\x1bPq#0\x07;x\x1b\\', '\x1b_Gx=1;é✓\x1b\\', '\x1b^pm\x1b\\', '\x1bXsos\x1b\\',
         '\x1bc', '\x1b7', '\x1b8', '\x1b=', '\x1b>', '\x1b(0', '\x1b(B', '\x1b#8', '\x1bM', '\x1bD', '\x1bE', '\x1b%G', '\x1b F', '\x1bZ', '\x1b\\', '\x1bN', '\x1b~']
CTL = ['\x00', '\x01', '\x05', '\x07', '\x08', '\x08\x08', '\x0b', '\x0c', '\x0e', '\x0f', '\x11', '\x13', '\x18', '\x1a', '\x1c', '\x1f', '\x7f', '\u0080', '\u0084', '\u0085', '\u008d', '\u0090', '\u009b', '\u009b31m', '\u009b2J', '\u009d', '\u009f']
CUT = ['\x1b', '\x1b[', '\x1b[3', '\x1b[3;', '\x1b[?', '\x1b]0;unterminated ', '\x1bP', '\x1b(', '\x1b_x', '\x1b[38;5;1\x1b', '\x1b[ ']   # only at the end of a line or before another sequence
def gen_line(r, rich):
    out = []
    for _ in range(r.choice([0, 1, 1, 2, 3, 4, 6, 9])):
        z = r.random()
        if not rich:
            if z < .1: out.append('\r')
            elif z < .25: out.append(r.choice(SGR))
            else: out.append(r.choice(TXT))
        else:
            if z < .4: out.append(r.choice(TXT))
            elif z < .55: out.append(r.choice(SGR))
            elif z < .8: out.append(r.choice(OTHER))
            elif z < .95: out.append(r.choice(CTL))
            elif z < .97: out.append('\r')
            else: out.append(r.choice(CUT) + r.choice(SGR + OTHER))
    if rich and r.random() < .12: out.append(r.choice(CUT))
    t = ''.join(out)
    t = re.sub('\r\r+$', '\r', t)
    if r.random() < .12: t = t.rstrip('\r') + '\r'
    return t
def gen_text(r, rich):
    n = r.choice([0, 1, 1, 2, 3, 5])
    t = '\n'.join(gen_line(r, rich) for _ in range(n))
    return t + ('\n' if r.random() < .7 and n else '')

def gen_case(r, rich):
    """A block with leaves: name path -> color off, commands: [(id, chunks [(stream, bytes)])]."""
    k = 0
    def block(depth, off, path):
        nonlocal k
        b = dict(color=r.random() < (.35 if rich else .25), limit=r.choice([0, 0, 0, 1, 2]), mode=r.choice(['', '', 'interleaved', 'grouped', 'tabs']), items=[])
        off = off or b['color']
        for i in range(r.randint(1, 4 if not depth else 3)):
            k += 1; lab = r.choice(['L%d', 'a b%d', 'é%d', 'L%d-longer', '[x%d', '%d']) % k
            if depth < 1 and r.random() < .2: b['items'].append(dict(k='nest', label=lab, name='t%d' % k, block=block(depth + 1, off, path + [lab])))
            else:
                cmds = []
                for j in range(1 if r.random() < .75 else 2):
                    cmds.append(dict(id='c%d_%d' % (k, j), out={1: gen_text(r, rich), 2: gen_text(r, rich) if r.random() < .5 else ''}, code=0))
                if r.random() < .15: cmds[-1]['code'] = 3
                b['items'].append(dict(k='cmd' if len(cmds) == 1 and r.random() < .6 else 'task', label=lab, name='t%d' % k, cmds=cmds, path=path + [lab], off=off))
        return b
    c = block(0, False, [])
    def gaps(b):                # items that are not for now, before or after others
        for it in b['items']:
            if r.random() < .15: k_ = r.choice(['when', 'platforms']); it['gap'] = {k_: 'false' if k_ == 'when' else ['windows']}
            if it['k'] == 'nest': gaps(it['block'])
    gaps(c)
    return c

def leaves(b):
    for it in b['items']:
        if it['k'] == 'nest': yield from leaves(it['block'])
        else: yield it

def render_block(b):
    tasks = {'a': None}
    def blk(b):
        items = []
        for j, it in enumerate(b['items']):
            if it.get('gap'): items.append({'cmd': 'echo no', 'label': 'off%d' % j, **it['gap']} if j % 3 < 2 else {'log': 'no', **it['gap']})
            if it['k'] == 'cmd': items.append({'cmd': 'probe run %s' % it['cmds'][0]['id'], 'label': it['label']})
            else:
                items.append({'task': it['name'], 'label': it['label']})
                tasks[it['name']] = {'run': [blk(it['block'])] if it['k'] == 'nest' else [{'cmd': 'probe run ' + c['id']} for c in it['cmds']]}
        y = {'parallel': items, 'silent': True}
        if b['limit']: y['limit'] = b['limit']
        if b['mode']: y['mode'] = b['mode']
        if b['color']: y['color'] = False
        return y
    tasks['a'] = {'silent': True, 'run': [blk(b)]}
    def plain(y):               # a label of digits may be written as a number
        for x in y if isinstance(y, list) else y.values() if isinstance(y, dict) else []: plain(x)
        if isinstance(y, dict) and str(y.get('label', 'x')).isdigit() and int(y['label']) % 2: y['label'] = int(y['label'])
    plain(list(tasks.values()))
    return {'silent': True, 'tasks': tasks}

SG = r'(?:\x1b\[[0-9;]*m)*'
def prefixes(b):
    ps = []
    def walk(b, pre):
        for it in b['items']:
            p = pre + SG + r'\[' + re.escape(it['label']) + r' *\]' + SG + ' '
            if it['k'] == 'nest': walk(it['block'], p)
            else: ps.append((len(pre), re.compile(p, re.S), '/'.join(it['path'])))
    walk(b, '')
    return [(x, y) for _, x, y in sorted(ps, key=lambda t: -t[0])]
def split_out(raw, ps, cps=True):
    lines = []
    for l in raw.split(b'\n')[:-1]:
        t = l.decode('utf8', 'replace')
        for rx, n in ps:
            m = rx.match(t)
            if m: lines.append([n, [ord(c) for c in t[m.end():]] if cps else t[m.end():]]); break
        else:
            if not re.match(r'(\x1b\[[0-9;]*m)*ERRO', t): lines.append(['?', [ord(c) for c in t] if cps else t])
    return lines

def run_lines(bab, b, seed):
    r = random.Random(seed); d = newdir('l')
    write_files(d, {'Babfile.yml': json.dumps(render_block(b))})
    s = Session(bab, ['a'], d)
    ps = prefixes(b); ev = []
    lv = list(leaves(b)); names = {'/'.join(it['path']): it['off'] for it in lv}
    where = {c['id']: ('/'.join(it['path']), it, j) for it in lv for j, c in enumerate(it['cmds'])}
    dec = {(n, f): codecs.getincrementaldecoder('utf8')() for n in names for f in (1, 2)}
    wrote = {k: '' for k in dec}; todo = {}; ended = set()
    def want(f): return sum(t.count('\n') + (n in ended and t != '' and t[-1] != '\n') for (n, g), t in wrote.items() if g == f)
    def count(f): return len(split_out(s.out[f], ps))
    patience = [8.0]
    def see():
        end = time.time() + patience[0]
        while time.time() < end:
            s.drain()
            if count(1) >= want(1) and count(2) >= want(2): break
            s.pump(.02)
        else: patience[0] = 1.0
        s.drain(); ev.append(dict(e='see', n1=count(1), n2=count(2)))
    end = time.time() + 60
    while s.code is None and time.time() < end:
        s.pump(.02)
        if len(ended) == len(names): break
        o = s.outstanding()
        if not o: continue
        c = r.choice(o); n, it, j = where[c.id]; cm = it['cmds'][j]
        if c.id not in todo:
            ch = []
            for f in (1, 2):
                t = cm['out'][f].encode()
                while t: k = min(len(t), r.choice([1, 1, 2, 3, 5, 9, 30, 200])); ch.append((f, t[:k])); t = t[k:]
            # the order within a stream stays, the streams are mixed
            q = {f: [x for x in ch if x[0] == f] for f in (1, 2)}; ch = []
            while q[1] or q[2]:
                f = r.choice([f for f in (1, 2) if q[f]]); ch.append(q[f].pop(0))
            todo[c.id] = ch
        if todo[c.id]:
            for _ in range(r.choice([1, 1, 2, 4, 50])):
                if not todo[c.id]: break
                f, x = todo[c.id].pop(0)
                t = dec[n, f].decode(x); wrote[n, f] += t
                if t: ev.append(dict(e='w', leaf=n, s=f, text=[ord(ch) for ch in t]))
                s.write(c, f, x)
            if r.random() < .35: see()
        else:
            last = j == len(it['cmds']) - 1 or cm['code'] != 0
            if r.random() < .3: see()
            if last: ev.append(dict(e='end', leaf=n)); ended.add(n)
            s.release(c, cm['code'])
            if r.random() < .5: see()
    s.finish(20)
    ev.append(dict(e='see', n1=count(1), n2=count(2)))
    shutil.rmtree(d, ignore_errors=True)
    return dict(leaves=[[n, o] for n, o in names.items()], ev=ev, out=[split_out(s.out[1], ps), split_out(s.out[2], ps)], code=s.code)

def show(cps): return ascii(''.join(map(chr, cps)))
def line_check(pid, n, rich):
    ck = Check(pid); build_probe(); bab = build_bab()
    ex = ThreadPoolExecutor(1)
    def mc():
        for m, x in (('CleanMC', SIZE(4, 5)), ('LinesMC', SIZE(2, 3))):
            cfg = re.sub(r'MaxLen = \d', 'MaxLen = %d' % x, open(os.path.join(SPEC, m + '.cfg')).read())
            rc, out = tlc(m, cfg=cfg, workers=3, heap='4g'); a, b = tlc_stats(out); ck.add(design_states=b, design_transitions=a)
    fut = ex.submit(mc)
    cases = [gen_case(random.Random('%s/%d/%d' % (pid, SEED, i)), rich) for i in range(n)]
    _, obs = drive(lambda x: run_lines(bab, x[1], x[0]), enumerate(cases), 2 * NCPU)
    bad, a, b = judge(obs, module='LinesTrace')
    ck.add(states=b, transitions=a, traces_validated_against_impl=len(obs), writes=sum(e['e'] == 'w' for o in obs for e in o['ev']), lines=sum(len(x) for o in obs for x in o['out']))
    for o in obs: ck.sample(dict(out=[[[n, show(t)] for n, t in x[:3]] for x in o['out']]), 2)
    for i, at in bad:
        ev = obs[i]['ev']
        tr = ['%s%s' % ('>>> ' if k == at - 1 else '    ', ' '.join(show(v) if isinstance(v, list) else str(v) for v in e.values())) for k, e in enumerate(ev)]
        ck.violation('output is not that of the specification; first impossible event marked\n%s\nshown on stdout: %s\nshown on stderr: %s' % ('\n'.join(tr[max(0, at - 25):at + 3]), [[n, show(t)] for n, t in obs[i]['out'][0]], [[n, show(t)] for n, t in obs[i]['out'][1]]),
                     dict(babfile=render_block(cases[i]), observed=obs[i]))
    fut.result()
    return ck, bab

def run_bulk(bab, seed):
    r = random.Random(seed); d = newdir('k'); n = r.randint(2, 6)
    items = []; lv = []; want = []
    for i in range(n):
        data = []
        for f in (1, 2):
            ls = ['%d.%d.%d %s' % (i, f, k, r.choice('xyz') * r.choice([0, 1, 20, 20, 100, 3000 if r.random() < .05 else 5, 90000 if r.random() < .005 else 7])) for k in range(r.randint(0, 250))]
            data.append(ls)
            with open(os.path.join(d, 'f%d.%d' % (i, f)), 'w') as fh: fh.write('\n'.join(ls) + ('\n' if r.random() < .6 else '') if ls else '')
        items.append(dict(k='cmd', label='L%d' % i, path=['L%d' % i], cmds=[])); want.append(['L%d' % i, data])
    y = {'silent': True, 'tasks': {'a': {'run': [{'parallel': [{'cmd': r.choice(['cat f%d.1 & cat f%d.2 >&2; wait', 'cat f%d.1; cat f%d.2 >&2', 'cat f%d.2 >&2 & (while IFS= read -r l; do echo "$l"; done; printf %%s "$l") < f%d.1; wait'][:2]) % (i, i), 'label': 'L%d' % i} for i in range(n)], 'limit': r.choice([n, n, 2])}]}}}
    write_files(d, {'Babfile.yml': json.dumps(y)})
    s = Session(bab, ['a'], d); s.finish(60)
    ps = prefixes(dict(items=items))
    shutil.rmtree(d, ignore_errors=True)
    return dict(leaves=want, out=[split_out(s.out[1], ps, False), split_out(s.out[2], ps, False)]), s.code

def c22():
    ck, bab = line_check('C22', SIZE(250, 3000), False)
    obs = pmap(lambda i: run_bulk(bab, 'C22b/%d/%d' % (SEED, i)), list(range(SIZE(24, 300))), 4)
    res, tot = judge_batch('BulkCheck', [o for o, _ in obs])
    ck.add(bulk_runs=len(obs), bulk_lines=sum(len(x) for o, _ in obs for x in o['out']))
    for (o, code), q in zip(obs, res):
        if q['bad']: ck.violation('bulk output differs for %s' % q['bad'], dict(observed=o))
    return ck.finish()

def c23():
    ck, bab = line_check('C23', SIZE(300, 4000), True)
    import viewchecks
    viewchecks.runs(ck, SIZE(50, 600), 1)          # the live views
    ck.assume.append('captured output is valid UTF-8; a parameter byte after an intermediate byte (no sequence at all) is not generated')
    return ck.finish()
