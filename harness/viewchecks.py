"""C24: the live views of parallel blocks, against View.tla."""
import fcntl, struct, termios
import vh, linechecks
from engine import *
from engchecks import SIZE
from drychecks import judge_batch
from screen import Screen

SYM = dict(stopped='⊘', failed='✗', ok='✓', waiting='∙', running='◦', head='┌─', bar='│', foot='└', more='…', waits='Waiting…', runs='Running…', nothing='*', dot='●')   # *: a placeholder, whatever its words
FAIL, CANCEL = 'exit status 1', 'item: context canceled'
strip = lambda t: re.sub('\x1b\\[[0-9;:]*m', '', t)
def symfile():
    p = os.path.join(newdir('sym'), 'sym.json'); jdump(dict(SYM, ch=CHARS), p); return {'SYM': p}

def gen_msgs(r):
    """A sequence of messages a run can produce, with keys and changes of size between them."""
    mode = r.choice(['grouped', 'tabs']); labels = r.sample(['a', 'bb', 'build', 'test:all', 'x y', 'item-long-label', 'c'], r.choice([1, 1, 2, 2, 3, 4]))
    w, h = r.choice([20, 40, 40, 80, 120]), r.choice([5, 6, 8, 12, 24])
    if mode == 'tabs': w = max(w, sum(len(x) + 6 for x in labels) + 4)
    ms = [dict(m='size', w=w, h=h)]; keys = dict.fromkeys(map(str, range(len(labels))), 'wait'); kids = {}; canc = False; minw = w if mode == 'tabs' else 12
    line = lambda: r.choice(['one', 'two  spaces', '', '   ', 'é ok', 'n%d' % r.randint(0, 99), 'n%d' % r.randint(0, 99), 'abcdefghij' * r.randint(1, 9), '  x', '│ └', 'tail '])
    def below(k): return [x for c in kids.get(k, []) for x in [c] + below(c)]
    for _ in range(r.choice([3, 8, 15, 30, 60])):
        z = r.random(); live = [k for k in keys]
        run = [k for k in live if keys[k] == 'run']; wait = [k for k in live if keys[k] == 'wait']
        if z < .14 and wait: k = r.choice(wait); keys[k] = 'run'; ms.append(dict(m='start', key=k))
        elif z < .55 and run:
            k = r.choice(run)
            if kids.get(k): continue           # the item waits for its nested block
            for _ in range(r.choice([1, 1, 1, 2, 4, 9])): ms.append(dict(m='out', key=k, line=line()))
        elif z < .65 and run:
            k = r.choice(run)
            if kids.get(k): continue
            keys[k] = 'done'; e = r.choice(['', '', 'fail', 'cancel'])
            ms.append(dict(m='done', key=k, err=e, why={'': '', 'fail': FAIL, 'cancel': CANCEL}[e]))
        elif z < .68 and wait and canc: k = r.choice(wait); keys[k] = 'done'; ms.append(dict(m='done', key=k, err='cancel', why=CANCEL))
        elif z < .78 and run:
            k = r.choice(run)
            if kids.get(k) or k.count('.') > 2: continue
            kids[k] = ['%s.%d' % (k, i) for i in range(r.choice([1, 2, 3]))]
            for c in kids[k]: keys[c] = 'wait'; ms.append(dict(m='reg', key=c, parent=k, label=r.choice(['k', 'sub', 'nested']) + c[-1]))
        elif z < .84:
            ks = [k for k in kids if kids[k] and all(keys[c] == 'done' for c in kids[k])]
            if not ks: continue
            k = r.choice(ks)
            for c in below(k): del keys[c]; kids.pop(c, None)
            kids[k] = []; ms.append(dict(m='clear', key=k))
            if r.random() < .7: ms.append(dict(m='out', key=k, line='● Parallel [x ✓]'))
        elif z < .88: ms.append(dict(m='size', w=max(r.choice([12, 20, 40, 80, 120]), minw), h=r.choice([3, 5, 6, 8, 12, 24])))
        elif z < .9: ms.append(dict(m='key', key='^C')); canc = True
        else: ms.append(dict(m='key', key=r.choice(['TAB', 'TAB', 'TAB', 'BTAB', 'BTAB', 'UP', 'UP', 'DOWN', 'q', 'x'] if mode == 'tabs' else ['TAB', 'q', 'UP', 'x'])))
    if r.random() < .5: ms.append(dict(m='all'))
    return dict(mode=mode, labels=labels, msgs=ms)

def drive(d, case):
    def conv(m):
        if m['m'] == 'key': return dict(M='key', K=m['key'])
        return dict(M=m['m'], Key=m.get('key', ''), Parent=m.get('parent', ''), Label=m.get('label', ''), Line=m.get('line', ''), Err=m.get('err', ''), W=m.get('w', 0), H=m.get('h', 0))
    return dict(Mode=case['mode'], Items=case['labels'], Msgs=[conv(m) for m in case['msgs']])

def differs(want, lines, w, h, mode):
    """'' if the lines on the screen are what the specification shows, or what is wrong."""
    got = [l.rstrip() for l in lines]
    if want['over']: return '' if not any(got) else 'still shows %r' % got
    if mode == 'grouped':
        exp = [l.rstrip() for l in want['rows']]
        return '' if got == exp else 'shows\n  %s\n specified\n  %s' % ('\n  '.join(got), '\n  '.join(exp))
    if len(got) < 4: return 'shows %r' % got
    bar = ''.join('│ %s %s │' % (b['icon'], b['label']) for b in want['bar'])
    if got[1] != bar: return 'tabs %r, specified %r' % (got[1], bar)
    x = 0
    for b in want['bar']:
        n = len(b['label']) + 6; seg = got[2][x:x + n]; x += n
        if x < w - 1 and (' ' * (n - 2) == seg[1:-1]) != b['sel']: return 'selected tab: %r, specified %r' % (got[2], want['bar'])
    body = [l[1:].rstrip('│').rstrip() for l in got[3:-1]]
    if want['rows'] == ['*'] and not any(body[1:]): return ''
    for alt in (want['rows'], want['alt']):
        exp = [l.rstrip() for l in alt]; exp += [''] * (max(h - 4, 1) - len(exp))
        if body == [l.rstrip('│').rstrip() for l in exp]: return ''
    return 'window shows\n  %s\n specified\n  %s' % ('\n  '.join(body), '\n  '.join(want['rows']))

def driven(ck, n):
    try: d = build_driver('view')
    except CheckError: ck.assume.append('the views could not be driven directly'); return   # the messages have changed: the runs decide
    cases = [gen_msgs(random.Random('C24/%d/%d' % (SEED, i))) for i in range(n)]
    want, _ = judge_batch('ViewCheck', [dict(mode=c['mode'], labels=c['labels'], msgs=c['msgs']) for c in cases], symfile())
    r = subprocess.run([d], input='\n'.join(json.dumps(drive(d, c)) for c in cases).encode(), stdout=subprocess.PIPE, env=base_env(), timeout=300)
    obs = [json.loads(l) for l in r.stdout.splitlines()]
    if len(obs) != len(cases): raise CheckError('view driver stopped early')
    views = 0
    for c, ws, os_ in zip(cases, want, obs):
        w, h = 80, 0
        for i, (m, want1, o) in enumerate(zip(c['msgs'], ws, os_)):
            if m['m'] == 'size': w, h = m['w'], m['h']
            bad = differs(want1, strip(o['view']).split('\n'), w, h, c['mode']); views += 1
            if not bad and o['cancels'] != want1['cancels']: bad = 'cancellation requested %d times, specified %d' % (o['cancels'], want1['cancels'])
            if not bad and o['quit'] != (m['m'] == 'all'): bad = 'the view %s at %r' % ('ends' if o['quit'] else 'does not end', m)
            if bad: ck.violation('%s view after message %d %r: %s\n messages: %s' % (c['mode'], i + 1, m, bad, json.dumps(c['msgs'][:i + 1], ensure_ascii=False)), dict(case=c, at=i, want=want1, got=o)); break
        ck.sample(dict(mode=c['mode'], items=c['labels'], msgs=c['msgs'][:12], last=want1['rows'][:8]), 3)
    ck.add(driven=len(cases), views_compared=views)


# ---- runs of the real program ----
TRI = {'y': True, 'n': False}
BITS = ['a', 'word', ' x', 'é', '✓', '50%', 'm', '1;31m', '0', 'n7']
def wild_line(r, off):
    """Text with whatever else a program may write; struck out where colours are off."""
    out = [r.choice(BITS)]
    for _ in range(r.choice([1, 2, 3, 5])):
        z = r.random()
        out.append(r.choice(BITS) if z < .4 else r.choice(linechecks.OTHER) if z < .7 else r.choice([c for c in linechecks.CTL if c not in '\x00']) if z < .85
                   else '\r' if z < .88 else ('\x1b[9m' if off else r.choice(['\x1b[31m', '\x1b[m', '\x1b[1m'])) if z < .97 else r.choice(linechecks.CUT) + r.choice(linechecks.OTHER))
    if not off or r.random() < .5: out.append(r.choice(BITS))      # whether a line of nothing but colours is blank is left open
    return ''.join(out) + r.choice(['', '', '\r'])
CHARS = {str(c): chr(c) for c in list(range(32, 127)) + list(range(160, 0x250)) + [ord(c) for c in '✓│└ ']}

class PGen:
    def __init__(self, r): self.r = r; self.nid = 0; self.nt = 0; self.tasks = {}; self.last = set(); self.off = set()
    def tri(self): return self.r.choice(['', '', 'y', 'n']) if self.mixed else ''
    def task(self, t, run, ts): self.tasks[t] = dict({'run': run}, **({'silent': TRI[ts]} if ts else {}))
    def id(self): self.nid += 1; return 'c%d' % self.nid
    def cmd(self): return dict(k='cmd', id=self.id())
    def block(self, depth, mode, off=False):
        coff = self.r.random() < self.dim; off = off or coff
        r = self.r; s = self.tri(); limit = r.choice([0, 0, 0, 1, 2]); items = []; yaml = []
        for _ in range(r.choice([1, 2, 2, 3, 4]) if depth == 0 else r.choice([1, 2, 2])):
            lab = r.choice([None, None, 'L%d' % self.nid, 'my item %d' % self.nid])
            si, ts = self.tri(), self.tri() or ('y' if self.silent else ''); n0 = self.nid
            if limit or depth > 2 or r.random() < .5:
                c = self.cmd(); y = {'cmd': 'probe run ' + c['id']}; it = dict(label=lab or y['cmd'], steps=[c], own=False)
            else:
                self.nt += 1; t = 't%d' % self.nt; run = []; steps = [dict(k='say', line='▶ ' + t)]
                for _ in range(r.choice([1, 1, 2, 3])):
                    z = r.random()
                    if z < .2 and not self.silent and not self.mixed: run.append({'log': 'note ' + t}); steps.append(dict(k='say', line='INFO note ' + t))
                    elif z < .6 or depth > 1: c = self.cmd(); run.append({'cmd': 'probe run ' + c['id']}); steps.append(c)
                    else:
                        b, yb = self.block(depth + 1, r.choice(['grouped', 'tabs']), off); run.append(yb); steps.append(dict(k='par', block=b))
                self.task(t, run, ts); y = {'task': t}; it = dict(label=lab or t, steps=steps, own=True)
            it.update(s=si, ts=ts)
            if si: y['silent'] = TRI[si]
            if it['steps'][-1]['k'] == 'cmd': self.last.add(it['steps'][-1]['id'])
            if off: self.off |= {'c%d' % i for i in range(n0 + 1, self.nid + 1)}
            if lab: y['label'] = lab
            items.append(it); yaml.append(y)
        return dict(items=items, limit=limit, s=s), dict({'parallel': yaml, 'mode': mode}, **({'limit': limit} if limit else {}), **({'silent': TRI[s]} if s else {}), **({'color': False} if coff else {}))

def gen_run(seed, hostile=.3):
    r = random.Random(seed); g = PGen(r); g.dim = .5 if hostile == 1 else .25; g.silent = r.random() < .25; g.mixed = not g.silent and r.random() < .35; mode = r.choice(['grouped', 'tabs'])
    bs = [g.block(0, mode) for _ in range(r.choice([1, 1, 1, 2]))]
    ts = g.tri() or ('y' if g.silent else ''); g.task('m', [y for _, y in bs], ts)
    tabs = mode == 'tabs'
    return dict(seed=seed, prog=dict(mode=mode, silent=ts == 'y', ts=ts, w=110, h=r.choice([7, 12, 40]) if tabs else 90, blocks=[b for b, _ in bs]),
                file={'tasks': g.tasks}, cancel=r.random() < .12, last=sorted(g.last), off=sorted(g.off), hostile=hostile if r.random() < .7 else 0, mute=sum(1 for _ in re.finditer("'silent': True", str(g.tasks))))

KEYS = {'TAB': b'\t', 'BTAB': b'\x1b[Z', 'UP': b'\x1b[A', '^C': b'\x03'}
def play(bab, case, q):
    """Drives one run; returns the groups of events, the screens after them, and how it ended."""
    r = random.Random(case['seed'] + '/play'); P = case['prog']; h, w = P['h'], P['w']
    d = newdir('w'); write_files(d, {'babfile.yml': case['file']})
    s = Session(bab, ['m'], d, pty=True, size=(h, w)); sc = Screen(h, w); pos = 0; seen = 0; groups = []; shots = []; fin = []
    def settle(first):
        nonlocal pos, seen
        last = time.time(); end = last + 15; n = (len(s.out[1]), len(s.ev), len(s.conns))
        while time.time() - last < (q if not first else 2 * q) and time.time() < end and s.code is None:
            s.pump(.02); m = (len(s.out[1]), len(s.ev), len(s.conns))
            if m != n: n = m; last = time.time()
        if s.code is not None and not fin: s.finish(1); fin.append(1)
        sc.feed(s.out[1][pos:]); pos = len(s.out[1])
        st = [dict(e='start', id=x['id']) for x in s.ev[seen:] if x['e'] == 'start']; seen = len(s.ev)
        groups.append(([first] if first else []) + st); shots.append(dict(lines=sc.lines(), h=h, w=w, left=s.code is not None))
    settle(None); steps = r.choice([4, 8, 16]); canc = False; stream = {}
    while s.code is None and len(groups) < 80:
        o = sorted(s.outstanding(), key=lambda c: c.id)
        if not o: break
        c = r.choice(o); z = r.random()
        if case['cancel'] and len(groups) > steps:
            s.keys(KEYS['^C']); canc = True; break
        if len(groups) <= steps and z < .5:
            rough = r.random() < case['hostile']
            ls = [wild_line(r, c.id in case['off']) if rough else r.choice(['one', '', 'two  words', 'é ✓', 'abcdefghij' * r.randint(1, 13), 'x%d' % r.randint(0, 99)]) for _ in range(r.choice([1, 1, 2, 3, 7]))]
            t = ''.join(l + '\n' for l in ls)
            if c.id in case['last'] and r.random() < (.6 if rough else .3): t = t[:-1] + r.choice(['', 'more'])
            s.write(c, stream.setdefault(c.id, r.choice([1, 2])), t.encode()); ev = dict(e='write', id=c.id, raw=[ord(x) for x in t])
        elif len(groups) <= steps and z < .65 and P['mode'] == 'tabs':
            if r.random() < .7: k = r.choice(['TAB', 'TAB', 'BTAB', 'UP']); s.keys(KEYS[k]); ev = dict(e='key', key=k)
            else:
                h = r.choice([x for x in (6, 9, 15, 40) if x != h]); ev = dict(e='size', w=w, h=h); sc = sc.resized(h, w)
                fcntl.ioctl(s.master, termios.TIOCSWINSZ, struct.pack('HHHH', h, w, 0, 0)); os.kill(s.p.pid, signal.SIGWINCH)
        else:
            code = r.choice([0] * 5 + [3]); s.release(c, code); ev = dict(e='end', id=c.id, code=code)
        settle(ev)
    if not fin: s.finish(12)
    sc.feed(s.out[1][pos:])
    return dict(groups=groups, shots=shots, cancelled=canc, struck=sc.strikes, hang=any(e['e'] == 'hang' for e in s.ev), code=s.code, last=sc.lines(), alive=[e['id'] for e in s.ev if e['e'] == 'alive'])

def wild(exp, got):
    """Lines in which * stands for any text."""
    if len(exp) != len(got): return False
    return all(g == e or ('*' in e and g.startswith(e[:e.index('*')])) for e, g in zip(exp, got))

def judge_run(case, obs, want):
    P = case['prog']; head = [] if P['silent'] else ['● Running m']
    if obs['hang']: return 'the run does not end'
    for i, (sh, w) in enumerate(zip(obs['shots'], want)):
        top = head + [l for l in w['said'] if l]
        got = [l.rstrip() for l in sh['lines']]
        if P['mode'] == 'grouped' or w['show']['over']: got = [l for l in got if l]
        at = 'after %s: ' % json.dumps(obs['groups'][i], ensure_ascii=False)
        if w['show']['over'] != sh['left']: return at + ('the run goes on although the work has ended' if w['show']['over'] else 'the run has ended')
        if w['show']['over']:
            if got[:len(top)] != top or any(l[:1] in '┌│└╭' for l in got[len(top):] if l): return at + 'left on the screen: %r, specified %r' % (got, top)
            continue
        if P['mode'] == 'grouped':
            exp = top + [l.rstrip() for l in w['show']['rows']]
            if got != exp: return at + 'shows\n  %s\n specified\n  %s' % ('\n  '.join(got), '\n  '.join(exp))
        else:
            w2 = dict(w['show'])
            if any('*' in l for l in w2['rows']):      # the text of an error stands there
                body = [l[1:].rstrip('│').rstrip() for l in sh['lines'][3:-1]]; exp = [l.rstrip() for l in w2['rows']]
                if w2['rows'] != ['*'] and not wild(exp, body[:len(exp)]): return at + 'window shows %r, specified %r' % (body, exp)
                w2['rows'] = ['*']; bad = differs(w2, sh['lines'][:4] + ['└'], sh['w'], sh['h'], 'tabs')
            else: bad = differs(w2, sh['lines'], sh['w'], sh['h'], 'tabs')
            if bad: return at + bad
    if obs['struck']: return 'what an item whose colours are off wrote is struck out'
    end = want[-1]['end']
    if obs['cancelled']:
        if obs['alive']: return 'left alive after ctrl+c: %r' % obs['alive']      # the exit status: C07
        txt = '\n'.join(l.rstrip() for l in obs['last'])
        if any(l[:1] and l[0] in '┌│└╭' for l in txt.split('\n')): return 'the view is left on the screen after ctrl+c: %r' % txt
        if not case['mute'] and not re.search('● Parallel \\[.*(⊘|✗)', txt): return 'no summary after ctrl+c: %r' % txt
    elif (obs['code'] == 0) != (end == 'ok'): return 'exit status %r, specified %s' % (obs['code'], end)
    return ''

def runs(ck, n, hostile=.3):
    build_probe(); bab = build_bab()
    cases = [gen_run('%sr/%d/%d' % (ck.pid, SEED, i), hostile) for i in range(n)]; sym = symfile(); screens = 0
    todo = list(range(n)); bad = {}
    for q in (.12, .7):
        todo, obs = vh.drive(lambda i: play(bab, cases[i], q), todo, 16, bad=lambda o: o['hang'], limit=500)
        want, _ = judge_batch('ViewRun', [dict(prog=cases[i]['prog'], groups=o['groups']) for i, o in zip(todo, obs)], sym)
        bad = {}
        for i, o, w in zip(todo, obs, want):
            why = judge_run(cases[i], o, w); screens += len(o['shots'])
            if why: bad[i] = (why, o, w)
            else: ck.sample(dict(program=cases[i]['file'], events=[e for g in o['groups'] for e in g][:10], screen=[l for l in o['shots'][len(o['shots']) // 2]['lines'] if l.strip()][:12]), 5)
        todo = sorted(bad)[:24]
        if not todo: break
    for i in todo:
        why, o, w = bad[i]
        ck.violation('%s\n babfile: %s' % (why, json.dumps(cases[i]['file'], ensure_ascii=False)), dict(case=cases[i], obs=o, want=w))
    ck.add(runs=n, screens_compared=screens)

def c24():
    ck = Check('C24')
    ex = ThreadPoolExecutor(1); L = SIZE((6, 6), (8, 7))
    def mc(mode, n): return tlc('ViewMC', cfg='CONSTANT MaxLen = %d\nMode = "%s"\nINIT Init\nNEXT Next\nINVARIANTS Status Lines Steps Once Ends\nCHECK_DEADLOCK FALSE\n' % (n, mode), workers=SIZE(2, 4))
    fut = [ex.submit(mc, m, n) for m, n in zip(('grouped', 'tabs'), L)]
    driven(ck, SIZE(600, 8000))
    runs(ck, SIZE(110, 1500))
    ck.add(states=sum(tlc_stats(f.result()[1])[1] for f in fut))
    ck.assume += ['labels and lines of characters one column wide', 'the screen is read through a terminal emulator of ours',
                  'whether a line of nothing but colour sequences is blank is left open', 'whether a nested item of the selected tab changes its sign at ctrl+c or at the next message is left open']
    return ck.finish()
