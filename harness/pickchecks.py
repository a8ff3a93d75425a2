"""C25: the task picker, replaying behaviours of Picker.tla over a pseudo terminal and reading the screen."""
import fcntl, struct, termios
from engine import *
from engchecks import SIZE
from drychecks import judge_batch
from screen import Screen
from promptchecks import KEYB

KEYB = dict(KEYB, ESC=b'\x1b')
SPECIAL = ['UP', 'DOWN', 'DOWN', 'DOWN', '^P', '^N', 'BS', 'BS', 'DEL', 'LEFT', 'RIGHT', 'HOME', 'END', '^U', '^K', 'RESIZE']
WORDS = ['a', 'b', 'ab', 'ba', 'aB', 'AB', 'a-b', 'b_a', 'test', 'build', 'Test', 'test-all', 'deploy', 'db', 'lint', 't1', '10', '2', 'up', 'run-it', 'buildAll', 'bld', 'b-l-d', 'unit', 'e2e', 'aab', 'bb-a']

def gen_case(r):
    names = set(); n = r.choice([1, 2, 3, 5, 8, 13, 20])
    while len(names) < n:
        w = r.choice(WORDS)
        if r.random() < .25: w += r.choice(['-', '_', '']) + r.choice(WORDS)
        if r.random() < .2: w = r.choice(['n', 'db', 'A']) + ':' + w
        names.add(w)
    used = set(names); tasks = []
    for nm in sorted(names, key=lambda x: r.random()):
        al = []
        for _ in range(r.choice([0, 0, 0, 1, 1, 2, 3])):
            a = r.choice(WORDS + ['x', 'tt', 'bt', 'q', 'Q']) + r.choice(['', '', '1', 'z', '-b'])
            if a in used: continue
            used.add(a); al.append(a)
        tasks.append(dict(name=nm, aliases=al, desc=r.choice(['', '', 'Build it', 'the b', 'é ok', 'zz top'])))
    pool = sorted({c for t in tasks for s in [t['name']] + t['aliases'] for c in s}) + ['z', 'é', 'B', 'T', '-']
    src = [s for t in tasks for s in [t['name']] + t['aliases']]
    ks = []
    for _ in range(r.choice([0, 1, 2, 3, 5])):
        z = r.random()
        if z < .3:      # a subsequence of something
            s = r.choice(src); q = [c for c in s if r.random() < .6][:5]; ks += [c.swapcase() if r.random() < .15 else c for c in q]
        elif z < .4: ks += list(r.choice(src)[:6])
        elif z < .55: ks.append(r.choice(pool))
        else: ks += [r.choice(SPECIAL) for _ in range(r.choice([1, 2, 3, 5]))]
        if r.random() < .2: ks += ['^U'] if r.random() < .5 else ['DOWN'] * r.randint(1, 12)
    ks.append(r.choice(['ENTER'] * 6 + ['ESC', '^C']))
    rows = r.choice([5, 6, 8, 12, 30, 30])
    return dict(tasks=tasks, keys=ks, rows=rows, rows2=r.choice([x for x in (5, 7, 10, 30) if x != rows]), cols=100)

def render(case):
    main = {}; inc = {}
    for t in case['tasks']:
        ns, _, nm = t['name'].rpartition(':')
        y = {'run': [{'cmd': 'probe dump ' + t['name']}]}
        if t['desc']: y['desc'] = t['desc']
        if len(t['aliases']) == 1: y['alias'] = t['aliases'][0]
        elif t['aliases']: y['aliases'] = t['aliases']
        main[t['name']] = y
    return {'tasks': main}

def row(t): return t['name'] + (' (%s)' % ', '.join(t['aliases']) if t['aliases'] else '') + ('  ' + t['desc'] if t['desc'] else '')

def shows(lines, case, st, rows):
    """Whether the screen shows state st of the specification; '' or what is wrong."""
    ts = case['tasks']; want = [row(ts[i - 1]) for i in st['list']]
    if len(lines) < 3: return 'nothing shown'
    if lines[1].strip() != ('> ' + st['q']).strip(): return 'query shown as %r' % lines[1]
    if ' %d/%d ' % (len(want), len(ts)) not in lines[2]: return 'count shown as %r, specified %d/%d' % (lines[2], len(want), len(ts))
    body = lines[3:]
    if not want:
        if any(l.strip() in [row(t) for t in ts] for l in body): return 'lists %r, specified nothing' % body
        return ''
    at = [i for i, l in enumerate(body) if l.startswith('│ ')]
    got = [l[2:].rstrip() for l in body]
    if len(at) != 1: return 'cursor on rows %r' % at
    off = st['row'] - 1 - at[0]
    if off < 0 or got != want[off:off + len(got)]: return 'rows %r with the cursor on number %d, specified %r with the cursor on %d' % (got, at[0] + 1, want, st['row'])
    if len(got) < min(len(want), rows - 5): return 'only %d of %d rows shown on %d lines' % (len(got), len(want), rows)
    return ''

def replay(bab, case, states):
    d = newdir('w'); write_files(d, {'babfile.yml': render(case)})
    rows = case['rows']; s = Session(bab, [], d, pty=True, size=(rows, case['cols'])); sc = Screen(rows, case['cols']); pos = 0; seen = 0
    def settle(st, limit=6):
        nonlocal pos
        end = time.time() + limit
        while True:
            s.pump(.01); sc.feed(s.out[1][pos:]); pos = len(s.out[1])
            w = shows(sc.lines(), case, st, rows)
            if not w or time.time() > end or s.code is not None or s.dumps: return w
    bad = settle(states[0]); esc = False
    if not bad:
        for k, st in zip(case['keys'], states[1:]):
            if k == 'RESIZE':     # the program repaints everything
                rows = case['rows2'] if rows == case['rows'] else case['rows']
                sc = Screen(rows, case['cols'])
                fcntl.ioctl(s.master, termios.TIOCSWINSZ, struct.pack('HHHH', rows, case['cols'], 0, 0))
                os.kill(s.p.pid, signal.SIGWINCH)
            else: s.keys(KEYB.get(k) or k.encode())
            if st['ph'] != 'open': break
            seen += 1; bad = settle(st)
            if bad: bad = 'after %r: %s' % (case['keys'][:seen], bad); break
    s.finish(8 if not bad else .1)
    last = states[-1]
    if not bad:
        ran = [x['id'] for x in s.dumps]
        if any(x['e'] == 'hang' for x in s.ev): bad = 'bab does not end after %r' % case['keys']
        elif last['ph'] == 'picked' and ran != [case['tasks'][last['pick'] - 1]['name']]: bad = 'runs %r, the cursor was on %r' % (ran, case['tasks'][last['pick'] - 1]['name'])
        elif last['ph'] == 'left' and ran: bad = 'runs %r although nothing is selected' % ran
    return bad, seen

def c25():
    ck = Check('C25'); build_probe(); bab = build_bab()
    cases = [gen_case(random.Random('C25/%d/%d' % (SEED, i))) for i in range(SIZE(450, 5000))]
    ex = ThreadPoolExecutor(1)
    fut = ex.submit(lambda: tlc('PickerMC', cfg='CONSTANT MaxLen = %d\nINIT Init\nNEXT Next\nINVARIANTS Exactly InOrder OnOne Picked Cursor\nCHECK_DEADLOCK FALSE\n' % SIZE(5, 7), workers=2))
    want, _ = judge_batch('PickerCheck', [dict(tasks=c['tasks'], keys=c['keys']) for c in cases])
    al, aw = cases, want
    def one(i):
        r = replay(bab, al[i], aw[i])
        return r if not r[0] else replay(bab, al[i], aw[i])
    done, obs = drive(one, range(len(cases)), 12, bad=lambda r: r[0]); cases = [cases[i] for i in done]; want = [want[i] for i in done]
    screens = picked = 0
    for c, w, (bad, seen) in zip(cases, want, obs):
        screens += 1 + seen; picked += w[-1]['ph'] == 'picked'
        if bad: ck.violation('%s\n babfile: %s\n keys: %r, window of %d lines' % (bad, json.dumps(render(c), ensure_ascii=False), c['keys'], c['rows']), dict(case=c, want=w))
        ck.sample(dict(tasks=[row(t) for t in c['tasks']], keys=c['keys'], query=w[-1]['q'], listed=[c['tasks'][i - 1]['name'] for i in w[-1]['list']], end=w[-1]['ph']), 5)
    rc, out = fut.result(); g, dist = tlc_stats(out)
    ck.add(states=dist, replayed=len(cases), screens_compared=screens, picked=picked)
    ck.assume += ['names and aliases are ASCII; the ranking of the matching library (sahilm/fuzzy) is part of the specification',
                  'the screen is read through a terminal emulator of ours']
    return ck.finish()
