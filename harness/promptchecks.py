"""C21: prompts, replaying behaviours of Prompt.tla over a pseudo terminal."""
from engine import *
from engchecks import SIZE, together_cases
from drychecks import judge_batch

PATS = ['', '', '^[a-c]+$', 'b', '^$|^x', '^.{2,3}$', '^a*b$', '-', '^[^ ]*$', '^(?i)X$', '\\d{2}', 'b$', '^a']
OPTS = ['alpha', 'beta', 'b c', 'é', '日本', '0', 'true', '-x', 'a"q', "it's", 'gamma', '$HOME', 'x', 'ab']
KEYB = {'BS': b'\x7f', 'DEL': b'\x1b[3~', 'LEFT': b'\x1b[D', 'RIGHT': b'\x1b[C', 'UP': b'\x1b[A', 'DOWN': b'\x1b[B', 'HOME': b'\x1b[H', 'END': b'\x1b[F',
        '^U': b'\x15', '^K': b'\x0b', '^A': b'\x01', '^P': b'\x10', '^N': b'\x0e', '^C': b'\x03', 'ENTER': b'\r'}
EDIT = ['BS', 'BS', 'DEL', 'LEFT', 'LEFT', 'RIGHT', 'HOME', 'END', '^U', '^K']

def gen_prompt(r, before):
    t = r.choice(['confirm', 'input', 'input', 'number', 'number', 'select', 'multiselect', 'multiselect', 'password'])
    d = {'type': t, 'def': [], 'defs': [], 'opts': [], 'min': [], 'max': [], 'pat': '', 'again': False}
    lit = lambda s: [['text', s]] if s else []
    if t == 'confirm': d['def'] = lit(r.choice(['', 'yes', 'true', 'TRUE', 'Y', '1', 'no', 'false', '0', 'on', 'tRue', 'YES', 'n']))
    elif t == 'input': d['def'] = lit(r.choice(['', '', 'ab', 'x y', 'éb', '12', "q'", 'b'])); d['pat'] = r.choice(PATS)
    elif t == 'number':
        d['def'] = lit(r.choice(['', '', '5', '-3', '50', '0', '007', '12x', '+4', '1.5']))
        if r.random() < .6: d['min'] = [r.choice([-5, 0, 1, 3, 10])]
        if r.random() < .6: d['max'] = [(d['min'] or [0])[0] + r.choice([0, 1, 4, 20])]
        try:    # a default outside the bounds is refused by the file check
            if d['def'] and not ((d['min'] or [-10**9])[0] <= int(d['def'][0][1]) <= (d['max'] or [10**9])[0]): d['def'] = lit(str((d['min'] or d['max'])[0]))
        except ValueError: d['def'] = lit(str((d['min'] or d['max'] or [7])[0]))
    elif t == 'select':
        d['opts'] = r.sample(OPTS, r.choice([1, 2, 3, 4, 6])); d['def'] = lit(r.choice([''] + d['opts']))
    elif t == 'multiselect':
        d['opts'] = r.sample(OPTS, r.choice([1, 2, 3, 4, 6])); n = len(d['opts'])
        d['defs'] = r.sample(d['opts'], r.choice([0, 0, min(1, n), min(2, n), n]))
        if r.random() < .5: d['min'] = [r.randint(0, min(3, n))]
        if r.random() < .5: d['max'] = [r.randint(max(1, (d['min'] or [0])[0]), max(1, n))]
    else: d['again'] = r.random() < .7
    if before and t in ('confirm', 'input') and r.random() < .35: d['def'] = [['var', r.randint(1, before)]]
    if before and t == 'input' and r.random() < .15: d['def'] = [['var', r.randint(1, before)], ['text', '-b']]
    return d

def gen_keys(r, d):
    t = d['type']; ks = []
    if t in ('input', 'password', 'number'):
        ch = {'input': list('abcxyé日 -0125') + ['X', 'b', 'a'], 'password': list('abé $\'"\\x'), 'number': list('0123456789') * 2 + list('-+.a ')}[t]
        def word():
            w = [r.choice(ch) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4]))]
            if t == 'number' and r.random() < .6:
                lo = (d['min'] or [-20])[0]; hi = (d['max'] or [60])[0]
                w = list(r.choice([' %d', '%d ', '+%d', '0%d', '%de0', '0x%d', '%d.0', '-%d', '%d_0', '--%d', '%d 1']) % r.randint(max(lo, 0), max(hi, 0) + 1)) if r.random() < .2 else list(str(r.randint(lo - 3, hi + 3))) if r.random() < .6 else list(str(r.choice([lo, hi, lo - 1, hi + 1])))
            return w
        w = word()
        for _ in range(r.choice([1, 1, 2, 3, 4])):
            if r.random() < .35: ks.append('^U')
            for c in w:
                if r.random() < .15: ks.append(r.choice(EDIT))
                ks.append(c)
            if r.random() < .3: ks += [r.choice(EDIT) for _ in range(r.choice([1, 2, 3]))]
            ks.append('ENTER')
            if t != 'password' or r.random() < .4: w = word()
        if r.random() < .6:    # an acceptable ending
            ks += ['END', '^U'] + {'input': list(r.choice(['ab', 'b', 'x', 'ab-', 'a12'])), 'password': w, 'number': list(str((d['min'] or d['max'] or [7])[0]))}[t] + ['ENTER']
            if t == 'password': ks += ['^U'] + w + ['ENTER']
    else:
        al = {'confirm': ['h', 'l', 'LEFT', 'RIGHT', 'h', 'l', 'LEFT', 'RIGHT', 'y', 'Y', 'n', 'N'], 'select': ['UP', 'DOWN', 'k', 'j', '^P', '^N', 'HOME', 'END', 'g', 'DOWN', 'DOWN'],
              'multiselect': ['UP', 'DOWN', 'k', 'j', '^P', '^N', 'HOME', 'END', 'g', 'G', 'x', ' ', 'x', ' ', 'DOWN', 'DOWN', '^A']}[t]
        for _ in range(r.choice([1, 1, 2, 3]) if t == 'multiselect' else 1):
            ks += [r.choice(al) for _ in range(r.choice([0, 1, 2, 3, 4, 6, 9]))] + ['ENTER']
    if r.random() < .05: ks.insert(r.randint(0, len(ks)), '^C')
    return ks

def gen_case(r):
    tty = r.random() < .7; n = r.choice([1, 1, 2, 3]); es = []
    for i in range(n):
        d = gen_prompt(r, i)
        if not tty and d['type'] == 'password' and r.random() < .8: d = gen_prompt(r, i)
        es.append(dict(d=d, keys=gen_keys(r, d) if tty else []))
    return dict(es=es, tty=tty, tpl=r.choice([0, 0, .5, 1]), holder=r.random() < .3)

def render(case):
    items = []; vs = {'q': 'Q'}; r = random.Random(json.dumps(case, sort_keys=True))
    def text(x):
        """The text, or a variable that holds it."""
        if not x or r.random() >= case['tpl']: return x
        k = 'w%d' % len(vs); vs[k] = x; return r.choice(['${{ %s }}', '${{%s}}']) % k
    for i, e in enumerate(case['es']):
        d = e['d']; it = {'prompt': 'v%d' % (i + 1), 'type': d['type'], 'message': ('${{ q }}%dx' if case['tpl'] else 'Q%dx') % (i + 1)}
        opts = {x: text(x) for x in d['opts']}
        df = opts[d['def'][0][1]] if opts and d['def'] and d['def'][0][1] in opts else ''.join((text(p[1]) if d['type'] != 'number' else p[1]) if p[0] == 'text' else '${{ v%d }}' % p[1] for p in d['def'])
        if df: it['default'] = df
        if d['defs']: it['defaults'] = [opts[x] for x in d['defs']]
        if d['opts']: it['options'] = [opts[x] for x in d['opts']]
        if d['min']: it['min'] = d['min'][0]
        if d['max']: it['max'] = d['max'][0]
        if d['pat']: it['validate'] = d['pat']
        if d['again']: it['confirm'] = True
        if case['holder'] and d['type'] == 'input': it['placeholder'] = text('holder')
        items.append(it)
    items.append({'cmd': 'probe dump d', 'env': {'PV%d' % (i + 1): '${{ v%d }}' % (i + 1) for i in range(len(case['es']))}})
    return {'vars': vs, 'tasks': {'a': {'run': items}}}

def replay(bab, case, want):
    """Runs the behaviour `want` of the specification; returns what was observed."""
    d = newdir('w'); write_files(d, {'babfile.yml': render(case)})
    s = Session(bab, ['a'], d, pty=case['tty'], size=(40, 100))
    pos = 0; stuck = ''
    def waitfor(tok):
        nonlocal pos
        end = time.time() + 15
        while s.code is None and time.time() < end:
            k = s.out[1].find(tok, pos)
            if k >= 0: pos = k + len(tok); return True
            s.pump(.1)
            if s.dumps: return False
        k = s.out[1].find(tok, pos)
        if k >= 0: pos = k + len(tok); return True
        return False
    if case['tty']:
        for i, used in enumerate(want['used']):
            if not waitfor(b'Q%dx' % (i + 1)):
                if s.code is None and not s.dumps: stuck = 'prompt %d is never shown' % (i + 1)
                break
            s.idle(.03, .3); e = case['es'][i]; ks = e['keys'][:used]; again = False
            if want['end'] == 'open' and i == len(want['used']) - 1: ks = ks + ['^C']
            for j, k in enumerate(ks):
                s.keys(KEYB.get(k) or k.encode())
                if k == 'ENTER':
                    pos = len(s.out[1])
                    if j < len(ks) - 1:
                        # either the same form goes on (nothing asynchronous), or the password is asked once more
                        if e['d']['again'] and not again and e['sim'][j]:
                            if not waitfor(b'onfirm'): stuck = 'the password is not asked again'; break
                            again = True; s.idle(.03, .3)
                        else: s.idle(.12, .3)
                else: s.pump(.002)
            pos = min(pos, len(s.out[1]))
            if stuck: break
    s.finish(deadline=12 if not stuck else .1)
    hang = any(x['e'] == 'hang' for x in s.ev)
    env = dict(x.split('=', 1) for x in s.dumps[0]['env']) if s.dumps else {}
    return dict(ran=bool(s.dumps), code=s.code if not hang else -1, hang=hang, stuck=stuck, ans=[env.get('PV%d' % (i + 1)) for i in range(len(case['es']))], out=s.out[1][-600:].decode('utf8', 'replace'))

def c21():
    ck = Check('C21'); build_probe(); bab = build_bab()
    cases = []
    for i in range(SIZE(800, 8000)): cases.append(gen_case(random.Random('C21/%d/%d' % (SEED, i))))
    for c in cases:      # positions where a first password is submitted: the first ENTER of a prompt asked twice
        for e in c['es']:
            seen = False; e['sim'] = []
            for k in e['keys']: e['sim'].append(k == 'ENTER' and not seen); seen = seen or k == 'ENTER'
    ex = ThreadPoolExecutor(1)
    fut = ex.submit(lambda: tlc('PromptMC', cfg='CONSTANT MaxLen = %d\nINIT Init\nNEXT Next\nINVARIANTS Sane Kept\nCHECK_DEADLOCK FALSE\n' % SIZE(5, 6), workers=2))
    want, (gen, _) = judge_batch('PromptCheck', [dict(es=[dict(d=e['d'], keys=e['keys']) for e in c['es']], tty=c['tty']) for c in cases])
    al, aw = cases, want
    def one(i):
        o = replay(bab, al[i], aw[i])
        if diff(al[i], aw[i], o): o = replay(bab, al[i], aw[i])      # once more, alone in its turn
        o['bad'] = diff(al[i], aw[i], o)
        return o
    done, obs = drive(one, range(len(cases)), 12, bad=lambda o: o['bad']); cases = [cases[i] for i in done]; want = [want[i] for i in done]
    n = dict(ok=0, fail=0, cancel=0, open=0); keys = 0
    for c, w, o in zip(cases, want, obs):
        if not w['sound']: raise CheckError('the specification stores an answer outside its definition: %r' % c)
        n[w['end']] += 1; keys += sum(w['used'])
        what = diff(c, w, o)
        if what: ck.violation('%s\n definition: %s\n keys: %r\n specified: %s %r, observed: %r' % (what, json.dumps(render(c), ensure_ascii=False), [e['keys'] for e in c['es']], w['end'], w['ans'], {k: v for k, v in o.items() if k != 'out'}), dict(case=c, want=w))
        ck.sample(dict(babfile=render(c), keys=[e['keys'][:u] for e, u in zip(c['es'], w['used'])], end=w['end'], answers=w['ans']), 5)
    conformance(ck, bab, together_cases(ck, SIZE(90, 700)))
    rc, out = fut.result(); g, dist = tlc_stats(out)
    ck.add(states=dist, replayed=len(cases), keys_sent=keys, stored=n['ok'], failed_without_terminal=n['fail'], cancelled=n['cancel'] + n['open'])
    ck.assume += ['the key bindings of the form library (huh) are part of the specification; its filter mode (/) is not exercised',
                  'patterns are the twelve listed in Prompt.tla']
    return ck.finish()

def diff(c, w, o):
    if o['stuck']: return o['stuck']
    if o['hang']: return 'bab does not end although the specification stores the answer' if w['end'] == 'ok' else 'bab does not end'
    if w['end'] == 'ok':
        if not o['ran']: return 'the run ends before the command although every prompt is answered (exit %s): %s' % (o['code'], o['out'][-300:])
        if o['ans'] != w['ans']: return 'stored answers %r, specified %r' % (o['ans'], w['ans'])
        if o['code'] != 0: return 'exit status %s' % o['code']
    else:
        if o['ran']: return 'the run goes on although the prompt is ' + ('without a default' if w['end'] == 'fail' else 'cancelled')
        if w['end'] == 'fail' and o['code'] == 0: return 'exit status 0 although the prompt is not answered'
    return ''

CHECKS = {'C21': c21}
