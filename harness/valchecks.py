"""C16, C17: substitution and conditions, in bulk."""
from engine import *
from engchecks import SIZE
from engine import _lk2
from drychecks import judge_batch
from effchecks import render_file, J
from loadchecks import ANSI

# text without control characters that a YAML double-quoted scalar and argv can carry
PLAIN = ['a', 'b c', ' ', '  ', "'", '"', '\\', '$', '$$', '{', '}', '{{', '}}', '${', '${x}', '$x', '$(x)', '`', '%s', '%', '#', ';', '&', '|', '*', '~', '=', '==', '!=', "== 'a'", 'é', '日本', '“', '\u00a0', '.', '-', '_', '0', 'true', 'false', 'null', '<b>', '\\n', '\\0', 'ESCAPED_BRACE', 'x' * 40]
CTRL = ['\n', '\r\n', '\t', '\r', '\x1b[31m', '\x07', '\x7f', '\u0085', '\u2028']
REFS = ['${{ x }}', '${{x}}', '${{  y  }}', '${{\tx\t}}', '${{ z }}', '${{ env.A }}', '${{env.B}}', '${{ env.NOPE }}', '${{ under_score }}', '${{ X1 }}', '${{ env.A_B }}']
NOREF = ['${{}}', '${{ }}', '${{ 1x }}', '${{ x y }}', '${{ x', '${{ x }', '$ {{ x }}', '${ { x } }', '${{ x-y }}', '${{ é }}', '${{ "x" }}', '{{ x }}', '${{{ x }}}', '$${{ x }}', '$${{', '$$${{ x }}', '$$$${{ x }}', '$${{ nope }}', '$${{ ${{ x }} }}', '${{ ${{ x }} }}', '${{ .x }}', '${{ $x }}', '$${', '$$ {{']
REFNL = ['${{\nx\n}}', '${{ x\r\n}}']
BADREF = ['${{ nope }}', '${{ x.y }}', '${{ x. }}', '${{ envA }}', '${{ Env.A }}', '${{ X }}', '${{ _ }}', '${{ env }}', '${{ x1 }}']

class VGen:
    def __init__(self, r, env): self.r = r; self.multi = {k for k, v in env.items() if not re.match(r'^[^\x00-\x1f\x7f\u0085\u2028]*$', v)}
    def nl(self, x): return any('env.%s ' % k in x + ' ' or 'env.%s}' % k in x for k in self.multi)
    def text(self, vis, ctrl=True, undef=0.0, n=None):
        r = self.r; out = []
        for _ in range(n or r.choice([1, 1, 2, 3, 4, 6])):
            z = r.random()
            if r.random() < undef: out.append(r.choice(BADREF))
            elif z < .42: out.append(r.choice([x for x in REFS + (REFNL if ctrl else []) if not self.need(x) - vis and (ctrl or not self.nl(x))]))
            elif z < .6: out.append(r.choice([x for x in NOREF if ctrl or '${{ ${{' not in x]))
            elif z < .9 or not ctrl: out.append(r.choice(PLAIN))
            else: out.append(r.choice(CTRL))
        return ''.join(out)
    def need(self, x):
        m = re.search(r'\$\{\{\s*([\w.]+)\s*\}\}', x)
        return {m.group(1)} if m and not m.group(1).startswith('env.') else set()
    def value(self, ctrl=True):
        r = self.r
        return ''.join(r.choice(PLAIN + NOREF + (CTRL if ctrl else [])) for _ in range(r.choice([0, 1, 1, 2, 3])))

def safe(s):
    """Texts whose references are all to names in them being defined; used to avoid accidental undefined names."""
    return s

OSV = ['', 'osA', ' sp ', '${{ x }}', '$${{', "q'q", 'a\nb', '== ', 'false', 'é']
NAMES = ['x', 'y', 'z', 'under_score', 'X1']
def gen_interp(r, n):
    env = {k: r.choice(OSV) for k in ['A', 'B', 'A_B'] if r.random() < .8}
    g = VGen(r, env)
    gl, tv = [], []
    defd = set()
    def define(out, names, vis):
        order = list(names); r.shuffle(order)
        have = set(vis)
        new = []
        for k in order:
            # references to already defined names (outer scope or earlier in this scope), or to text that only looks like one
            ok = have - set(order) | {a for a, _ in new}
            v = g.text(ok, undef=0) if r.random() < .6 else g.value()
            new.append([k, v])
        r.shuffle(new)            # written in any order
        out += new
        return have | set(order)
    defd = define(gl, r.sample(NAMES, r.randint(2, 5)), defd)
    defd = define(tv, r.sample(NAMES, r.randint(0, 3)), defd)
    if r.random() < .06: (gl if r.random() < .5 else tv).append([r.choice(['c1', 'x']), r.choice(['${{ c2 }}', '${{ c1 }}', '$${{ c1 }}', 'a${{ nope }}'])])
    if r.random() < .02: k = r.choice([a for a, _ in gl]); tv.append([k, r.choice(['${{ %s }}', '${{ %s }}-b', 'a${{%s}}']) % k])     # a cycle, whatever is outside
    if r.random() < .05: tv += [['c1', '${{ c2 }}'], ['c2', r.choice(['${{ c1 }}', '$${{ c1 }}', '${{ y }}'])]]
    gl = list(dict((k, [k, v]) for k, v in gl).values()); tv = list(dict((k, [k, v]) for k, v in tv).values())
    vis = {k for k, _ in gl} | {k for k, _ in tv}
    items = []
    und = r.choice([0, 0, 0, .004])
    dn = [('d1', 'in d'), ('d2', "q'q"), ('d3', '$x'), ('d4', '${{ x }}'), ('d5', 'é'), ('d6', '$$')]
    gl += [[k, v if k != 'd4' else '$' + v] for k, v in dn]
    vis |= {k for k, _ in dn}
    dirs = {}
    for i in range(n):
        id = 'n%d' % i
        z = r.random()
        if z < .62:
            t = g.text(vis, undef=und)
            if not t.strip(): t = 'x' + t
            e = [['V%d' % j, g.text(vis, undef=und)] for j in range(r.choice([0, 1, 1, 2]))]
            d = ''
            if r.random() < .2: d = r.choice(['', 'p-', './']) + '${{ %s }}' % r.choice(dn)[0] if r.random() < .9 else '$${{ d1 }}'
            if d.startswith('./'): d = d[2:]
            items.append(dict(k='cmd', id=id, text=t, env=e, dir=d, when=''))
        elif z < .9:
            items.append(dict(k='log', id=id, text=id + '|' + g.text({v for v in vis if v.startswith('d')}, ctrl=False, undef=und) + '|', env=[], dir='', when=''))
        else:
            t = 'd' + g.text(vis, undef=und)
            it = dict(k='prompt', id=r.choice(NAMES + ['pr']), text=t, env=[['message', 'm' + (g.text(vis, undef=und or .002) if r.random() < .5 else '')]], dir='', when='')
            z = r.random()      # what a prompt is given besides its default is substituted as well
            if z < .2: it['env'].append(['placeholder', 'p' + g.text(vis, undef=und or .002)])
            elif z < .5:
                op = ['o%d' % j + g.text(vis, undef=und or .001, n=2) for j in range(r.randint(1, 3))]
                it.update(type='select' if z < .35 else 'multiselect')
                dfs = [t] if z < .35 else [t] + r.sample(op, r.randint(0, len(op)))
                it['text'] = ','.join(dfs); it['opts'] = op + [t]; it['defs'] = dfs
                it['env'] += [['o%d' % j, o] for j, o in enumerate(op)]
            items.append(it)
            vis = vis | {items[-1]['id']}
    tenv = [['T%d' % j, g.text(vis - {'pr'} - {it['id'] for it in items if it['k'] == 'prompt'} | {k for k, _ in gl + tv} & {k for k, _ in gl + tv}, undef=0)] for j in range(r.choice([0, 1, 2]))]
    return dict(env=env, scopes=[gl, tv], tenv=tenv, items=items)

def run_values(bab, e, seed):
    r = random.Random(seed)
    d = os.path.realpath(newdir('v'))
    for pre in ('', 'p-'):
        for v in ('in d', "q'q", '$x', '${{ x }}', 'é', '$$', '${{ d1 }}'): os.makedirs(os.path.join(d, pre + v), exist_ok=True)
    L = []
    def jq(s): return json.dumps(s) if all(ord(c) < 0x10000 for c in s) else json.dumps(s, ensure_ascii=False)
    L.append('vars: {%s}' % ', '.join('%s: %s' % (k, jq(v)) for k, v in e['scopes'][0]))
    L.append('tasks:\n  a:\n    vars: {%s}\n    env: {%s}\n    run:' % (', '.join('%s: %s' % (k, jq(v)) for k, v in e['scopes'][1]), ', '.join('%s: %s' % (k, jq(v)) for k, v in e['tenv'])))
    for it in e['items']:
        y = {'cmd': {'cmd': it['text'], 'silent': True, 'env': dict([['BV_ID', it['id']]] + it['env'])}, 'log': {'log': it['text']},
             'prompt': dict({'prompt': it['id'], 'type': it.get('type', 'input')}, **{k: v for k, v in it['env'] if k in ('message', 'placeholder')})}[it['k']]
        if it['k'] == 'prompt':
            if 'opts' in it: y['options'] = it['opts']
            if y['type'] == 'multiselect': y['defaults'] = it['defs']
            else: y['default'] = it['text']
        if it['dir']: y['dir'] = it['dir']
        if it['when']: y['when'] = it['when']
        L.append('      - {%s}' % ', '.join('%s: %s' % (k, jq(v) if isinstance(v, str) else json.dumps(v)) for k, v in y.items()))
    write_files(d, {'Babfile.yml': '\n'.join(L) + '\n'})
    fk = os.path.join(scratch(), 'fakesh')
    with _lk2:
        os.makedirs(fk, exist_ok=True)
        if not os.path.exists(fk + '/sh'): shutil.copy(os.path.join(scratch(), 'probe'), fk + '/sh')
    env = dict(e['env']); env['PATH'] = fk + ':' + base_env()['PATH']
    s = Session(bab, ['a'], d, env=env)
    s.finish(60)
    got = []
    mine = {k for it in e['items'] for k, _ in it['env']} | {k for k, _ in e['tenv']}
    for x in s.dumps:
        en = dict(v.split('=', 1) for v in x['env'])
        got.append(dict(id=en.get('BV_ID', '?'), text=x['args'][1] if len(x['args']) > 1 else '?', env=[[k, v] for k, v in en.items() if k in mine], cwd=x['cwd']))
    for l in ANSI.sub('', s.out[2].decode('utf8', 'replace')).split('\n'):
        m = re.match(r'^(?:INFO|WARN) ((\w+)\|.*)$', l)
        if m: got.append(dict(id=m.group(2), text=m.group(1), env=[], cwd=''))
    shutil.rmtree(d, ignore_errors=True)
    benv = base_env(); benv.update(env)
    err = s.out[2].decode('utf8', 'replace')
    return dict(base=d, env=[[k, v] for k, v in benv.items()], scopes=e['scopes'], tenv=e['tenv'], items=e['items'], got=got, code=s.code if s.code is not None else -1), err, '\n'.join(L)

def val_check(pid, entries):
    ck = Check(pid); build_probe(); bab = build_bab()
    _, obs = drive(lambda x: run_values(bab, x[1], x[0]), enumerate(entries), 2 * NCPU)
    res, tot = judge_batch('ValuesCheck', [o for o, _, _ in obs])
    ck.add(states=tot[1], transitions=tot[0], traces_validated_against_impl=len(obs), items=sum(len(o['items']) for o, _, _ in obs), observed_items=sum(len(o['got']) for o, _, _ in obs),
           failed_runs=sum(o['code'] != 0 for o, _, _ in obs), distinct_texts=len({it['text'] + it['when'] for o, _, _ in obs for it in o['items']}))
    for (o, err, text), q in zip(obs, res):
        ck.sample(dict(scopes=o['scopes'], items=o['items'][:3], got=o['got'][:3], code=o['code']), 2)
        if q['bad']:
            ck.violation('%s exit %s\nspecified/observed difference %s\nmessages %s\n%s' % (q['bad'], o['code'], json.dumps(q['want'])[:1500], err[-600:], text[:1500]), dict(babfile=text, observed=o, bad=q['bad'], want=q['want']))
    return ck

def c16():
    es = []
    for i in range(SIZE(120, 1500)):
        r = random.Random('C16/%d/%d' % (SEED, i)); es.append(gen_interp(r, SIZE(30, 40)))
    ck = val_check('C16', es)
    ck.assume.append('NUL characters are excluded (they cannot occur in arguments or environments); log texts are one line')
    return ck.finish()

# ---------------------------------------------------------------- conditions
CV = ['', ' ', 'a', 'b', 'false', 'FALSE', 'False ', ' false', 'true', "'", '"', "''", '""', "'a'", '"a"', "a' == 'b", "a == 'a'", "a != 'a'", "== 'a'", "!= ''", "== ''", 'a\nb', '\na', 'a\n', '\n', '\t', "it's", 'a"b', '==', '!=', '=', "x == 'y' != 'z'", '0', 'no', '$${{ x }}', 'A', 'a ', ' a', "'a", 'a"', 'é', "\"false\"", "'false'", "a\n== 'a'"]
# texts that are different although some notion of equality would take them for the same, or near
NEAR = [['1', '1.0', '1.10', '1.1', '01', '+1', '1e0', '0x1', ' 1', '1,0', '10'], ['true', 'True', 'TRUE', 'yes', 'on', '1', 't', 'y'], ['false', 'no', 'off', '0', 'null', 'nil', 'f', 'n', '~'],
        ['é', 'e\u0301', 'É', 'e'], ['a', 'ab', 'a*', 'a.', '^a$', 'a|b', '?', '*', '.', '[a]', '%61', 'a\\'], ['v1.2', '1.2', 'v1.2.0', '1.2.0'], ['/a/b', '/a//b', '/a/b/', '/a/./b', 'a/b'],
        ['a b', 'a  b', 'a\tb', 'ab', 'a-b', 'a_b'], ['ss', 'ß', 'SS'], ['K', '\u212a', 'k'], ['linux', 'Linux', 'lin', 'linux '], ['$HOME', '~', '/root', '${HOME}'], ['a', 'b', 'a,b', 'b,a', 'a, b']]
def near_conds(r, fam, n):
    Q = lambda v: (lambda q: q + v + q)(r.choice('\'"'))
    return [r.choice(['${{ x }}', '${{ y }}', '${{ env.A }}', '"${{ x }}"', r.choice(fam), Q(r.choice(fam))]) + r.choice([' == ', ' != ', '==', ' !='] + [' == ', ' != '] * 3) + r.choice([Q(r.choice(fam)), Q('${{ y }}'), Q('${{ x }}')])
            if r.random() < .9 else r.choice(['${{ x }}', r.choice(fam), '${{ x }}${{ y }}']) for _ in range(n)]
def conds(r, n):
    out = []
    L = ['${{ x }}', "'${{ x }}'", '"${{ x }}"', '${{ x }}${{ y }}', 'a', '', "'a'", '${{ env.A }}', ' ${{ x }} ', 'pre-${{ x }}', "''", 'false', '"a', '$${{ x }}', "a' == 'b", 'x = y', '${{ x }} != ', '${{x}}\n']
    OP = [' == ', ' != ', '==', '!=', '  ==\t', ' = ', ' === ', ' !== ', '\n== ', ' == == ', ' != == ', ' <> ']
    R = ["'a'", '"a"', "''", '""', "'false'", "'${{ x }}'", '"${{ y }}"', "'a", 'a', "'a' ", '"\'a\'"', "'\"a\"'", "'a\nb'", "' a'", "'a''", "'it's'", "'a'b'", '"a\'', "'${{ env.A }}'", "'x' == 'x'", "'$${{ x }}'", "'==' "]
    for _ in range(n):
        z = r.random()
        if z < .68: c = r.choice(L) + r.choice(OP[:4] if r.random() < .7 else OP) + r.choice(R)
        elif z < .9: c = r.choice(['', ' ', '\t']) + r.choice(['${{ x }}', '${{ y }}', '${{ env.A }}', 'false', 'a', '', '${{ x }}${{ y }}', "'false'", 'FaLsE', '$${{ x }}', '"${{ x }}"', "${{ x }} 'a'"]) + r.choice(['', ' ', '\n'])
        else: c = ''.join(r.choice(['${{ x }}', "'", '"', '=', '!', '==', '!=', 'a', ' ', '\n', "'a'", 'false']) for _ in range(r.randint(1, 6)))
        out.append(c)
    return out
def c17():
    es = []
    for i in range(SIZE(260, 3000)):
        r = random.Random('C17/%d/%d' % (SEED, i))
        items = []; fam = r.choice(NEAR) if i % 4 == 3 else None; V = fam or CV
        for k, c in enumerate(near_conds(r, fam, 40) if fam else conds(r, 40)):
            items.append(dict(k='log' if r.random() < .9 else 'cmd', id='n%d' % k, text='n%d|' % k, env=[], dir='', when=c))
        if r.random() < .04: items.insert(r.randrange(len(items)), dict(k='log', id='u', text='u|', env=[], dir='', when="${{ nope }} == 'a'" if r.random() < .5 else "a == '${{ nope }}'"))
        es.append(dict(env={'A': r.choice(V)} if r.random() < .8 else {}, scopes=[[['x', r.choice(V)], ['y', r.choice(V)]], []], tenv=[], items=items))
    ck = val_check('C17', es)
    ck.add(values=len(CV) + sum(map(len, NEAR)))
    return ck.finish()
