"""C14: well-formed and malformed Babfiles."""
from engine import *
from engchecks import SIZE
from drychecks import judge_batch
from loadchecks import ANSI

# ---------------------------------------------------------------- document trees
class N:
    """A node; shared nodes are written once, with an anchor."""
    def __init__(self, t, v=None, plain=None): self.t, self.v, self.plain, self.ls, self.name = t, v, plain, [], None
def S(x): return N('s', x)
def I(x, text=None): return N('i', x, text)
def B(x): return N('b', x)
def FL(text): return N('f', None, text)
def L(*xs): return N('l', list(xs))
def M(*kv): return N('m', [list(x) for x in kv])
def SL(*xs): return L(*[S(x) for x in xs])

def scalar_text(n):
    return n.v if n.t == 's' else n.plain if n.plain is not None else ('true' if n.v else 'false') if n.t == 'b' else str(n.v)

PLAIN = re.compile(r'^[A-Za-z][A-Za-z0-9_ .-]*[A-Za-z0-9]$')
RESERVED = {'true', 'false', 'null', 'yes', 'no', 'on', 'off', 'y', 'n', 'nan', 'inf', '.nan', '.inf'}

class Emit:
    def __init__(self, r): self.r, self.out, self.anch, self.refs = r, [''], 0, {}
    def count(self, n):
        self.refs[id(n)] = self.refs.get(id(n), 0) + 1
        if self.refs[id(n)] > 1: return
        for c in (n.v if n.t == 'l' else [x[1] for x in n.v] if n.t == 'm' else []): self.count(c)
    def ln(self): return len(self.out)
    def w(self, t): self.out[-1] += t
    def nl(self, ind):
        while self.r.random() < .04: self.out.append(self.r.choice(['', '# note', ' ' * ind + '# task: {x: y}']))
        self.out.append(' ' * ind)
    def anchor(self, n):
        """True if n was written already and only needs an alias."""
        if n.name: self.w('*' + n.name + ' '); return True
        if self.refs[id(n)] > 1: self.anch += 1; n.name = 'n%d' % self.anch; self.w('&' + n.name + ' ')
        return False
    def scal(self, n):
        if n.t != 's': self.w(scalar_text(n)); return
        x = n.v
        if PLAIN.match(x) and x.lower() not in RESERVED and self.r.random() < .5: self.w(x)
        elif "'" not in x and '\n' not in x and x.isprintable() and self.r.random() < .4: self.w("'" + x + "'")
        else: self.w(json.dumps(x, ensure_ascii=False))
    def flow(self, n, multi=None):
        """Flow style on one line; items of multi on lines of their own."""
        if self.anchor(n): return
        n.ls = [self.ln()]
        if n.t == 'm':
            self.w('{')
            for i, kv in enumerate(n.v):
                if i: self.w(', ')
                kv[2:] = [[self.ln()]]
                self.w(kv[0] + ': '); self.flow(kv[1], multi if kv[0] == 'parallel' else None)
            self.w('}')
        elif n.t == 'l':
            self.w('[')
            for i, c in enumerate(n.v):
                if i: self.w(', ')
                if multi is not None: self.nl(multi)
                self.flow(c, multi + 2 if multi is not None else None)
            self.w(']')
        else: self.scal(n)
    def item(self, n, ind):
        """A run item after '- '."""
        nested = n.t == 'm' and any(k[0] == 'parallel' and k[1].t == 'l' for k in n.v)
        if n.name or self.refs[id(n)] > 1 or n.t != 'm' or not n.v or self.r.random() < .5:
            if n.t == 'm' and not n.name: n.v.sort(key=lambda k: k[0] == 'parallel')
            self.flow(n, ind + 2 if nested else None); return
        lines = [self.ln()]
        for i, kv in enumerate(n.v):
            if i: self.nl(ind); lines.append(self.ln())
            kv[2:] = [[self.ln()]]
            self.w(kv[0] + ': ')
            v = kv[1]
            if kv[0] == 'parallel' and v.t == 'l' and v.v and not v.name and self.refs[id(v)] == 1 and self.r.random() < .7:
                v.ls = [self.ln()]
                for c in v.v: self.nl(ind + 2); self.w('- '); self.item(c, ind + 4)
            else: self.flow(v, ind + 2 if kv[0] == 'parallel' else None)
        n.ls = lines
    def run(self, n, ind):
        if n.name or n.t != 'l' or not n.v or self.refs[id(n)] > 1 or self.r.random() < .25: self.flow(n, ind); return
        n.ls = [self.ln()]
        for c in n.v: self.nl(ind); self.w('- '); self.item(c, ind + 2)
    def block(self, n, ind, each):
        n.ls = [self.ln()]
        for kv in n.v:
            self.nl(ind); kv[2:] = [[self.ln()]]; self.w(kv[0] + ': '); each(kv, ind + 2)
    def mapping(self, n, ind):
        if n.t == 'm' and n.v and not n.name and self.refs[id(n)] == 1 and self.r.random() < .5:
            self.block(n, ind, lambda kv, i: self.flow(kv[1]))
        else: self.flow(n)
    def task(self, kv, ind):
        n = kv[1]
        if n.name or n.t != 'm' or not n.v or self.refs[id(n)] > 1: self.flow(n); return
        self.block(n, ind, lambda k, i: self.run(k[1], i) if k[0] == 'run' else self.mapping(k[1], i) if k[0] in ('env', 'vars') else self.flow(k[1]))
    def doc(self, n):
        self.count(n)
        if n.t != 'm': self.flow(n); return '\n'.join(self.out) + '\n'
        n.ls = [1]
        first = True
        for kv in n.v:
            if not first: self.nl(0)
            first = False
            kv[2:] = [[self.ln()]]; self.w(kv[0] + ': ')
            if kv[0] == 'tasks' and kv[1].t == 'm' and kv[1].v: self.block(kv[1], 2, self.task)
            elif kv[0] in ('env', 'vars'): self.mapping(kv[1], 2)
            else: self.flow(kv[1])
        return '\n'.join(self.out) + '\n'

def tree(n):
    if n.t == 'm': return dict(t='m', v=[[k[0], tree(k[1]), k[2] if len(k) > 2 else []] for k in n.v], ls=n.ls)
    if n.t == 'l': return dict(t='l', v=[tree(c) for c in n.v], ls=n.ls)
    return dict(t=n.t, x=scalar_text(n), n=n.v if n.t == 'i' else 0, ls=n.ls)

# ---------------------------------------------------------------- generation
VP = ['^[a-z]+$', '[0-9]{2,3}', 'a|b', '.*', '^(x|y)?$', '\\d+\\.\\d+', '(?i)abc']
IP = ['[', '(a', '*x', 'a{2,1}', 'a)', '[z-a]', 'x**', '(?<n']

class DG:
    def __init__(self, r): self.r, self.k, self.pool = r, 0, []
    def mark(self): self.k += 1; return 'm%d' % self.k
    def text(self): return self.mark() + self.r.choice(['', ' plain text', ': {x}', " it's", ' "q"', ' é', ' # no comment', ' - a', ' 100%', ' *x &y !z', ' a, b'])
    def share(self, kind, n):
        """Sometimes an earlier node of the same kind."""
        c = [x for k, x in self.pool if k == kind]
        if c and self.r.random() < .3: return self.r.choice(c)
        self.pool.append((kind, n)); return n
    def plats(self):
        r = self.r
        return self.share('plat', SL(*r.choice([[], ['linux'], ['linux', 'darwin'], ['windows'], ['darwin', 'windows', 'linux'], ['windows', 'darwin']])))
    def when(self): return self.share('when', self.r.choice([S('true'), S('false'), B(True), B(False), S('plain')]))
    def common(self, kv, par):
        r = self.r
        if r.random() < .2: kv.append(['platforms', self.plats()])
        if r.random() < .2: kv.append(['when', self.when()])
        if par and r.random() < .3: kv.append(['label', r.choice([S('lb%d' % r.randrange(9)), I(7), S('L')])])
        r.shuffle(kv)
        return N('m', kv)
    def log(self, par=False):
        r = self.r
        kv = [['log', S(self.text()) if r.random() < .9 else I(900000 + r.randrange(1000))]]
        if r.random() < .5: kv.append(['level', S(r.choice(['debug', 'info', 'warn', 'error']))])
        return self.common(kv, par)
    def cmd(self, par=False):
        r = self.r
        kv = [['cmd', S('echo ' + self.mark())]]
        if r.random() < .2: kv.append(['silent', B(r.random() < .5)])
        if r.random() < .2: kv.append(['output', B(r.random() < .5)])
        if r.random() < .2: kv.append(['env', self.envmap()])
        if r.random() < .15: kv.append(['dir', S('.')])
        return self.common(kv, par)
    def envmap(self):
        r = self.r
        return self.share('env', M(*[[k, r.choice([S('v'), I(3), B(True), S(''), FL('1.5'), S('a: b')])] for k in r.sample(['A', 'B_C', 'x1', 'Z'], r.randint(0, 3))]))
    def ref(self, names, par=False):
        kv = [['task', S(self.r.choice(names))]]
        if self.r.random() < .2: kv.append(['silent', B(True)])
        return self.common(kv, par)
    def prompt(self):
        r = self.r; ty = r.choice(['confirm', 'input', 'select', 'multiselect', 'password', 'number'])
        kv = [['prompt', S(r.choice(['p', 'q_1', '_x', 'Abc']))], ['type', S(ty)], ['message', S(r.choice(['ask?', 'm', 'a: b']))]]
        opts = r.sample(['oa', 'ob', 'oc', '1', 'two words', 'Rel', 'ABC'], r.randint(1, 4))
        if ty in ('select', 'multiselect'): kv.append(['options', self.share('opts', SL(*opts))]); opts = [scalar_text(x) for x in kv[-1][1].v]
        if r.random() < .6:
            if ty == 'confirm': kv.append(['default', r.choice([B(True), B(False), S('yes'), S('true'), I(1)])])
            elif ty == 'input': kv.append(['default', r.choice([S('d'), I(5), B(True), S('[')])])
            elif ty == 'select': kv.append(['default', S(r.choice(opts))])
            elif ty == 'multiselect': kv.append(['defaults', SL(*r.sample(opts, r.randint(1, len(opts))))])
            if ty in ('select', 'multiselect') and r.random() < .12:
                n = near(r, N('m', kv), kv[-1][0])
                if n: kv[-1][1] = n
            if ty == 'number': kv.append(['default', r.choice([I(5), S('7'), I(-3), S('+4')])])
        if ty == 'input' and r.random() < .3: kv.append(['validate', S(r.choice(VP))])
        if ty in ('number', 'multiselect'):
            if r.random() < .4: kv.append(['min', r.choice([I(-3), I(0), I(1), I(16, '0x10'), I(1000, '1_000')])])
            if r.random() < .4: kv.append(['max', r.choice([I(1), I(2), I(9), I(1000), I(-5)])])
            k = dict((x[0], x[1]) for x in kv)
            if 'min' in k and 'max' in k and k['min'].v > k['max'].v and r.random() < .9: kv = [x for x in kv if x[0] != r.choice(['min', 'max']) or True]; k['max'].v = k['min'].v; k['max'].plain = None
        if ty == 'password' and r.random() < .4: kv.append(['confirm', B(r.random() < .5)])
        if r.random() < .2: kv.append(['placeholder', S('ph')])
        return self.common(kv, False)
    def block(self, names):
        r = self.r
        items = [self.item(names, True) for _ in range(r.randint(1, 4))]
        kv = [['parallel', N('l', items)]]
        if r.random() < .4: kv.append(['mode', S(r.choice(['interleaved', 'grouped', 'tabs']))])
        if r.random() < .4: kv.append(['limit', r.choice([I(0), I(1), I(3), I(16, '0x10'), I(1000, '1_000')])])
        if r.random() < .3: kv.append(['color', B(r.random() < .5)])
        if r.random() < .2: kv.append(['silent', B(r.random() < .5)])
        if r.random() < .2: kv.append(['output', B(True)])
        return self.common(kv, False)
    def item(self, names, par=False):
        r = self.r
        if r.random() < .08:
            return self.share('item', self.log(par))
        z = r.random()
        if z < .4: return self.log(par)
        if z < .75: return self.cmd(par)
        if par: return self.ref(names, par) if names and self.r.random() < .3 else self.log(par)
        if z < .9: return self.block(names)
        if names and r.random() < .3: return self.ref(names)
        return self.block(names) if r.random() < .6 else self.prompt()
    def run(self, names): return N('l', [self.item(names) for _ in range(self.r.choice([1, 1, 2, 3, 4]))])
    def doc(self):
        r = self.r; tasks = [['leaf', M(['run', M()])]]
        tasks[0][1] = M(['run', N('l', [])])
        names = []
        for nm in r.sample(['a', 'b', 'c-d', 'e_f', 'g'], r.randint(1, 4)):
            kv = []
            if r.random() < .3: kv.append(['desc', r.choice([S('what'), I(3)])])
            if r.random() < .2: kv.append(['alias', S('al' + nm)])
            if r.random() < .2: kv.append(['aliases', SL(*['x%d%s' % (i, nm) for i in range(r.randint(0, 2))])])
            if r.random() < .15: kv.append(['vars', self.envmap()])
            if r.random() < .15: kv.append(['env', self.envmap()])
            if r.random() < .1: kv.append(['silent', B(r.random() < .5)])
            if r.random() < .1: kv.append(['output', B(True)])
            if r.random() < .1: kv.append(['dir', S('.')])
            if r.random() < .15: kv.append(['when', self.when()])
            if r.random() < .15: kv.append(['deps', SL('leaf')])
            kv.append(['run', self.run(['leaf'])])
            r.shuffle(kv)
            t = N('m', kv)
            tasks.append([nm, t])
            if r.random() < .1 and not any(k[0] in ('alias', 'aliases') for k in kv): tasks.append([nm + '2', t])
        top = [['tasks', N('m', tasks)]]
        if r.random() < .2: top.append(['vars', self.envmap()])
        if r.random() < .2: top.append(['env', self.envmap()])
        if r.random() < .1: top.append(['silent', B(r.random() < .5)])
        if r.random() < .1: top.append(['output', B(True)])
        if r.random() < .1: top.append(['dir', S('.')])
        r.shuffle(top)
        return N('m', top)

LISTY = lambda r: r.choice([SL('x'), L(), M(['a', S('b')]), M(), L(SL('x')), SL('false'), L(I(1))])
def badvalue(r, k):
    """A value for key k, mostly one it does not take."""
    if k in ('cmd', 'task', 'log', 'when', 'label', 'dir', 'message', 'placeholder', 'desc', 'alias', 'default'): return LISTY(r)
    if k == 'prompt': return r.choice([LISTY(r), S('1x'), S('a b'), S('a-b'), S('é'), S('x.y'), S('_'), S('Z9')])
    if k in ('silent', 'output', 'color', 'confirm'): return r.choice([S('maybe'), I(1), I(0), LISTY(r), S('truee'), FL('1.5')])
    if k in ('env', 'vars'): return r.choice([S('x'), SL('A'), M(['A', SL('b')]), M(['A', S('x')], ['B', M(['c', S('d')])]), I(3), L(M(['A', S('b')]))])
    if k == 'platforms': return r.choice([S('linux'), SL('linux', 'mac'), SL('Linux'), M(['linux', B(True)]), L(SL('linux')), SL('linux', 'windows '), SL('win'), SL('linux', 'amd64')])
    if k == 'level': return r.choice([S('fatal'), S('Info'), S('warning'), S('trace'), S('info '), LISTY(r), I(1), S('err')])
    if k == 'mode': return r.choice([S('tab'), S('Grouped'), S('stream'), LISTY(r), I(1), S('group')])
    if k == 'limit': return r.choice([I(-1), I(-100), FL('1.5'), S('2'), S('two'), LISTY(r), B(True), FL('2.0'), I(0), I(12)])
    if k in ('min', 'max'): return r.choice([FL('0.5'), S('3'), S('x'), LISTY(r), B(True), I(-1000), I(100000), FL('1e3')])
    if k == 'type': return r.choice([S('text'), S('Input'), S('bool'), LISTY(r), S('checkbox'), S('multi-select')])
    if k in ('options', 'deps', 'aliases', 'defaults'): return r.choice([S('oa'), M(['a', S('b')]), L(SL('oa')), L(M(['a', S('b')])), SL('zz')] + ([L()] if k == 'options' else [])) if k not in ('deps', 'aliases') else r.choice([S('leaf'), M(['a', S('b')]), L(SL('leaf')), L(S('leaf'), M(['a', S('b')]))])
    if k == 'validate': return r.choice([S(x) for x in IP + VP] + [LISTY(r)])
    if k == 'parallel': return r.choice([L(), S('x'), M(['log', S('x')]), I(2), L(S('x')), L(SL('a')), L(M())])
    if k == 'run': return r.choice([S('echo'), M(['cmd', S('echo')]), L(S('echo')), L(SL('echo')), L(M()), I(1), L(M(['cmdd', S('x')]))])
    if k == 'tasks': return r.choice([L(), SL('a'), S('a'), I(1), L(M(['a', S('b')]))])
    return LISTY(r)

def containers(doc):
    """(what, mapping) pairs reachable from the document."""
    out = [('doc', doc)]
    def items(l, inb):
        for x in l:
            if x.t != 'm': continue
            b = any(k[0] == 'parallel' for k in x.v)
            out.append(('block' if b else 'item', x))
            for k in x.v:
                if k[0] == 'parallel' and k[1].t == 'l': items(k[1].v, True)
    tk = next((k[1] for k in doc.v if k[0] == 'tasks'), None)
    if tk is None or tk.t != 'm': return out
    for _, t in [x[:2] for x in tk.v]:
        if t.t == 'm':
            out.append(('task', t))
            for k in t.v:
                if k[0] == 'run' and k[1].t == 'l': items(k[1].v, False)
    return out

def near(r, m, k):
    """A default that is almost one of the options."""
    o = next((x[1] for x in m.v if x[0] == 'options' and x[1].t == 'l'), None)
    o = [scalar_text(x) for x in o.v if x.t == 's'] if o else []
    if not o or k not in ('default', 'defaults') or r.random() < .2: return None
    w = r.choice(o); x = r.choice([w.upper(), w.capitalize(), w.swapcase(), w.lower(), w + ' ', ' ' + w, w[:-1], w + 'x', w.replace(' ', '_')])
    return S(x) if k == 'default' else SL(*r.choice([[x], [w, x], [x, w], [w, w]]))

def mutate(g, doc):
    r = g.r
    cs = containers(doc); what, m = r.choice(cs)
    if r.random() < .75: what, m = r.choice([c for c in cs if c[0] in ('item', 'block')] or cs)
    keys = [k[0] for k in m.v]
    lists = [k[1] for _, c in cs for k in c.v if k[0] in ('run', 'parallel') and k[1].t == 'l']
    z = r.random()
    if z < .5 and m.v:
        kv = r.choice([k for k in m.v if k[0] != 'tasks' or r.random() < .1] or m.v)
        if kv[0] == 'cmd' and any(k[0] == 'parallel' for k in m.v): return
        kv[1] = near(r, m, kv[0]) or badvalue(r, kv[0])
    elif what == 'item':
        kind = [k for k in ('cmd', 'task', 'log', 'prompt') if k in keys]
        ty = next((scalar_text(k[1]) for k in m.v if k[0] == 'type' and k[1].t == 's'), '')
        y = r.random()
        if y < .2: m.v[:] = [k for k in m.v if k[0] not in kind]                                   # no kind left
        elif y < .4: k = r.choice([x for x in ('cmd', 'task', 'log', 'prompt') if x not in keys] or ['label']); m.v.append([k, S({'task': 'leaf', 'prompt': 'p'}.get(k, 'echo x'))])
        elif y < .5 and kind: next(k for k in m.v if k[0] == kind[0])[1] = S('')
        elif 'prompt' in keys:
            y = r.random()
            if y < .3: m.v[:] = [k for k in m.v if k[0] != r.choice(['type', 'message', 'options'])]
            elif y < .9:
                k = r.choice(['options', 'defaults', 'validate', 'confirm', 'default', 'min'])
                if k in keys or (k == 'min' and ty not in ('number', 'multiselect')) or (k == 'default' and ty in ('password', 'multiselect')): return
                n = near(r, m, k)
                if n: m.v.append([k, n]); return
                m.v.append([k, {'options': SL('oa', 'ob'), 'defaults': SL(r.choice(['oa', 'zz', 'OA', ' oa', 'o'])), 'validate': S(r.choice(VP + IP)), 'confirm': B(True), 'default': S(r.choice(['zz', '3.5', 'x', '12', 'OA', 'Oa', 'oa ', 'o', 'oab'])), 'min': I(500)}[k]])
            else:
                for k in m.v:
                    if k[0] == 'message': k[1] = S('')
        else:
            k = r.choice(['level', 'platforms', 'when', 'env', 'silent', 'output', 'dir'])
            if k not in keys and not (k == 'level' and 'log' not in keys): m.v.append([k, badvalue(r, k)])
    elif what == 'block':
        k = r.choice(['cmd', 'log', 'task', 'dir', 'env', 'label', 'modes', 'limits', 'prompt', 'deps', 'nested', 'nested', 'prompts', 'empty', 'level'])
        if k in keys: return
        if k in ('nested', 'prompts'):
            p = next(x[1] for x in m.v if x[0] == 'parallel')
            if p.t == 'l': p.v.insert(r.randint(0, len(p.v)), g.prompt() if k == 'prompts' else g.block(['leaf']))
        elif k == 'empty': next(x for x in m.v if x[0] == 'parallel')[1] = L()
        else: m.v.insert(r.randint(0, len(m.v)), [k, S(r.choice(['x', '2']))])
    elif what == 'task': m.v.append([r.choice([k for k in ['alias', 'when', 'dir', 'env', 'vars', 'silent', 'output', 'deps', 'aliases', 'desc'] if k not in keys] or ['zzz']), None]); m.v[-1][1] = badvalue(r, m.v[-1][0])
    elif what == 'doc':
        tk = next(k for k in m.v if k[0] == 'tasks')[1]
        if r.random() < .4 and tk.t == 'm': tk.v.append([r.choice(tk.v)[0], r.choice([S('x'), M(['run', L(g.log())]), SL('a')])]); return
        if r.random() < .4 and tk.t == 'm': tk.v.append(['zz', r.choice([S('x'), SL('a'), I(3), L()])]); return
        k = r.choice([k for k in ['vars', 'env', 'dir', 'silent', 'output'] if k not in keys] or ['zzz']); m.v.append([k, badvalue(r, k)])
    if r.random() < .15 and lists: l = r.choice(lists); l.v.insert(r.randint(0, len(l.v)), r.choice([S('echo'), SL('a'), M(), I(1), M(['cmdd', S('x')]), M(['level', S('info')]), M(['task', S('')])]))

def has_prompt(n):
    if n.t == 'm': return any(k[0] == 'prompt' or has_prompt(k[1]) for k in n.v)
    return n.t == 'l' and any(has_prompt(c) for c in n.v)

def gen_doc(r):
    g = DG(r); doc = g.doc(); z = r.random()
    for _ in range(0 if z < .4 else 1 if z < .7 else r.randint(2, 4)): mutate(g, doc)
    if r.random() < .01: doc = r.choice([SL('a'), S('tasks'), I(3)])
    return doc

KEYS = ['cmd', 'task', 'log', 'prompt', 'when', 'label', 'dir', 'message', 'placeholder', 'desc', 'alias', 'default', 'silent', 'output', 'color', 'confirm', 'env', 'vars', 'platforms', 'level', 'mode', 'default', 'default', 'defaults',
        'limit', 'limit', 'min', 'max', 'type', 'options', 'deps', 'aliases', 'defaults', 'validate', 'validate', 'parallel', 'run']
def one_fault(r, key):
    """A document whose only doubtful value is one of key."""
    while True:
        doc = DG(r).doc()
        c = [(m, k) for _, m in containers(doc) for k in m.v if k[0] == key]
        if c: m, k = r.choice(c); k[1] = near(r, m, key) or badvalue(r, key); return doc

def gen(s):
    r = random.Random(s)
    return one_fault(r, s.split('/')[3]) if s.startswith('C14k') else gen_doc(r)

LINE = re.compile(r'^(?:(DEBU|INFO|WARN|ERRO) )?((?:m\d|900\d).*)$')
PAR = re.compile(r'^\[(.*?)\]\s*(?:(DEBUG|DEBU|INFO|WARN|ERROR|ERRO) )?\s*((?:m\d|900\d).*)$')
MARK = re.compile(r'^(?:\[.*?\]\s*)?(?:DEBUG?|INFO|WARN|ERRO|ERROR)?\s*(?:m\d|900\d)', re.M)
LV = {'DEBU': 'debug', 'INFO': 'info', 'WARN': 'warn', 'ERRO': 'error', 'DEBUG': 'debug', 'ERROR': 'error', None: 'cmd'}

def run_doc(bab, doc, seed):
    r = random.Random(seed); e = Emit(r); text = e.doc(doc)
    d = newdir('g'); open(d + '/Babfile.yml', 'w').write(text)
    env = base_env()
    def go(*a):
        q = subprocess.run([bab, *a], cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
        return q.returncode, ANSI.sub('', q.stdout.decode('utf8', 'replace'))
    code, raw = go('--validate')
    lines = sorted({int(x) for x in re.findall(r'^(?:ERRO)?\s*\S*Babfile\.yml:(\d+):', raw, re.M)})
    names = []
    if doc.t == 'm':
        tk = [k[1] for k in doc.v if k[0] == 'tasks'][0]
        if tk.t == 'm': names = [k[0] for k in tk.v if not (k[1].t == 'm' and has_prompt(k[1]))]
    runs = []; marks = 0
    for nm in names[:5] if code == 0 else r.sample(names, min(1, len(names))):
        vb = r.random() < .4
        c, so = go(nm, *(['-v'] if vb else []))
        marks += len(MARK.findall(so))
        seq = []; par = []
        for l in so.split('\n'):
            m = LINE.match(l)
            if m: seq.append([LV[m.group(1)], m.group(2)])
            m = PAR.match(l)
            if m: par.append([m.group(1).strip(), LV[m.group(2)], m.group(3)])
        runs.append(dict(task=nm, verbose=vb, code=c, seq=seq, par=par))
    shutil.rmtree(d, ignore_errors=True)
    return dict(doc=tree(doc), validate=code, lines=lines, markers=0 if code == 0 else marks, runs=runs if code == 0 else []), text, raw

def c14():
    ck = Check('C14'); build_probe(); bab = build_bab()
    jobs = [('C14/%d/%d' % (SEED, i)) for i in range(SIZE(900, 12000))]
    jobs += ['C14k/%d/%d/%s' % (SEED, 1000 * j + i, k) for j, k in enumerate(KEYS) for i in range(SIZE(20, 100))]
    _, out = drive(lambda s: run_doc(bab, gen(s), s + 'e'), jobs, 2 * NCPU)
    res, tot = judge_batch('GrammarCheck', [o for o, _, _ in out])
    ck.add(states=tot[1], transitions=tot[0], traces_validated_against_impl=sum(1 + len(o['runs']) for o, _, _ in out), documents=len(out), accepted=sum(q['ok'] for q in res), rejected=sum(not q['ok'] for q in res), lines_named=sum(len(o['lines']) for o, _, _ in out))
    for (o, text, raw), q in zip(out, res):
        ck.sample(dict(babfile=text, validate=o['validate'], lines=o['lines']), 2)
        if q['bad']: ck.violation('%s: %s\nlines %s\n%s\n%s\n%s' % (q['bad'], json.dumps(q['want'])[:900], o['lines'], raw[:600], text, json.dumps(o['runs'])[:600]), dict(babfile=text, observed={k: o[k] for k in ('validate', 'lines', 'runs')}, want=q['want']))
    ck.assume.append('not generated, being unspecified: null values, booleans written otherwise than true and false, unknown keys outside parallel blocks, repeated keys, merge keys')
    return ck.finish()
