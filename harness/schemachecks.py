"""C28: the published JSON schema."""
from engine import *
from engchecks import SIZE
from drychecks import judge_batch
from gramchecks import N, S, I, B, FL, L, M, SL, DG, VP, IP, badvalue, containers, scalar_text

# ---------------------------------------------------------------- documents
class EG(DG):
    """Documents an editor accepts."""
    def when(self): return S(self.r.choice(['true', 'false', '${{ v }}', "${{ v }} == 'a'", '']))
    def plats(self): return SL(*self.r.choice([[], ['linux'], ['linux', 'darwin'], ['windows'], ['darwin', 'windows', 'linux']]))
    def envmap(self): return M(*[[k, S(self.r.choice(['v', '', '3', 'a: b']))] for k in self.r.sample(['A', 'B_C', 'x1', '_Z', 'q'], self.r.randint(0, 3))])
    def share(self, kind, n): return n
    def common(self, kv, par):
        n = DG.common(self, kv, par)
        for k in n.v:
            if k[0] in ('log', 'label') and k[1].t != 's': k[1] = S(scalar_text(k[1]))
        return n
    def run(self, names): return N('l', [self.item(names) for _ in range(self.r.choice([1, 1, 2, 3, 4]))])
    def doc(self):
        r = self.r; n = DG.doc(self)
        for _, c in containers(n):
            for k in c.v:
                if k[0] == 'desc': k[1] = S(scalar_text(k[1]))
        tk = [k[1] for k in n.v if k[0] == 'tasks'][0]
        for k in tk.v:
            if k[0] == 'leaf': k[1] = M(['run', L(M(['log', S('x')]))])
        if r.random() < .3:
            n.v.append(['includes', M(*[[k, M(['babfile', S(r.choice(['sub/Babfile.yml', './sub/babfile.yaml', 'sub/Babfile.dev.yml', 'sub/babfile.x.y.yaml']))])] for k in r.sample(['sub', 'x-y', 'n1:n2'], r.randint(0, 2))])])
        return n

ALL = ['cmd', 'task', 'log', 'prompt', 'parallel', 'dir', 'env', 'silent', 'output', 'platforms', 'when', 'label', 'level', 'type', 'message', 'default', 'defaults', 'options', 'placeholder', 'validate',
       'min', 'max', 'confirm', 'mode', 'limit', 'color', 'desc', 'alias', 'aliases', 'deps', 'vars', 'run', 'tasks', 'includes', 'babfile', 'command', 'Cmd', 'if', 'needs', 'name']
def goodvalue(g, k):
    r = g.r
    return {'cmd': S('echo x'), 'task': S('leaf'), 'log': S('x'), 'prompt': S('p'), 'parallel': L(g.log(True)), 'dir': S('.'), 'env': g.envmap(), 'silent': B(True), 'output': B(False), 'platforms': SL('linux'),
            'when': S('true'), 'label': S('lb'), 'level': S('warn'), 'type': S('input'), 'message': S('m'), 'default': r.choice([S('x'), B(True), I(3)]), 'defaults': SL('oa'), 'options': SL('oa'), 'placeholder': S('x'),
            'validate': S('.*'), 'min': I(1), 'max': I(4), 'confirm': B(True), 'mode': S(r.choice(['tabs', 'grouped', 'interleaved'])), 'limit': I(2), 'color': B(True), 'desc': S('d'), 'alias': S('zz%d' % r.randrange(9999)),
            'aliases': SL('y%d' % r.randrange(9999)), 'deps': SL('leaf'), 'vars': g.envmap(), 'run': L(g.log())}.get(k) or S('x')
NAMES = ['a b', 'a:', ':a', 'a::b', '', 'é', 'a.b', 'a/b', 'a:b:c', 'A_9', '-', '_', '9', 'a:b', ' a']
def wrong(r, k):
    """A value that k mostly does not take."""
    if k in ('alias', 'task') and r.random() < .7: return S(r.choice(NAMES))
    if k in ('aliases', 'deps') and r.random() < .7: return r.choice([SL(r.choice(NAMES)), SL('q1', 'q1'), SL('q1', 'q2', 'q1'), L(I(1)), L(), SL('leaf', 'leaf')])
    if k in ('options', 'defaults', 'platforms') and r.random() < .5: return r.choice([SL('linux', 'linux'), SL(''), L(), L(I(1)), L(B(True)), SL('oa', 'oa')])
    if k in ('env', 'vars') and r.random() < .6: return r.choice([M(['A', I(1)]), M(['A', B(True)]), M(['a-b', S('x')]), M(['1', S('x')]), M(['', S('x')]), M(['a b', S('x')]), M(['é', S('x')])])
    if k == 'babfile': return S(r.choice(['x.yml', 'sub/BABFILE.yml', 'babfile', 'Babfile.yml.bak', 'sub/Babfile.dev.yaml', 'Babfile..yml', 'Babfilex.yml', 'myBabfile.yml', 'Babfile/x.yml', 'babfileyml', 'babfile.ym', '', 'Babfile.json', 'babfile.d/x.yaml']))
    if k == 'includes': return r.choice([L(), S('x'), M(['a', S('sub/Babfile.yml')]), M(['a', M()]), M(['a b', M(['babfile', S('Babfile.yml')])]), M(['a', M(['babfile', S('Babfile.yml')], ['as', S('x')])]), M(['a', M(['babfile', I(1)])])])
    if k == 'tasks' and r.random() < .5: return M()
    if r.random() < .3: return r.choice([S(''), I(1), B(True), L(), M(), FL('1.5'), S('true'), S('3')])
    return badvalue(r, k)

def objects(doc):
    out = containers(doc)
    for k in doc.v:
        if k[0] == 'includes' and k[1].t == 'm': out += [('include', x[1]) for x in k[1].v if x[1].t == 'm']
    return out

def gen(s):
    """(document, every reference resolves)"""
    r = random.Random(s); g = EG(r); doc = g.doc(); refs = not any(k[0] == 'includes' for k in doc.v)
    for _ in range(r.choice([0, 1, 1, 1, 2]) if '/k/' not in s else 1):
        os_ = objects(doc); what, o = r.choice(os_)
        if '/k/' in s:
            key = s.split('/')[3]
            c = [(k, o) for _, o in os_ for k in o.v if k[0] == key]
            if not c: return gen(s + '+')
            k, o = r.choice(c); k[1] = wrong(r, key); refs = refs and key not in ('alias', 'aliases', 'deps', 'task', 'tasks')
            break
        keys = [k[0] for k in o.v]; z = r.random()
        if z < .35 and o.v: k = r.choice(o.v); k[1] = wrong(r, k[0]); refs = refs and k[0] not in ('alias', 'aliases', 'deps', 'task', 'tasks')
        elif z < .75:
            k = r.choice([x for x in ALL if x not in keys]); o.v.append([k, goodvalue(g, k)]); refs = refs and k not in ('includes', 'tasks', 'deps', 'alias', 'aliases')
        elif z < .9 and o.v: o.v.remove(r.choice(o.v)); refs = False
        else:
            tk = [k[1] for k in doc.v if k[0] == 'tasks']
            if tk and tk[0].t == 'm': tk[0].v.append([r.choice(NAMES), r.choice([M(['run', L(g.log())]), M(), S('x')])])
    if r.random() < .01: doc = r.choice([SL('a'), S('tasks'), I(3), M()])
    return doc, refs

class Repeated(Exception): pass
def value(n):
    if n.t == 'm':
        if len({k[0] for k in n.v}) < len(n.v): raise Repeated()
        return {k[0]: value(k[1]) for k in n.v}
    if n.t == 'l': return [value(c) for c in n.v]
    return float(n.plain) if n.t == 'f' else n.v
def tree(n):
    if n.t == 'm': return dict(t='m', v=[[k[0], tree(k[1]), []] for k in n.v], ls=[])
    if n.t == 'l': return dict(t='l', v=[tree(c) for c in n.v], ls=[])
    return dict(t=n.t, x=scalar_text(n) if n.t != 'i' else str(n.v), n=n.v if n.t == 'i' else 0, ls=[])
def odd_float(n):
    """Numbers such as 2.0, which schemas take for integers."""
    if n.t == 'm': return any(odd_float(k[1]) for k in n.v)
    if n.t == 'l': return any(odd_float(c) for c in n.v)
    return n.t == 'f' and float(n.plain).is_integer()

JUDGE = '''
import json, sys, jsonschema
j = json.load(open(sys.argv[1])); out = []
for s in j['schemas']:
    v = jsonschema.Draft7Validator(s); out.append([v.is_valid(d) for d in j['docs']])
json.dump(out, open(sys.argv[2], 'w'))
'''
def c28():
    ck = Check('C28'); bab = build_bab()
    gbin = os.path.join(scratch(), 'genschema')
    r = run(['go', 'build', '-o', gbin, './internal/schema/generate.go'], cwd=REPO, env=GOENV)
    if r.returncode: raise CheckError('the schema generator does not build: ' + r.stdout.decode())
    generated = json.loads(run([gbin]).stdout); published = json.load(open(os.path.join(REPO, 'schema', 'babfile.schema.json')))
    jobs = []
    seeds = ['C28/%d/%d' % (SEED, i) for i in range(SIZE(2500, 20000))] + ['C28/%d/k/%s/%d' % (SEED, k, i) for k in ALL[:35] if k not in ('tasks',) for i in range(SIZE(30, 200))]
    for s in seeds:
        doc, refs = gen(s)
        try: jobs.append((doc, value(doc), refs))
        except Repeated: pass
    jobs = [j for j in jobs if not odd_float(j[0])]
    d = newdir('j')
    def shard(ix):
        a, b = os.path.join(d, '%d.in' % ix[0]), os.path.join(d, '%d.out' % ix[0])
        jdump(dict(schemas=[generated, published], docs=[jobs[i][1] for i in ix]), a)
        run(['python3-vt', '-c', JUDGE, a, b]); g, p = json.load(open(b))
        return list(zip(ix, g, p))
    verdict = {i: (g, p) for sh in pmap(shard, [x for x in shards(list(range(len(jobs))), NCPU) if x], NCPU) for i, g, p in sh}
    def validate(i):
        doc, v, refs = jobs[i]
        if not refs or not verdict[i][0]: return -1
        w = newdir('w'); jdump(v, os.path.join(w, 'Babfile.yml'))
        q = subprocess.run([bab, '--validate'], cwd=w, env=base_env(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
        shutil.rmtree(w, ignore_errors=True)
        return q.returncode
    codes = pmap(validate, range(len(jobs)), 2 * NCPU)
    obs = [dict(doc=tree(jobs[i][0]), schema=verdict[i][0], published=verdict[i][1], validate=codes[i], refs=jobs[i][2]) for i in range(len(jobs))]
    res, tot = judge_batch('EditorCheck', obs)
    ck.add(states=tot[1], transitions=tot[0], traces_validated_against_impl=len(jobs), documents=len(jobs), accepted=sum(q['ok'] for q in res), rejected=sum(not q['ok'] for q in res), accepted_run_through_the_program=sum(c >= 0 and q['cross'] for c, q in zip(codes, res)))
    for j, o, q in zip(jobs, obs, res):
        ck.sample(dict(document=j[1], schema=o['schema'], validate=o['validate']), 2)
        if q['bad']: ck.violation('%s: schema %s published %s validate %s\n%s' % (q['bad'], o['schema'], o['published'], o['validate'], json.dumps(j[1])[:1500]), dict(document=j[1], observed=dict(schema=o['schema'], published=o['published'], validate=o['validate']), bad=q['bad'], want=q['ok']))
    ck.assume.append('the JSON schema validator (python jsonschema, draft 7) is right; numbers such as 2.0 are not generated, drafts disagreeing on them')
    return ck.finish()
