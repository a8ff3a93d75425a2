"""C31: the installer, run as an unprivileged user against a recorded release service."""
from engine import *
from engchecks import SIZE
from drychecks import judge_batch
import hashlib, io, subprocess, threading, tarfile, zipfile, stat

NOBODY = 65534
TOOLS = ['tr', 'sed', 'grep', 'cut', 'cat', 'mktemp', 'rm', 'head', 'tail', 'gzip', 'install', 'awk', 'basename', 'dirname', 'mv', 'cp', 'mkdir', 'chmod', 'printf', 'env', 'ls', 'wc', 'sort', 'test', 'expr', 'sleep', 'touch', 'tee', 'id', 'rmdir', 'ln', 'true', 'false']
FETCH = r'''#!/usr/bin/python3 -SE
import sys, os, json, signal
root = %r; me = %r
out = url = None; fail = False; wr = ''; a = sys.argv[1:]
while a:
    x = a.pop(0)
    if x in ('--output', '--output-document'): out = a.pop(0)
    elif x in ('--header', '--write-out', '--max-time', '--retry', '--connect-timeout', '--timeout', '--tries', '--user-agent'): v = a.pop(0); wr = v if x == '--write-out' else wr
    elif x == '--fail': fail = True
    elif x.startswith('--'): pass
    elif x.startswith('-') and len(x) > 1:
        if 'f' in x[1:] and me == 'curl': fail = True
        if x[-1] in ('o' if me == 'curl' else 'O'): out = a.pop(0)
        elif x[-1] in 'HwAmT': v = a.pop(0); wr = v if x[-1] == 'w' else wr
    else: url = x
with open(root + '/log', 'a') as f: f.write(url + '\n')
st = json.load(open(root + '/plan.json')).get(url) or dict(status=404, body='', exit=0, kill=False)
body = open(root + '/serve/' + st['body'], 'rb').read() if st['body'] else b'Not Found'
bad = st['status'] >= 400
if not (bad and (fail or me == 'wget')):
    if out and out != '-': open(out, 'wb').write(body)
    else: os.write(1, body)
if st['kill']: os.killpg(0, signal.SIGKILL)
if wr: sys.stdout.write(wr.replace('%%{http_code}', str(st['status'])))
sys.stdout.flush()
sys.exit(st['exit'] and (18 if me == 'curl' else 4) or (8 if bad and me == 'wget' else 22 if bad and fail else 0))
'''
_spawn = threading.Lock()      # no process may be started while a script is open for writing
def script(path, text):
    with _spawn:
        with open(path, 'wb') as f: f.write(text if isinstance(text, bytes) else text.encode())
    os.chmod(path, 0o755)

def gen(r):
    z = r.random()
    c = dict(tag=r.choice(['', '', 'latest', 'v1.0.0', 'v1.0.0', 'v2.0.0', 'v2.0.0', 'v0.0.7', 'v9.9.9', 'v2.0.0-rc.1', 'v1.0.0-dev.2', 'preview-1.0.0']), latest=r.choice(['v2.0.0', 'v1.10.0', 'v0.3.12']), have='',
             os=r.choice(['Linux', 'Linux', 'Linux', 'Darwin', 'MINGW64_NT-10.0', 'MSYS_NT-10.0', 'CYGWIN_NT-10.0', 'FreeBSD', 'OpenBSD', 'Haiku', 'Linux']),
             mach=r.choice(['x86_64', 'x86_64', 'aarch64', 'arm64', 'armv7l', 'armv6l', 'i686', 'riscv32', 'amd64', 's390x', 'ppc64le']), old=r.choice(['none', 'none', 'old']), fault=[])
    c['tags'] = sorted({c['latest'], 'v1.0.0', 'v2.0.0', 'v0.0.7', 'v2.0.0-rc.1', 'v1.0.0-dev.2', 'preview-1.0.0'})
    if r.random() < .3: c['have'] = r.choice([c['latest'], c['latest'].lstrip('v'), '1.0.0', 'v1.0.0', '2.0.0', 'dev', '11.0.0', '1.0.01', '2.0.0-rc.1', '2.0.0-rc.11', 'v1.0.0-dev.2'])
    F = dict(release=['status', 'cut', 'empty', 'kill'], archive=['status', 'cut', 'short', 'tampered', 'kill', 'empty'], sums=['status', 'cut', 'missing', 'other', 'kill', 'empty', 'nearly', 'begin', 'long'],
             verify=['none', 'fail', 'kill'], unpack=['garbage', 'nobin', 'fail', 'kill'], place=['readonly'])
    for st in r.sample(list(F), r.choice([0, 0, 0, 1, 1, 1, 1, 2])): c['fault'].append([st, r.choice(F[st])])
    return c

def archive(c, name, binary, content, zipped):
    b = io.BytesIO(); fs = [('README.md', b'read me\n'), ('completions/bab.bash', b'#\n')] + ([(binary, content)] if binary else [])
    if zipped:
        with zipfile.ZipFile(b, 'w') as z:
            for n, x in fs: z.writestr(n, x)
    else:
        with tarfile.open(fileobj=b, mode='w:gz') as t:
            for n, x in fs:
                i = tarfile.TarInfo(n); i.size = len(x); i.mode = 0o755; t.addfile(i, io.BytesIO(x))
    return b.getvalue()

def run_install(c, seed):
    r = random.Random(seed); fault = dict(c['fault'])
    d = newdir('i'); os.chmod(scratch(), 0o711); os.chmod(d, 0o755)
    sp = r.choice(['', '', ' x'])
    p = {k: os.path.join(d, k + sp) for k in ('bin', 'home', 'tmp', 'work')}; p['serve'] = d + '/serve'
    for x in p.values(): os.makedirs(x)
    repo = os.environ.get('VERIF_REPO', '/repo')
    text = open(os.path.join(repo, 'install.sh'), 'rb').read()
    script(os.path.join(p['work'], 'install.sh'), text)
    for t in TOOLS:
        w = shutil.which(t)
        if w: os.symlink(w, os.path.join(p['bin'], t))
    os.symlink('/bin/sh', os.path.join(p['bin'], 'sh'))
    B = lambda n, s: script(os.path.join(p['bin'], n), s)
    B('uname', '#!/bin/sh\ncase $1 in -m) echo "%s";; *) echo "%s";; esac\n' % (c['mach'], c['os']))
    for t in r.choice([['curl'], ['curl'], ['wget'], ['curl', 'wget']]): B(t, FETCH % (d, t))
    # tools that compute the checksum
    hs = r.choice([['sha256sum'], ['sha256sum'], ['shasum'], ['openssl'], ['gsha256sum'], ['gsha256sum', 'openssl'], ['shasum', 'openssl']])
    if fault.get('verify') == 'none': hs = []
    for t in hs:
        run = {'gsha256sum': '/usr/bin/sha256sum', 'sha256sum': '/usr/bin/sha256sum', 'shasum': '/usr/bin/shasum', 'openssl': '/usr/bin/openssl'}[t]
        if fault.get('verify') == 'fail': B(t, '#!/bin/sh\necho broken >&2; exit 1\n')
        elif fault.get('verify') == 'kill': B(t, '#!/bin/sh\nkill -9 0\n')
        else: B(t, '#!/bin/sh\nexec %s "$@"\n' % run)
    after = {'fail': '\nexit 2', 'kill': '\nkill -9 0'}.get(fault.get('unpack'), '')
    B('tar', '#!/bin/sh\n%s/usr/bin/tar "$@"%s\n' % ('' if after else 'exec ', after))
    B('unzip', '#!/bin/sh\nfor f in "$@"; do :; done\n%s/usr/bin/python3 -m zipfile -e "$f" .%s\n' % ('' if after else 'exec ', after))
    # what the service serves
    tag = c['latest'] if c['tag'] in ('', 'latest') else c['tag']; v = tag.lstrip('v')
    os_, ar = c['os'].lower(), c['mach']
    win = any(os_.startswith(x) for x in ('mingw', 'msys', 'cygwin')); os_ = 'Windows' if win else {'darwin': 'macOS'}.get(os_, os_.capitalize())
    ar = {'aarch64': 'arm64', 'amd64': 'x86_64', 'armv7l': 'armv7', 'armv6l': 'armv6', 'i686': 'i386'}.get(ar, ar)
    ext = '.zip' if win else '.tar.gz'; name = 'bab_%s_%s_%s%s' % (v, os_, ar, ext); binary = 'bab.exe' if win else 'bab'
    new = ('#!/bin/sh\necho "bab version %s"\n#%s\n' % (v, 'x' * r.choice([10, 5000]))).encode()
    good = archive(c, name, binary if fault.get('unpack') != 'nobin' else None, new, win)
    if fault.get('unpack') == 'garbage': good = b'this is no archive\n' * 50
    af = fault.get('archive', '')
    served = {'short': good[:len(good) // 2], 'cut': good[:len(good) // 3], 'empty': b'', 'tampered': archive(c, name, binary, new + b'evil\n', win), 'status': b'Not Found'}.get(af, good)
    sha = lambda x: hashlib.sha256(x).hexdigest()
    lines = [(sha(b'%d' % i), n) for i, n in enumerate(['bab_%s_%s_%s%s' % (v, o, a, e) for o, e in (('Linux', '.tar.gz'), ('macOS', '.tar.gz'), ('Windows', '.zip')) for a in ('x86_64', 'arm64', 'armv7', 'universal')] + ['LICENSE', 'README.md', 'bab_%s_linux_amd64.deb' % v, 'bab-%s.tar.gz' % v]) if n != name]
    sf = fault.get('sums', '')
    if sf == 'other': lines.append((sha(b'other'), name))
    elif sf == 'nearly': h = sha(good); i = r.randrange(64); lines.append((h[:i] + ('0' if h[i] != '0' else '1') + h[i + 1:], name))
    elif sf == 'begin': lines.append((sha(good)[:r.choice([1, 7, 12, 32, 40, 63])], name))
    elif sf == 'long': lines.append((sha(good) + r.choice(['0', 'ab', sha(b'x')]), name))
    elif sf != 'missing': lines.append((sha(good), name))
    r.shuffle(lines)
    sep = r.choice(['  ', '  ', '\t', ' '])
    sums = ''.join(h + sep + n + '\n' for h, n in lines).encode()
    if sf == 'cut': sums = sums[:len(sums) // 2]
    if sf == 'empty': sums = b''
    json_ = ('{"id":1,"tag_name":"%s","update_url":"/bab-sh/bab/releases/tag/%s","update_authenticity_token":"x","login_url":"y"}' % (tag, tag)).encode()
    base = 'https://github.com/bab-sh/bab/releases/'; plan = {}
    def serve(url, body, f):
        k = 'f%d' % len(plan); open(p['serve'] + '/' + k, 'wb').write(body)
        plan[base + url] = dict(status=r.choice([404, 500, 403, 503]) if f == 'status' else 200, body=k, exit=int(f == 'cut'), kill=f == 'kill')
    rf = fault.get('release', '')
    if tag in c['tags']: serve(c['tag'] or 'latest', {'cut': json_[:r.choice([20, 27, 26 + len(tag), 60])], 'empty': b''}.get(rf, json_), rf)
    serve('download/%s/%s' % (tag, name), served, af); serve('download/%s/checksums.txt' % tag, sums, sf)
    jdump(plan, d + '/plan.json'); open(d + '/log', 'w').close()
    # where to
    env = {'PATH': p['bin'], 'HOME': p['home'], 'TMPDIR': p['tmp'], 'LC_ALL': 'C'}; args = []
    z = r.choice(['flag', 'flag', 'env', 'home', 'default', 'relative'])
    tgt = {'flag': d + '/t' + sp, 'env': d + '/t' + sp, 'home': p['home'] + '/.local/bin', 'default': p['home'] + '/.local/bin', 'relative': p['work'] + '/out'}[z]
    if z in ('flag',): args += ['-b', tgt]
    if z == 'relative': args += ['-b', 'out']
    if z == 'env': env['BINDIR'] = tgt
    there = z == 'home' or c['old'] == 'old' or fault.get('place') or r.random() < .5
    oldtext = b'#!/bin/sh\necho old\n'
    if there:
        os.makedirs(tgt); open(tgt + '/other', 'w').write('keep')
    if c['have']:
        ht = '#!/bin/sh\nprintf "bab version %s\\n%s"\n' % (c['have'], r.choice(['', '  commit: 1.2.3\\n  built:  2026-02-03T00:00:00Z\\n']))
        if c['old'] == 'old' and not win and r.random() < .5: oldtext = ht.encode(); env['PATH'] += ':' + tgt
        else: script(os.path.join(p['bin'], 'bab'), ht)
    if c['old'] == 'old': script(os.path.join(tgt, binary), oldtext)
    if r.random() < .2: args += ['-d']
    if c['tag']: args += [c['tag']]
    open(p['home'] + '/.bashrc', 'w').write('# mine\n')
    for a, ds, fs in os.walk(d):
        for x in [a] + [os.path.join(a, f) for f in fs]:
            if not os.path.islink(x): os.chown(x, NOBODY, NOBODY)
    for x in (p['bin'], p['serve'], d): os.chown(x, 0, 0)
    os.chown(d, NOBODY, NOBODY)
    if fault.get('place'): os.chmod(tgt, 0o555)
    how = r.choice(['file', 'file', 'exec', 'pipe'])
    cmd = ['/bin/sh', '-s', '--'] if how == 'pipe' else ['/bin/sh', './install.sh'] if how == 'file' else ['./install.sh']
    with _spawn:
        q = subprocess.Popen(cmd + args, cwd=p['work'], env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                             user=NOBODY, group=NOBODY, extra_groups=[], umask=0o022, start_new_session=True)
    try: out = q.communicate(text if how == 'pipe' else b'', timeout=60)[0]; code, out = q.returncode, out.decode('utf8', 'replace')
    except subprocess.TimeoutExpired: os.killpg(q.pid, signal.SIGKILL); q.wait(); code, out = 255, 'timeout'
    if fault.get('place'): os.chmod(tgt, 0o755)
    f = os.path.join(tgt, binary)
    if not os.path.exists(f): dr = 'none'
    else:
        x = open(f, 'rb').read(); dr = 'new' if x == new and os.stat(f).st_mode & 0o555 == 0o555 else 'old' if x == oldtext and c['old'] == 'old' else 'bad'
    rest = sorted(os.listdir(tgt)) if os.path.isdir(tgt) else []
    others = [x for x in rest if x != binary] != (['other'] if there else []) or open(p['home'] + '/.bashrc').read() != '# mine\n' or (there and open(tgt + '/other').read() != 'keep')
    others = others or (not there and fault.get('unpack') != 'nobin' and dr == 'none' and os.path.lexists(tgt))      # nothing was made in vain
    o = dict(c, dir=dr, others=bool(others), code=code, urls=open(d + '/log').read().split('\n')[:-1])
    shutil.rmtree(d, ignore_errors=True)
    return o, dict(args=args, how=how, where=z, hash=hs, out=out[-1500:], sep=sep)

def c31():
    ck = Check('C31')
    cases = [gen(random.Random('C31/%d/%d' % (SEED, i))) for i in range(SIZE(400, 5000))]
    _, obs = drive(lambda x: run_install(x[1], 'C31/%d/%d' % (SEED, x[0])), enumerate(cases))
    _, out = tlc('InstallMC', workers=4, heap='4g'); a, b = tlc_stats(out); ck.add(design_states=b, design_transitions=a)
    res, tot = judge_batch('InstallCheck', [o for o, _ in obs])
    ck.add(states=tot[1], transitions=tot[0], traces_validated_against_impl=len(obs), installed=sum(o['dir'] == 'new' for o, _ in obs), refused=sum(o['code'] != 0 for o, _ in obs), requests=sum(len(o['urls']) for o, _ in obs))
    for (o, m), q in zip(obs, res):
        ck.sample(dict(case={k: o[k] for k in ('tag', 'os', 'mach', 'have', 'old', 'fault')}, ended=o['code'], directory=o['dir'], urls=o['urls']), 3)
        if q['bad']: ck.violation('%s\ncase %s\nrun %s\nobserved directory %s, exit %s, requests %s\nspecified %s' % (sorted(q['bad']), {k: o[k] for k in ('tag', 'latest', 'os', 'mach', 'have', 'old', 'fault')}, {k: m[k] for k in m if k != 'out'}, o['dir'], o['code'], o['urls'], q['want']) + '\n' + m['out'],
                                  dict(observed=o, run=m, want=q['want']))
    ck.assume.append('the release service, uname and the clock are stand-ins; the installer runs as an unprivileged user in a scratch folder')
    return ck.finish()
