#!/usr/bin/env python3
"""Makes /verif/seeded/<id> from tools/seeds/*.py and confirms each change:
it applies, touches base lines only, builds, keeps the stable tests, and its
demo passes without it and fails with it.  usage: mkseeds.py [id ...]"""
import glob, json, os, re, shutil, subprocess, sys, tempfile
V = '/verif'
BASE = '7ffc77b'
STABLE = [('recovery/ibdata', 'TestAddColumns')] + [('recovery/logs', t) for t in
    ('TestDebug', 'TestError', 'TestFlushLogs', 'TestInfo', 'TestTrace', 'TestWarn')]
ENV = dict(os.environ, GOFLAGS='-buildvcs=false', GOPROXY='off', GOTOOLCHAIN='local')

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, **kw)

def blame(f):
    o = sh(f'git blame -s {f}', '/repo').stdout.split('\n')
    return [l.lstrip('^').startswith(BASE) for l in o]

def imports(m):
    ps = [p for n, p in (('bytes', 'bytes'), ('fmt', 'fmt'), ('os', 'os'), ('exec', 'os/exec'), ('filepath', 'path/filepath'),
        ('strings', 'strings'), ('binary', 'encoding/binary')) if re.search(r'\b' + n + r'\.[A-Z]', m)]
    return 'import (\n' + ''.join(f'\t"{p}"\n' for p in ps) + ')\n\n' if ps else ''

def make(sid, s):
    out = f'{V}/seeded/{sid}'
    t = tempfile.mkdtemp(prefix='seed')
    try:
        subprocess.run(['cp', '-a', '/repo/.', t], check=True)
        for f, old, new in s['edits']:
            p = f'{t}/{f}'
            x = open(p).read()
            if x.count(old) != 1:
                return f'{f}: text found {x.count(old)} times'
            open(p, 'w').write(x.replace(old, new))
        patch = sh('git diff', t).stdout
        old = None
        for l in patch.split('\n'):
            if l.startswith('--- a/'):
                f = l[6:]; b = blame(f)
            m = re.match(r'@@ -(\d+)', l)
            if m: n = int(m.group(1)); continue
            if l.startswith('-') and not l.startswith('---'):
                if not b[n-1]: return f'line {n} of {f} is not of the base'
                old = True; n += 1
            elif l.startswith(' '): n += 1
        if not old: return 'only adds lines'
        r = sh('go build ./...', t)
        if r.returncode: return 'build: ' + r.stdout
        for pkg, name in STABLE:
            r = sh(f'mkdir -p {t}/.t && TMPDIR={t}/.t go test -vet=off -count=1 -run "^{name}$" ./{pkg}', t)
            if r.returncode: return f'{name}: ' + r.stdout[-500:]
        os.makedirs(out, exist_ok=True)
        for x in ('lib.go', 'demo.sh'):
            shutil.copy(f'{V}/tools/seedlib/{x}', out)
        open(f'{out}/main.go', 'w').write('package main\n\n' + imports(s['main']) + 'func main() {\n\tt := newTool()\n' + s['main'].strip('\n') + '\n\tt.done()\n}\n')
        sh(f'gofmt -w {out}/main.go', t)
        open(f'{out}/patch.diff', 'w').write(patch)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(f'{out}/meta.json', 'w'), indent=1)
        open(f'{out}/meta.json', 'a').write('\n')
        os.chmod(f'{out}/demo.sh', 0o755)
        r0 = sh(f'bash {out}/demo.sh', '/repo')
        if r0.returncode: return 'demo fails without the change: ' + r0.stdout
        r1 = sh(f'bash {out}/demo.sh', t)
        if r1.returncode == 0: return 'demo passes with the change'
        if r1.returncode != 1: return f'demo gives {r1.returncode}: ' + r1.stdout
        print('   demo:', r1.stdout.strip().replace('\n', '\n         ')[:300])
        return None
    finally:
        shutil.rmtree(t)

def main():
    specs = {}
    for f in sorted(glob.glob(f'{V}/tools/seeds/*.py')):
        g = {}
        exec(open(f).read(), g)
        specs.update(g['SEEDS'])
    want = sys.argv[1:] or list(specs)
    bad = 0
    for i in want:
        e = make(i, specs[i])
        print(i, specs[i]['property'], 'OK' if e is None else 'REJECTED ' + e, flush=True)
        if e is not None:
            bad += 1
            if os.path.isdir(f'{V}/seeded/{i}'): shutil.rmtree(f'{V}/seeded/{i}')
    sys.exit(1 if bad else 0)
main()
