#!/usr/bin/env python3
"""Mutation campaign: which small changes of /repo no check reports.
usage: mutate.py MUTANTS.jsonl COVERDIR OUT.jsonl [workers [seed [limit]]]
COVERDIR holds <id>.txt (COVER=... of the checker) and t.txt (seconds).
Mutants already in OUT.jsonl are skipped.  Works on copies of /repo only."""
import collections, glob, json, os, random, shutil, subprocess, sys, tempfile, threading, time
mf, cov, out = sys.argv[1:4]
workers = int(sys.argv[4]) if len(sys.argv) > 4 else 4
random.seed(int(sys.argv[5]) if len(sys.argv) > 5 else 1)
limit = int(sys.argv[6]) if len(sys.argv) > 6 else 10**9
CHK = os.environ.get('CHK', '/tmp/chk')
secs = {l.split()[0]: int(l.split()[1]) for l in open(f'{cov}/t.txt')}
lines = collections.defaultdict(set)
for f in glob.glob(f'{cov}/*.txt'):
    if f.endswith('/t.txt'): continue
    for l in open(f):
        p, w = l.rstrip('\n').split('\t')
        if w.startswith('/repo/'): lines[w[6:]].add(p)
muts = [json.loads(l) for l in open(mf)]
done = set()
if os.path.exists(out):
    for l in open(out):
        r = json.loads(l); done.add((r['File'], r['From'], r['To'], r['New']))
random.shuffle(muts)
seen = collections.Counter()
todo = []
for m in muts:
    if (m['File'], m['From'], m['To'], m['New']) in done: continue
    if m['File'].startswith('recovery') and not m['File'].endswith('const.go') and not any(lines.get(f"{m['File']}:{k}") for k in range(m['Line']-3, m['Line']+4)): continue
    todo.append(m)
todo = todo[:limit]
lock = threading.Lock()
ENV = dict(os.environ, GOFLAGS='-buildvcs=false', GOPROXY='off', GOTOOLCHAIN='local', FIRST='1', GOMAXPROCS='2')

def near(m):
    ps = set()
    for k in range(m['Line']-3, m['Line']+4):
        ps |= lines.get(f"{m['File']}:{k}", set())
    if m['File'].startswith('cmd/'): ps |= {'C01', 'C02', 'C04', 'C05', 'C07', 'C08'}
    if m['File'].endswith('const.go') or not ps:
        if m['File'].endswith('redo/const.go'): ps |= {'C18', 'C19', 'C20', 'C17', 'C33'}
        elif m['File'].endswith('const.go'): ps |= {'C10', 'C12', 'C13', 'C24', 'C26', 'C27', 'C29', 'C34'}
    if 'logs' in m['File']: ps |= {'C06', 'C07'}
    if not os.environ.get('ALL'):
        ps -= {'C22', 'C39'}
        if not any(m['Func'].startswith(x) for x in ('getAll', 'add', 'move', 'ParseDict', 'makeSys', 'parseSys')): ps -= {'C29', 'C30', 'C31', 'C34'}
        if len(ps) > 6 and m['File'].endswith('utils.go'): ps -= {'C18', 'C22', 'C39', 'C27'} 
    return sorted(ps, key=lambda p: secs.get(p, 0)) + [p for p in ('C02', 'C08', 'C01') if p not in ps]

def one(m):
    t = tempfile.mkdtemp(prefix='mx')
    try:
        subprocess.run(['cp', '-a', '/repo/.', t], check=True)
        s = open(f"{t}/{m['File']}", 'rb').read()
        s = s[:m['From']] + m['New'].encode() + s[m['To']:]
        open(f"{t}/{m['File']}", 'wb').write(s)
        r = subprocess.run('go build ./...', cwd=t, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, text=True)
        if r.returncode: return 'nobuild', ''
        opens = []
        ps = near(m)
        for p in ps:
            try:
                r = subprocess.run([CHK, '-repo', t, '-prop', p, '-n'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, timeout=600)
            except subprocess.TimeoutExpired:
                opens.append(p + ':timeout'); continue
            if r.returncode == 1 and 'VIOLATION property=' + p in r.stdout:
                return 'killed', p
            if r.returncode not in (0, 1): opens.append(f'{p}:rc{r.returncode}')
            n = r.stdout.count('UNDECIDED')
            if n: opens.append(f'{p}:{n}')
        return 'survived', ' '.join(opens) or ','.join(ps)
    finally:
        shutil.rmtree(t, ignore_errors=True)

def work():
    while True:
        with lock:
            if not todo: return
            m = todo.pop()
        t0 = time.time()
        try: st, by = one(m)
        except Exception as e: st, by = 'error', repr(e)
        with lock:
            open(out, 'a').write(json.dumps(dict(m, status=st, by=by, s=int(time.time()-t0))) + '\n')

ts = [threading.Thread(target=work) for _ in range(workers)]
for t in ts: t.start()
for t in ts: t.join()
