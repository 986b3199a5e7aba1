#!/usr/bin/env python3
"""mutrun.py OUT N [FILE_REGEX]: checks a random sample of N source mutants and records which survive (dev tool; needs /tmp/mutate and /tmp/symgo)."""
import sys, os, re, random, subprocess, shutil, threading, queue, json
out, n = sys.argv[1], int(sys.argv[2]); rx = sys.argv[3] if len(sys.argv) > 3 else '.'
R = '/repo'
LIB = 'libs/egts/'
def props(f):
    b = os.path.basename(f)
    if 'pos_data' in b and 'ext' not in b: return 'C05 C08 C10 C14 C11 C01'
    if re.search('ext_pos|ad_sensors|abs_|counters|state|liquid', b): return 'C06 C08 C10 C14 C11 C01'
    if re.search('auth|dispatcher|module|sr_response|result_code|term_id', b): return 'C07 C08 C10 C14 C11 C01'
    if b == 'egts_pkg.go': return 'C03 C02 C04 C13 C12 C10 C14 C01'
    if b in ('crc.go',): return 'C03 C02'
    if b in ('errors.go', 'const_types.go'): return 'C13 C12 C11 C08 C09 C02 C03 C16'
    if f.startswith(LIB): return 'C09 C11 C10 C14 C04 C13 C01'
    if b == 'server.go': return 'C15 C27 C16 C17 C20 C21 C29 C18 C19'
    if 'packet-gen' in f: return 'C26'
    if 'config' in b: return 'C28 C30'
    if '/store/' in f: return 'C23 C24'
    if 'storage' in f: return 'C22 C24 C23 C30'
    return 'C30'
files = [f for f in subprocess.check_output("ls libs/egts/*.go cli/receiver/server/server.go cli/receiver/config/config.go cli/receiver/storage/*.go cli/receiver/storage/store/*/*.go cli/*/*.go | grep -v _test | grep -v egtsplus", shell=True, cwd=R, text=True).split() if re.search(rx, f)]
al = []
for f in files:
    for l in subprocess.check_output(['/tmp/mutate', R + '/' + f], text=True).splitlines():
        k, pos, what = l.split(' ', 2); al.append((f, int(k), pos.split(':')[1], what))
random.seed(int(os.environ.get('MSEED', '1')))
random.shuffle(al)
done = set()
if os.path.exists(out):
    for l in open(out): d = json.loads(l); done.add((d['f'], d['k']))
q = queue.Queue()
for a in [a for a in al if (a[0], a[1]) not in done][:n]: q.put(a)
lock = threading.Lock()
def work(i):
    w = '/tmp/mutw%d' % i
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w + '/v/evidence')
    shutil.copytree(R, w + '/r', symlinks=True)
    os.symlink('/tmp/mutharness', w + '/v/harness'); os.symlink('/verif/known_findings.jsonl', w + '/v/known_findings.jsonl')
    while True:
        try: f, k, line, what = q.get_nowait()
        except queue.Empty: break
        src = subprocess.check_output(['/tmp/mutate', R + '/' + f, str(k)])
        open(w + '/r/' + f, 'wb').write(src)
        res = ''
        try:
            if subprocess.call(['go', 'build', './...'], cwd=w + '/r', stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL): res = 'nobuild'
            elif subprocess.call(['timeout', '60', 'go', 'test', './cli/receiver/server', './cli/receiver/config'], cwd=w + '/r', stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL): res = 'test'
            else:
                res = 'SURVIVED'; inc = ''
                for p in props(f).split():
                    r = subprocess.run(['timeout', '600', '/tmp/symgo', '-repo', w + '/r', '-verif', w + '/v', '-prop', p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    if r.returncode == 1: res = p; break
                    if r.returncode: inc += ' %s:rc%d' % (p, r.returncode)
                    elif 'inconclusive' in r.stdout: inc += ' ' + p
                else:
                    if inc: res += ' inconclusive' + inc
        finally: shutil.copyfile(R + '/' + f, w + '/r/' + f)
        with lock:
            with open(out, 'a') as o: o.write(json.dumps(dict(f=f, k=k, line=line, what=what, res=res)) + '\n')
    shutil.rmtree(w, ignore_errors=True)
ts = [threading.Thread(target=work, args=(i,)) for i in range(int(os.environ.get('MW', '4')))]
for t in ts: t.start()
for t in ts: t.join()
