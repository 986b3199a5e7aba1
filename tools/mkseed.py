#!/usr/bin/env python3
"""mkseed.py ID PROPERTY: reads a spec from stdin and writes seeded/ID (dev tool).
Spec: '@@ file' followed by blocks '<<<' old '===' new '>>>' ; '@@needs text' '@@breaks text' '@@demo' Go main program until EOF."""
import sys, os, subprocess, tempfile, json, shutil
V = '/verif'
sid, prop = sys.argv[1:3]
spec = sys.stdin.read().split('\n')
edits, needs, breaks, demo = [], '', '', None
i, cur = 0, None
while i < len(spec):
    l = spec[i]
    if l.startswith('@@needs '): needs = l[8:]
    elif l.startswith('@@breaks '): breaks = l[9:]
    elif l.startswith('@@demo'):
        demo = '\n'.join(spec[i+1:])
        if l.strip() == '@@demo server':
            demo = 'package main\n\nimport (\n' + ''.join('\t"%s"\n' % x for x in ('encoding/json', 'errors', 'fmt', 'io', 'net', 'os', 'sync', 'time', 'github.com/kuznetsovin/egts-protocol/cli/receiver/server', 'github.com/kuznetsovin/egts-protocol/cli/receiver/storage')) + ')\n\n' + demo + '\n' + open(V + '/tools/demo_server.go.txt').read()
        break
    elif l.startswith('@@ '): cur = l[3:].strip()
    elif l == '<<<':
        old, new = [], []
        i += 1
        while spec[i] != '===': old.append(spec[i]); i += 1
        i += 1
        while spec[i] != '>>>': new.append(spec[i]); i += 1
        edits.append((cur, '\n'.join(old), '\n'.join(new)))
    i += 1
t = tempfile.mkdtemp(prefix='mkseed')
subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', t + '/w', 'HEAD'])
try:
    w = t + '/w'
    for f, o, n in edits:
        s = open(w + '/' + f).read()
        if s.count(o) != 1: sys.exit('edit of %s: %d matches for %r' % (f, s.count(o), o))
        open(w + '/' + f, 'w').write(s.replace(o, n))
    subprocess.call(['gofmt', '-l'] + list({w + '/' + e[0] for e in edits}))
    d = V + '/seeded/' + sid
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'wb').write(subprocess.check_output(['git', '-C', w, 'diff']))
    open(d + '/demo.go', 'w').write(demo)
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0 when the behaviour is right, nonzero otherwise; cwd is the repository
here="$(cd "$(dirname "$0")" && pwd)"
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s/zzdemo/main.go":"%%s/demo.go"}}' "$PWD" "$here" > "$t/ov.json"
go build -overlay "$t/ov.json" -o "$t/demo" ./zzdemo || exit 4
%scd "$t" && timeout 120 ./demo
''' % ('go build -o "$t/gen" ./cli/packet-gen && go build -o "$t/receiver" ./cli/receiver || exit 4\n' if '"./gen"' in demo or '"./receiver"' in demo else ''))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
finally:
    subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', t + '/w'])
    shutil.rmtree(t, ignore_errors=True)
