"""Plants a bug: builds the patch in a scratch copy of /repo, confirms that it builds, passes the
stable tests and that its demonstration tells it from the unchanged tree, and keeps it in /verif/seeded."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open('/opt/vp/BASELINE.json'))
DEMO = '''#!/bin/bash
# runs demo_test.go inside package ./@DIR@ of the tree in the working directory
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s":"%s"}}' "$PWD/@DIR@zz_demo_test.go" "$here/demo_test.go" > "$t/overlay.json"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
TMPDIR="$t" go test @FLAGS@-count=1 -overlay "$t/overlay.json" -run '^TestZZDemo$' ./@DIR@
'''
def sh(c, cwd=None, t=300):
    p = subprocess.run(['bash','-c',c], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
    return p.returncode, p.stdout.decode(errors='replace')

def scratch():
    d = tempfile.mkdtemp(prefix='seed_')
    r = os.path.join(d, 'repo')
    sh(f"cp -a /repo {r}")
    return d, r

def stable(repo):
    rc, o = sh(". /opt/vp/env.sh; go build ./... && go vet . >/dev/null; go test -json ./...", cwd=repo)
    passed = set()
    for l in o.splitlines():
        try: e = json.loads(l)
        except Exception: continue
        if e.get('Action') == 'pass' and e.get('Test'):
            passed.add((e['Package'], e['Test']))
    names = BASE['stable']
    have = {p + '/' + t for p, t in passed}
    miss = [n for n in names if n not in have]
    return miss, o

def plant(id, prop, edits, demo, needs, breaks, dir='', flags=''):
    d, r = scratch()
    try:
        for f, a, b in edits:
            p = os.path.join(r, f); s = open(p).read()
            if s.count(a) != 1:
                print(id, 'EDIT does not match once:', f, s.count(a)); return False
            open(p, 'w').write(s.replace(a, b))
        rc, o = sh('gofmt -l $(git ls-files "*.go"); git diff', cwd=r)
        diff = subprocess.run(['git','diff'], cwd=r, stdout=subprocess.PIPE).stdout
        out = os.path.join(V, 'seeded', id); os.makedirs(out, exist_ok=True)
        open(os.path.join(out, 'patch.diff'), 'wb').write(diff)
        open(os.path.join(out, 'demo_test.go'), 'w').write(demo)
        dm = DEMO.replace('@DIR@', dir).replace('@FLAGS@', flags)
        open(os.path.join(out, 'demo.sh'), 'w').write(dm); os.chmod(os.path.join(out,'demo.sh'), 0o755)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(out,'meta.json'),'w'), indent=1)
        ok = True
        miss, o = stable(r)
        if miss: print(id, 'STABLE TESTS FAIL', miss[:3], o[-1500:] if len(miss) > 10 else ''); ok = False
        rc1, o1 = sh(f"bash {out}/demo.sh", cwd=r)
        rc0, o0 = sh(f"bash {out}/demo.sh", cwd='/repo')
        if rc0 != 0: print(id, 'DEMO FAILS ON CLEAN', o0[-1500:]); ok = False
        if rc1 == 0: print(id, 'DEMO PASSES WITH BUG', o1[-800:]); ok = False
        if 'build failed' in o1: print(id, 'DEMO BUILD', o1[-800:]); ok = False
        # every removed line has to be one of the original repository
        base = subprocess.run(['git','rev-list','--max-parents=0','HEAD'], cwd='/repo', stdout=subprocess.PIPE).stdout.decode().strip()
        cur = None
        touched = False
        for l in diff.decode().splitlines():
            if l.startswith('--- a/'): cur = l[6:]
            elif l.startswith('-') and not l.startswith('---') and l[1:].strip():
                src = subprocess.run(['git','show',f'{base}:{cur}'], cwd='/repo', stdout=subprocess.PIPE).stdout.decode().splitlines()
                if l[1:] in src: touched = True
                else: print(id, 'note: changes a line of ours:', l)
        if not touched: print(id, 'NO ORIGINAL LINE CHANGED'); ok = False
        if not ok:
            shutil.rmtree(out); return False
        print(id, 'ok')
        return True
    finally:
        shutil.rmtree(d)
