"""Tries edits against the owning checks without keeping them: trybug.py FILE [id...]; FILE defines B = [(id, prop, [(file, old, new)...])]"""
import os, subprocess, sys, tempfile, shutil, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seedlib
V = seedlib.V
ns = {}
exec(open(sys.argv[1]).read(), ns)
for id, props, edits in ns['B']:
    if sys.argv[2:] and id not in sys.argv[2:]: continue
    d, r = seedlib.scratch()
    try:
        bad = False
        for f, a, b in edits:
            p = os.path.join(r, f); s = open(p).read()
            if s.count(a) < 1: print(id, 'NO MATCH', f, a[:50].replace('\n','|')); bad = True; break
            open(p, 'w').write(s.replace(a, b, 1))
        if bad: continue
        miss, o = seedlib.stable(r)
        if miss: print(id, 'STABLE FAIL', miss[:2], o[-600:] if len(miss) > 5 else ''); continue
        for prop in props.split(','):
            t = time.time()
            p = subprocess.run(['bash', V+'/check.sh', prop, 'quick'], env=dict(os.environ, GOAST_REPO=r), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            o = p.stdout.decode(errors='replace').splitlines()
            v = [l for l in o if l.startswith('violated')]
            print(id, prop, 'CAUGHT' if p.returncode == 1 else f'MISSED rc={p.returncode}', f'{time.time()-t:.0f}s', (v or [l for l in o if l.startswith('note')] or o[-1:])[0][:170], flush=True)
    finally:
        shutil.rmtree(d)
