"""Runs the owning check (or all with --all) against every planted bug in scratch copies: run_seeds.py [-t tier] [id...]"""
import os, subprocess, json, sys, tempfile, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tier = 'quick'
a = sys.argv[1:]
if a[:1] == ['-t']: tier = a[1]; a = a[2:]
for id in sorted(a or os.listdir(V+'/seeded')):
    d = tempfile.mkdtemp(prefix='run_'); r = d+'/repo'
    subprocess.run(['cp','-a','/repo',r], check=True)
    subprocess.run(['git','apply',f'{V}/seeded/{id}/patch.diff'], cwd=r, check=True)
    prop = json.load(open(f'{V}/seeded/{id}/meta.json'))['property']
    t = time.time()
    p = subprocess.run(['bash', V+'/check.sh', prop, tier], env=dict(os.environ, GOAST_REPO=r), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    o = p.stdout.decode(errors='replace')
    v = [l for l in o.splitlines() if l.startswith('VIOLATION')]
    print(id, prop, 'CAUGHT' if p.returncode == 1 and v else f'MISSED rc={p.returncode}', f'{time.time()-t:.0f}s', (v or o.splitlines()[-1:])[0][:150], flush=True)
    shutil.rmtree(d)
