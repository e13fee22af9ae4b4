#!/usr/bin/env python3
"""plant.py ID [--no-tests] [--check]   confirm a planted bug: builds, passes the stable tests, its demo tells the trees apart.
Works in /repo (apply, run, undo)."""
import sys,subprocess,os,json
V='/verif/seeded/'; R='/repo'
def sh(c,**k): return subprocess.run(c,shell=True,cwd=R,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def main():
    ids=[a for a in sys.argv[1:] if not a.startswith('--')]
    for i in ids:
        d=V+i; p=d+'/patch.diff'
        meta=json.load(open(d+'/meta.json'))
        assert sh('git status --porcelain').stdout=='' , 'dirty /repo'
        out=[]
        if '--check-only' not in sys.argv:
            r=sh(f'timeout 300 bash {d}/demo.sh'); out.append(f'demo clean rc={r.returncode}')
            if r.returncode: print(r.stdout[-1500:])
        a=sh(f'git apply {p}')
        if a.returncode: print(i,'DOES NOT APPLY',a.stdout); continue
        try:
            if '--no-tests' not in sys.argv and '--check-only' not in sys.argv:
                r=sh('bash /opt/vp/build.sh'); out.append(f'build rc={r.returncode}')
                if r.returncode: print(r.stdout[-1500:])
                r=sh('bash /opt/vp/test.sh /tmp/plant.json'); t=json.load(open('/tmp/plant.json'))
                base=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
                out.append(f'stable tests failing: {sorted(base-set(t["passed"]))}')
            if '--check-only' not in sys.argv:
                r=sh(f'timeout 300 bash {d}/demo.sh'); out.append(f'demo patched rc={r.returncode} ({r.stdout.strip().splitlines()[-1:] })')
            if '--check' in sys.argv or '--check-only' in sys.argv:
                for q in [meta['property']]:
                    r=sh(f'cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 run.py {q} quick'); 
                    out.append(f'check {q} rc={r.returncode} '+' | '.join(l for l in r.stdout.splitlines() if l.startswith('VIOL')))
        finally:
            sh('git checkout -- .')
        print(i,':','; '.join(out),flush=True)
main()
