"""Developer tool (no check uses it): make seeded/<id>/ from an edit of a scratch copy of /repo.
usage: mkbug.py ID PROPERTY FILE  <<< python dict with old, new, needs, breaks, demo"""
import json, os, subprocess, sys
def make(bid, prop, edits, needs, breaks, demo):
    d = '/verif/seeded/' + bid
    os.makedirs(d, exist_ok=True)
    w = '/tmp/mkbug'
    subprocess.run(['rm', '-rf', '/tmp/mkbug'])
    subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'])
    subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
    for f, old, new in edits:
        p = os.path.join(w, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old))
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', '-C', w, 'diff'], capture_output=True, text=True, check=True).stdout
    open(d + '/patch.diff', 'w').write(diff)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo.py', 'w').write(demo)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nhere="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 MPLBACKEND=Agg\n'
                                    't="$(mktemp -d)"; trap \'rm -rf -- "$t"\' EXIT; export DEMO_TMP="$t"\n/opt/venv/bin/python -W ignore "$here/demo.py"\n')
    for name, wd in (('clean', '/repo'), ('patched', w)):
        r = subprocess.run(['bash', d + '/demo.sh'], cwd=wd, capture_output=True, text=True)
        print(bid, name, r.returncode, (r.stdout + r.stderr).strip().split('\n')[-1][:200])
