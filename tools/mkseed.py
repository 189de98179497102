import os, json, re, subprocess, shutil, tempfile
def seed(id, prop, edits, needs, breaks, demo):
    """edits: [(file, old, new[, count index])]"""
    d = '/verif/seeded/' + id; os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    try:
        subprocess.run('git -C /repo archive HEAD include src treecorr | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=a -c user.email=a@b commit -qm x' % (t, t), shell=True, check=True)
        for e in edits:
            p = os.path.join(t, e[0]); s = open(p).read()
            n = s.count(e[1]); assert n == 1 or len(e) > 3, (id, e[0], n)
            if len(e) > 3:
                parts = s.split(e[1]); k = e[3] + 1
                s = e[1].join(parts[:k]) + e[2] + e[1].join(parts[k:])
            else: s = s.replace(e[1], e[2])
            open(p, 'w').write(s)
        open(d + '/patch.diff', 'w').write(subprocess.run(['git', 'diff'], cwd=t, capture_output=True, text=True, check=True).stdout)
    finally: shutil.rmtree(t)
    open(d + '/demo.py', 'w').write('import sys; sys.path.insert(0, "/repo")\nimport numpy as np, treecorr\n' + re.sub(r'sys\.exit\((.+)\)\s*$', r'sys.exit(int(bool(\1)))', demo.strip()) + '\n')
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=2\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    print('seeded', id)
