import os, sys, shutil
a = sys.argv[1:]
src, dst = a[0], a[1]
skip = {a[i + 1] for i in range(2, len(a), 2)}
def same(x, y):
    try:
        with open(x, 'rb') as f, open(y, 'rb') as g: return f.read() == g.read()
    except OSError: return False
want = set()
for d, ds, fs in os.walk(src):
    rel = os.path.relpath(d, src)
    if rel == '.':
        ds[:] = [x for x in ds if x not in skip]; fs = [x for x in fs if x not in skip]
    os.makedirs(os.path.join(dst, rel), exist_ok=True)
    for f in fs:
        p, q = os.path.join(d, f), os.path.normpath(os.path.join(dst, rel, f))
        want.add(q)
        if not same(p, q): shutil.copyfile(p, q)
for d, ds, fs in os.walk(dst):
    if os.path.relpath(d, dst) == '.':
        ds[:] = [x for x in ds if x not in skip]; fs = [x for x in fs if x not in skip]
    for f in fs:
        q = os.path.normpath(os.path.join(d, f))
        if q not in want: os.remove(q)
