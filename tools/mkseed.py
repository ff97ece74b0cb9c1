"""mkseed.py: helper to write /verif/seeded/<id>/ from source edits."""
import os, json, shutil, subprocess, tempfile
def seed(id, prop, edits, main, needs, breaks):
    d = f'/verif/seeded/{id}'
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(dir='/tmp')
    a = {}
    try:
        for path, old, new in edits:
            s = a.get(path) or open('/repo/' + path).read()
            assert s.count(old) == 1, (id, path, s.count(old), old)
            a[path] = s.replace(old, new)
        out = ''
        for path, s in a.items():
            os.makedirs(os.path.dirname(f'{w}/b/{path}'), exist_ok=True)
            open(f'{w}/b/{path}', 'w').write(s)
            r = subprocess.run(['git', 'diff', '--no-index', '--no-color', f'/repo/{path}', f'{w}/b/{path}'], capture_output=True, text=True).stdout
            r = r.replace(f'a/repo/{path}', f'a/{path}').replace(f'b{w}/b/{path}', f'b/{path}')
            out += r
        open(f'{d}/patch.diff', 'w').write(out)
        open(f'{d}/main.go', 'w').write(main)
        shutil.copy('/verif/tools/demo.sh', f'{d}/demo.sh')
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f'{d}/meta.json', 'w'), indent=1)
    finally:
        shutil.rmtree(w)
