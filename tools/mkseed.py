"""mkseed.py ID PROPERTY FILE NEEDS BREAKS: reads 'old' and 'new' texts (separated by a line '=====') from stdin; several pairs separated by '#####'"""
import json, os, subprocess, sys

ident, prop, path, needs, breaks = sys.argv[1:]
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
folder = f'{here}/seeded/{ident}'
os.makedirs(folder, exist_ok=True)
blame = subprocess.run(['git', '-C', '/repo', 'blame', '-s', path], capture_output=True, text=True, check=True).stdout.split('\n')
with open(f'/repo/{path}') as f:
    text = original = f.read()
for pair in sys.stdin.read().split('\n#####\n'):
    old, new = pair.strip('\n').split('\n=====\n') if '\n=====\n' in pair else (pair.strip('\n').removesuffix('\n====='), None)
    if new is None:
        old += '\n'
        new = ''
    assert text.count(old) == 1, (text.count(old), old)
    text = text.replace(old, new)
os.makedirs('/tmp/mk/a/' + os.path.dirname(path), exist_ok=True)
os.makedirs('/tmp/mk/b/' + os.path.dirname(path), exist_ok=True)
open('/tmp/mk/a/' + path, 'w').write(original)
open('/tmp/mk/b/' + path, 'w').write(text)
diff = subprocess.run(['git', 'diff', '--no-index', '--no-prefix', 'a/' + path, 'b/' + path], cwd='/tmp/mk', capture_output=True, text=True).stdout
open(f'{folder}/patch.diff', 'w').write(diff)
line = 0
for l in diff.split('\n'):
    if l.startswith('@@'):
        line = int(l.split()[1].split(',')[0][1:])
        continue
    if l.startswith('---') or not line:
        continue
    if l.startswith('-') and not blame[line - 1].startswith('^'):
        print('NOT ORIGINAL:', l)
    if l[:1] in ('-', ' '):
        line += 1
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(f'{folder}/meta.json', 'w'), indent=1)
print(diff)
