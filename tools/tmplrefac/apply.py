"""apply.py DIR [N,N,..]: rewrites generator templates in a copy of /repo so that what is generated is written
differently and behaves the same; every check has to stay quiet on the result."""
import sys, os
here = os.path.dirname(os.path.abspath(__file__))
root = sys.argv[1]
only = set(map(int, sys.argv[2].split(','))) if len(sys.argv) > 2 else None
txt = open(os.path.join(here, 'edits.txt')).read()
n = 0
while '<<<\n' in txt:
    head, rest = txt.split('<<<\n', 1)
    old, rest = rest.split('===\n', 1)
    new, txt = rest.split('>>>\n', 1)
    f = os.path.join(root, 'plugins', head.strip())
    n += 1
    if only and n not in only:
        continue
    s = open(f).read()
    if s.count(old) < 1:
        print('NOT FOUND', n, head.strip()); continue
    open(f, 'w').write(s.replace(old, new))
print(n, 'edits')
