#!/opt/venv/bin/python
"""Which planted changes change lines that commits after the first one added."""
import os, re, subprocess
for s in sorted(os.listdir('/verif/seeded')):
    cur = None
    for ln in open('/verif/seeded/%s/patch.diff' % s):
        if ln.startswith('--- a/'):
            f = ln[6:].strip()
            bl = subprocess.check_output(['git', '-C', '/repo', 'blame', '-s', '-l', 'HEAD', '--', f], text=True).splitlines()
        elif ln.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', ln).group(1))
        elif ln.startswith('-') and not ln.startswith('---'):
            if not bl[n - 1].startswith('^'):
                print(s, f, n, bl[n - 1][:100])
            n += 1
        elif ln.startswith(' '):
            n += 1
