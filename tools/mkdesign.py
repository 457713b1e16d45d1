"""DESIGN.md = tools/DESIGN.in with the table of planted bugs filled in."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = subprocess.run([sys.executable, V + '/tools/mktable.py'], stdout=subprocess.PIPE, check=True).stdout.decode()
open(V + '/DESIGN.md', 'w').write(open(V + '/tools/DESIGN.in').read().replace('@@TABLE@@\n', t))
