"""Assembles /verif/DESIGN.md from tools/design/*.md."""
import glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
parts = [open(p).read().rstrip() for p in sorted(glob.glob(V + '/tools/design/*.md'))]
open(V + '/DESIGN.md', 'w').write('\n\n'.join(parts) + '\n')
