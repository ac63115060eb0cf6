import os, subprocess, sys, tempfile
def run(script, text, *args):
    d = tempfile.mkdtemp()
    p = os.path.join(d, 'in.gcode')
    with open(p, 'w') as fh:
        fh.write(text)
    try:
        r = subprocess.run([sys.executable, os.path.join('scripts', script), p] + list(args), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=100)
    finally:
        os.remove(p)
        os.rmdir(d)
    out = r.stdout.decode()
    assert r.returncode == 0, out
    return out

from math import hypot
from pygcode import Machine
m = Machine()
far = 0
for l in run('pygcode-norm', 'G2 X0 Y0 I10\n', '-al', '-alm', 'i,o', '-alp', '0.1').split('\n'):
    m.process_str(l)
    far = max(far, hypot(m.pos.X - 10, m.pos.Y))
assert far < 10.001, far
