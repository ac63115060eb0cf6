import os, subprocess, sys, tempfile
def run(script, text, *args):
    d = tempfile.mkdtemp()
    p = os.path.join(d, 'in.gcode')
    with open(p, 'w') as fh:
        fh.write(text)
    try:
        r = subprocess.run([sys.executable, os.path.join('scripts', script), p] + list(args), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=100)
    finally:
        os.remove(p)
        os.rmdir(d)
    out = r.stdout.decode()
    assert r.returncode == 0, out
    return out

from pygcode import Machine
src = 'G0 X10 Y0\nG91 G2 X10 Y10 R10\n'
a = Machine(); [a.process_str(l) for l in src.split('\n')]
b = Machine(); [b.process_str(l) for l in run('pygcode-norm', src, '-al').split('\n')]
assert abs(a.pos.X - b.pos.X) < 0.01 and abs(a.pos.Y - b.pos.Y) < 0.01, (a.pos, b.pos)
