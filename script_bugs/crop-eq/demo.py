import os, subprocess, sys, tempfile
def run(script, text, *args):
    d = tempfile.mkdtemp()
    p = os.path.join(d, 'in.gcode')
    with open(p, 'w') as fh:
        fh.write(text)
    try:
        r = subprocess.run([sys.executable, os.path.join('scripts', script), p] + list(args), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=100)
    finally:
        os.remove(p)
        os.rmdir(d)
    out = r.stdout.decode()
    assert r.returncode == 0, out
    return out

out = run('pygcode-crop', 'G0 X1\nG0 X1.25\nG0 X3\n', 'x!=1:')
code = [l for l in out.split('\n') if l and not l.startswith('(')]
assert code[-2:] == ['G00 X1.25', 'G00 X3'], out
