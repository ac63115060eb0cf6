import os, subprocess, sys, tempfile
def run(script, text, *args):
    d = tempfile.mkdtemp()
    p = os.path.join(d, 'in.gcode')
    with open(p, 'w') as fh:
        fh.write(text)
    try:
        r = subprocess.run([sys.executable, os.path.join('scripts', script), p] + list(args), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=100)
    finally:
        os.remove(p)
        os.rmdir(d)
    out = r.stdout.decode()
    assert r.returncode == 0, out
    return out

out = run('pygcode-norm', 'G0 Z5\nG91\nG1 Z-3 F100\n', '-zz')
assert 'G90' in out, out
