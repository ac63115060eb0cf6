import os, subprocess, sys, tempfile
def run(script, text, *args):
    d = tempfile.mkdtemp()
    p = os.path.join(d, 'in.gcode')
    with open(p, 'w') as fh:
        fh.write(text)
    try:
        r = subprocess.run([sys.executable, os.path.join('scripts', script), p] + list(args), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=100)
    finally:
        os.remove(p)
        os.rmdir(d)
    out = r.stdout.decode()
    assert r.returncode == 0, out
    return out

out = run('pygcode-norm', 'G43 H1\nG1 X1 F100\nM6 T2\n', '-rmg', 'M6,G43')
assert 'G43' not in out and 'M06' not in out, out
