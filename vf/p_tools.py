"""C21, C23-C25: omitted motion words, pygcode-norm, pygcode-crop"""
import io
import math
import os
import subprocess
import sys
import tempfile

import pygcode
from pygcode import GCode, Line, Word
from pygcode.utils import omit_redundant_modes

from . import core, gen, p_geom, prog, ref
from .core import Section, Skip, Violation, expect, in_turns, same

TAU = 2 * math.pi
CANNED = ref.CANNED
ARCS = (('G', 2.0), ('G', 3.0))
NORM_MODE = 'G0 G54 G17 G21 G90 G94 M5 M9 T0 F0 S0'
GROUPS = ref.GROUPS


# --------------------------------------------------------------- running scripts
_code = {}


def run_script(name, args, text):
    """(stdout, stderr, exit code or exception) of a script run in this process"""
    path = os.path.join(core.REPO, 'scripts', name)
    if name not in _code:
        with open(path) as fh:
            _code[name] = compile(fh.read(), path, 'exec')
    (fd, infile) = tempfile.mkstemp(prefix='verif', suffix='.ngc')
    keep = (sys.argv, sys.stdout, sys.stderr)
    (out, err) = (io.StringIO(), io.StringIO())
    files = []
    try:
        with os.fdopen(fd, 'w') as fh:
            fh.write(text)
        sys.argv = [path] + [infile if a is None else a for a in args]
        (sys.stdout, sys.stderr) = (out, err)
        end = 0
        space = {'__name__': '__main__', '__file__': path}
        try:
            exec(_code[name], space)
        except SystemExit as e:
            end = e.code or 0
        except Exception as e:
            end = e
        files = [getattr(space.get('args'), 'infile', None)]
    finally:
        (sys.argv, sys.stdout, sys.stderr) = keep
        for f in files:
            if f is not None:
                f.close()
        os.unlink(infile)
    return out.getvalue(), err.getvalue(), end


def run_process(name, args, text):
    """the same in a process of its own"""
    (fd, infile) = tempfile.mkstemp(prefix='verif', suffix='.ngc')
    try:
        with os.fdopen(fd, 'w') as fh:
            fh.write(text)
        env = dict(os.environ, PYTHONPATH=core.SRC, PYTHONDONTWRITEBYTECODE='1')
        p = subprocess.run([sys.executable, os.path.join(core.REPO, 'scripts', name)] + [infile if a is None else a for a in args],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=60)
    finally:
        os.unlink(infile)
    return p.stdout.decode(), p.stderr.decode(), p.returncode


def split(text):
    """(code, [comments], macro) of a line; comments hold no brackets, ';' or '%'"""
    code, comments, i, n = '', [], 0, len(text)
    while i < n:
        c = text[i]
        if c == '(':
            j = text.find(')', i)
            if j < 0:
                raise Violation('comment without end in %r' % text)
            comments.append(text[i + 1:j].strip())
            i = j + 1
        elif c == ';':
            j = text.find('%', i)
            j = n if j < 0 else j
            comments.append(text[i + 1:j].strip())
            i = j
        elif c == '%':
            return code, comments, text[i:].strip()
        else:
            code += c
            i += 1
    return code, comments, None


def play(r, lines, what, st=None):
    """run lines on a reference machine: [(line number, code, position before, position after)]"""
    events = []
    for (k, text) in enumerate(lines):
        (code, _c, _m) = split(text)
        try:
            (_w, codes, modal) = ref.parse(code)
            if r.ignore_invalid and modal:
                # what has to be left of the line once its unusable words are gone
                m = r.mode.get(ref.MOTION)
                if m is None or any(c.info.group == ref.MOTION or c.word == ref.CANCEL for c in codes):
                    modal = []
                else:
                    modal = [w for w in modal if w[0] in m.info.params]
            ex = r.effective(codes, modal)
            r._defined(ex)
        except ref.RefError as e:
            if e.kind == 'undefined':
                raise Skip()
            raise Violation('%s line %d %r is refused: %s' % (what, k + 1, text, e))
        for c in ex:
            before = dict(r.abs)
            r._exec(c)
            events.append((k, c, before, dict(r.abs)))
    return events


def code_str(c):
    return repr(c)


def same_code(a, b, tol=1e-6):
    if a.word[0] != b.word[0] or set(a.params) != set(b.params):
        return False
    pairs = [(a.word[1], b.word[1])] + [(a.params[l], b.params[l]) for l in a.params]
    for (x, y) in pairs:
        if isinstance(x, str) or isinstance(y, str):
            if x != y:
                return False
        elif abs(x - y) > tol:
            return False
    return True


def same_place(a, b, tol=1e-6):
    return all(abs(a[x] - b[x]) <= tol for x in a)


# ----------------------------------------------------------------------- arcs
class TrueArc(object):
    """arc of a G2/G3 code, from its words"""

    def __init__(self, code, before, plane, incremental, arcabs):
        (self.u, self.v, self.n, _c) = p_geom.PLANES['G%d' % plane]
        p = code.params
        self.start = dict((a, before[a]) for a in 'XYZ')
        self.end = dict(self.start)
        if not set('XYZ') & set(p):
            raise ValueError
        for a in 'XYZ':
            if a in p:
                self.end[a] = self.start[a] + p[a] if incremental else p[a]
        self.sign = 1 if code.word == ('G', 3.0) else -1
        su, sv, eu, ev = self.start[self.u], self.start[self.v], self.end[self.u], self.end[self.v]
        span = math.hypot(eu - su, ev - sv)
        ijk = set('IJK') & set(p)
        if ('R' in p) == bool(ijk):
            raise ValueError
        if 'R' in p:
            self.r = abs(p['R'])
            if span < 1e-3 or self.r < span / 2 - 1e-7:
                raise ValueError
            h = math.sqrt(max(0.0, self.r ** 2 - (span / 2) ** 2))
            if h < 1e-3 * self.r:
                h = 0.0
            # centre to the left of the way for counter-clockwise arcs up to a half circle
            side = self.sign * (1 if p['R'] > 0 else -1)
            self.cu = (su + eu) / 2 - side * h * (ev - sv) / span
            self.cv = (sv + ev) / 2 + side * h * (eu - su) / span
        else:
            ku, kv = p_geom.OFFSET[self.u], p_geom.OFFSET[self.v]
            if p_geom.OFFSET[self.n] in p or (arcabs and not (ku in p and kv in p)):
                raise ValueError
            self.cu = p.get(ku, 0.0) + (0.0 if arcabs else su)
            self.cv = p.get(kv, 0.0) + (0.0 if arcabs else sv)
            self.r = math.hypot(su - self.cu, sv - self.cv)
            if abs(self.r - math.hypot(eu - self.cu, ev - self.cv)) > 1e-7 or self.r < 0.4:
                raise ValueError
        if span < 1e-7:
            self.sweep = TAU
        else:
            self.sweep = (math.atan2(ev - self.cv, eu - self.cu) - math.atan2(sv - self.cv, su - self.cu)) * self.sign % TAU
        if not 1e-2 < self.sweep <= TAU:
            raise ValueError
        self.h0 = self.start[self.n]
        self.dh = self.end[self.n] - self.h0
        self.scale = max(abs(x) for x in list(self.start.values()) + list(self.end.values()) + [self.r])
        self.tol = 1e-5


def arc_words(rng, r):
    """a valid arc from the current position of the reference machine, 3 decimals"""
    plane = r.plane()
    if plane not in (17.0, 18.0, 19.0):
        return None
    (u, v, n, _c) = p_geom.PLANES['G%d' % plane]
    (p, q) = (rng.choice(p_geom.TRIPLES), rng.choice(p_geom.TRIPLES))
    hyp = p[2] * q[2]
    k = rng.choice([1, 2, 0.5, 0.1, 0.25, 0.2, 0.01])
    while hyp * k < 0.5:
        k *= 10
    while hyp * k > 60:
        k = round(k / 10, 3)
        if k < .01:
            return None

    def point(t, other):
        (x, y) = (t[0] * other, t[1] * other)
        if rng.random() < .5:
            (x, y) = (y, x)
        return (x * rng.choice([1, -1]), y * rng.choice([1, -1]))
    s = point(p, q[2])
    e = point(q, p[2])
    if rng.random() < .15:
        e = (-s[0], -s[1])
    form = rng.choice(['R', 'IJ'])
    if rng.random() < .12:
        (e, form) = (s, 'IJ')
    if s == e and form == 'R':
        return None
    ccw = rng.random() < .5
    pos = r.pos
    c = (pos[u] - s[0] * k, pos[v] - s[1] * k)
    end = {u: c[0] + e[0] * k, v: c[1] + e[1] * k}
    if rng.random() < .3:
        end[n] = round(pos[n] + gen.value(rng, 5), 3)
    words = []
    for (a, val) in end.items():
        if abs(val - pos[a]) < 1e-9 and rng.random() < .5 and (a == n or len(words)):
            continue
        words.append((a, gen.fmt(val - pos[a] if r.incremental() else val)))
    if form == 'R':
        a0, a1 = math.atan2(s[1], s[0]), math.atan2(e[1], e[0])
        sweep = ((a1 - a0) if ccw else (a0 - a1)) % TAU
        big = sweep > math.pi + 1e-9
        words.append(('R', gen.fmt(-hyp * k if big else hyp * k)))
    else:
        m = r.mode.get(GROUPS['arc_ijk_distance'])
        arcabs = bool(m) and m.word == ('G', 90.1)
        for (a, val) in ((u, c[0]), (v, c[1])):
            words.append((p_geom.OFFSET[a], gen.fmt(val if arcabs else val - pos[a])))
    rng.shuffle(words)
    return ('G', '3' if ccw else '2'), words


# ----------------------------------------------------------------------- programs
SAFE = [w for w in gen.NONMOTION_SAFE if w not in (('G', 53.0), ('G', 93.0), ('G', 17.1), ('G', 18.1), ('G', 19.1))]
EXTRA = [w for w in gen.NONMOTION if w not in SAFE and w not in (('G', 53.0), ('G', 93.0), ('G', 17.1), ('G', 18.1), ('G', 19.1))]


def comment(rng):
    return gen.comment_text(rng, '()%;')


def decorate(rng, text, case):
    """comments and macros around the code of a line"""
    k = rng.random()
    if k < 0.12:
        text = text + rng.choice([' ', '']) + '(' + comment(rng) + ')'
    elif k < 0.18:
        text = text + ' ; ' + comment(rng)
    elif k < 0.22:
        text = '(' + comment(rng) + ') ' + text
    elif k < 0.25:
        text = text + '(' + comment(rng) + ')(' + comment(rng) + ')'
    if rng.random() < 0.05:
        text = text + ' %' + rng.choice(['', 'abc', 'macro 1', '(x)', 'G1 X5'])
    return text


def valid_effects(r, ex, strict_arcs, strict_canned):
    """may this block be part of a program whose arcs / cycles are replaced?"""
    t = r.clone()
    for c in ex:
        if strict_arcs and c.word in ARCS:
            m = t.mode.get(GROUPS['arc_ijk_distance'])
            if t.plane() not in (17.0, 18.0, 19.0):
                return False
            try:
                arc = TrueArc(c, t.pos, t.plane(), t.incremental(), bool(m) and m.word == ('G', 90.1))
            except ValueError:
                return False
            if 'R' in c.params and math.hypot(arc.end[arc.u] - arc.start[arc.u], arc.end[arc.v] - arc.start[arc.v]) < 2e-3:
                return False        # (left to rounding)
        if strict_canned and c.word in CANNED:
            p = c.params
            if t.plane() != 17.0 or 'R' not in p or 'Z' not in p or set('UVW') & set(p) or c.word == ('G', 76.0):
                return False
            if p.get('L', 1) < 1 or p.get('L', 1) > 8:
                return False
            z0 = t.pos['Z']
            (rr, zz) = (z0 + p['R'], z0 + p['R'] + p['Z']) if t.incremental() else (p['R'], p['Z'])
            if not zz < rr - 1e-4 or (not t.to_r() and z0 < zz):
                return False
            if 'Q' in c.info.params and (p.get('Q', 0) <= 0 or (rr - zz) / p['Q'] > 25):
                return False
        try:
            t._defined([c])
        except ref.RefError:
            return False
        t._exec(c)
    return True


def block_modes(rng, r, pool):
    """words of mode codes for the block of an arc or cycle, and the machine after them"""
    if rng.random() < .65:
        return [], r
    words = []
    for v in rng.sample(pool, rng.choice([1, 1, 2])):
        w = ('G', float(v))
        if all(ref.TABLE[w].group != ref.TABLE[('G', float(x))].group for (_l, x) in words):
            words.append(('G', v))
    t = r.clone()
    try:
        t.run_text(' '.join(l + v for (l, v) in words))
    except ref.RefError:
        return [], r
    return words, t


def norm_program(rng, mode, arcs, canned, n=None, garbage=False, tied=False):
    """lines of a program that is valid for these conversions"""
    r = ref.RefMachine('XYZ', mode)
    r.ignore_invalid = garbage
    lines, mark = [], 0
    n = n or rng.choice([3, 8, 15, 25])
    must = False
    kinds = {'line': 6, 'bare': 6, 'arc': 5 if arcs else 1, 'bare arc': 2 if arcs else .5, 'cycle': 4 if canned else 1, 'bare cycle': 4,
             'mode': 3, 'extra': .6, 'dist': .8, 'plane': .6, 'retract': .4, 'cancel': .6, 'blank': .8, 'comment': .5, 'arcdist': .3,
             'number': .2, 'garbage': 5 if garbage else 0}
    names = sorted(kinds)
    tries = 0
    while len(lines) < n and tries < n * 60:
        tries += 1
        kind = rng.choices(names, [kinds[k] for k in names])[0]
        motion = r.mode.get(ref.MOTION)
        words = None
        if kind == 'line':
            words = [('G', rng.choice(['0', '1', '00', '01']))] + prog.coords(rng, 'XYZ', rng.choice([10, 100]))
            if rng.random() < .3:
                words.append(('F', gen.num(rng, 999, 1, neg=False)))
            if tied and rng.random() < .5:
                words = rng.choice([[('G', '53')], [('G', '93'), ('F', gen.num(rng, 99, 1, neg=False))], [('G', '93')]]) + words
                words = list(dict((w, w) for w in words if w[0] != 'F').values()) + [w for w in words if w[0] == 'F'][:1]
        elif kind == 'bare' and motion is not None and motion.word in (('G', 0.0), ('G', 1.0)):
            words = prog.coords(rng, 'XYZ', 100, 0.6)
            if tied and words and rng.random() < .3:
                words = words + rng.choice([[('G', '53')], [('F', gen.num(rng, 99, 1, neg=False))]])
            elif rng.random() < .25:
                words = words + gen.block_words(rng, k=rng.choice([1, 2, 3, 4]), pool=SAFE + [('M', 0.), ('M', 30.)], p_param=0)
                if rng.random() < .5:
                    rng.shuffle(words)
        elif kind == 'arc' or kind == 'bare arc':
            (modes, t) = block_modes(rng, r, ['90', '91', '17', '18', '19', '90.1', '91.1', '54', '55', '98']) if kind == 'arc' else ([], r)
            got = arc_words(rng, t)
            if got is None:
                continue
            words = got[1]
            if kind == 'arc':
                words = modes + [got[0]] + words if rng.random() < .7 else [got[0]] + words + modes
            elif motion is None or motion.word != (got[0][0], float(got[0][1])):
                continue
            if rng.random() < .25:
                words = words + [('F', gen.num(rng, 999, 1, neg=False))]
            if rng.random() < .1:
                words = words + rng.choice([[('M', '0')], [('M', '8')], [('M', '30')]])
        elif kind == 'cycle':
            (modes, t) = block_modes(rng, r, ['90', '91', '98', '99', '54', '56'])
            words = cycle_words(rng, t)
            words = modes + words if rng.random() < .7 else words + modes
        elif kind == 'bare cycle' and motion is not None and motion.word in CANNED:
            words = prog.coords(rng, 'XY', 50, 0.8)
            if rng.random() < .2:
                words.append(('L', rng.choice(['1', '2', '3'])))
            if rng.random() < .15:
                words += [w for w in cycle_words(rng, r)[1:] if w[0] in 'ZR']
        elif kind == 'mode':
            words = gen.block_words(rng, k=rng.choice([1, 1, 2, 3]), pool=SAFE, p_param=.4)
        elif kind == 'extra':
            words = gen.block_words(rng, k=1, pool=EXTRA, axes='XYZ', letters=0)
        elif kind == 'dist':
            words = [('G', rng.choice(['90', '91']))]
        elif kind == 'arcdist':
            words = [('G', rng.choice(['90.1', '91.1']))]
        elif kind == 'plane':
            words = [('G', rng.choice(['17', '17', '18', '19']))]
        elif kind == 'retract':
            words = [('G', rng.choice(['98', '99']))]
        elif kind == 'cancel':
            words = [('G', '80')]
        elif kind == 'blank':
            words = []
        elif kind == 'comment':
            if must:
                continue
            lines.append(rng.choice(['(%s)', '; %s']) % comment(rng))
            continue
        elif kind == 'number':
            words = [('N', str(rng.randint(0, 9999)))]
        elif kind == 'garbage':
            words = prog.bad_words(rng, r)
            if rng.random() < .3:              # the same word again, or the letter with another number
                (l, v) = rng.choice([w for w in words if w[0] not in 'GM'] or [('D', '2')])
                words = list(words) + [(l, rng.choice([v, v, '3']))] * rng.randint(1, 2)
        if words is None or (must and not words):
            continue
        if words and (must or rng.random() < .1):
            mark += 1
            if any(l == 'S' for (l, _v) in words):
                continue
            words = [('S', str(1000 + mark))] + words
        if words and rng.random() < .08 and not any(l == 'N' for (l, _v) in words):
            words = [('N', str(rng.randint(0, 9999)))] + words
        text = gen.layout(rng, words)
        try:
            (_w, codes, modal) = ref.parse(text)
            ex = r.effective(codes, modal)
            mine = [w[0] for w in modal if motion and w[0] in motion.info.params]
            if garbage and len(set(mine)) < len(mine):
                continue
            if not valid_effects(r, ex, arcs, canned):
                continue
            if any(c.word == ('O', None) or c.word[0] == 'O' for c in codes):
                continue
            r.run(codes, modal)
        except ref.RefError:
            continue
        must = canned and any(c.word in CANNED for c in ex)
        lines.append(decorate(rng, text, None))
    if must:
        lines.append('S%d' % (1000 + mark + 1))
    return lines


def cycle_words(rng, r):
    code = rng.choice([('G', 81.), ('G', 82.), ('G', 83.), ('G', 73.), ('G', 85.), ('G', 89.)])
    top = r.pos.get('Z', 0.0)
    rr = round(top + rng.choice([0, -1, 1, gen.value(rng, 10)]), 3)
    depth = rng.choice([1, 0.5, gen.value(rng, 20, neg=False)]) or 1
    if r.incremental():
        words = [('R', gen.fmt(rr - top)), ('Z', gen.fmt(-depth))]
    else:
        words = [('R', gen.fmt(rr)), ('Z', gen.fmt(rr - depth))]
    words += prog.coords(rng, 'XY', 50, .8)
    if rng.random() < .25:
        words.append(('L', rng.choice(['1', '2', '3'])))
    p = ref.TABLE[code].params
    if 'Q' in p:
        words.append(('Q', gen.fmt(max(round(depth / rng.choice([1, 2, 3, 7, 20]), 3), 0.001))))
    if 'P' in p and rng.random() < .6:
        words.append(('P', gen.num(rng, 5, neg=False)))
    rng.shuffle(words)
    return [('G', '%g' % code[1])] + words


NORM_MODES = [None] * 5 + ['G0 G17 G21 G90 G91.1 G94 G40 G49 G54 G61 G97 M5 M9 F0 S0 T0', 'G1 G91 G17 G21 G54 G94 F100',
                           'G0 G18 G90 G98 G54 M5', 'G80 G17 G90 G99 G54', 'G1 G19 G90.1 G90 F50']


def formatting(rng):
    o = []
    for (flag, short, p) in (('--singles', '-s', .35), ('--full', '-f', .35), ('--rm_comments', '-rc', .3), ('--rm_blanks', '-rb', .3),
                             ('--rm_whitespace', '-rws', .3)):
        if rng.random() < p:
            o.append(flag if rng.random() < .7 else short)
    return o


LONG = {'-s': '--singles', '-f': '--full', '-rc': '--rm_comments', '-rb': '--rm_blanks', '-rws': '--rm_whitespace',
        '-al': '--arc_linearize', '-alp': '--arc_precision', '-alm': '--arc_lin_method', '-ce': '--canned_expand',
        '-cc': '--canned_codes', '-rmg': '--rm_gcodes', '-rmim': '--rm_invalid_modal'}


def flags(opts):
    return set(LONG.get(o, o) for o in opts)


def norm_args(case):
    a = list(case['opts'])
    if case['mode'] is not None:
        a += ['--machine_mode', case['mode']]
    return a


def domain(case):
    """Skip programs the property says nothing about (a shrunk one may be)"""
    if case['arcs'] or case['canned']:
        r = ref.RefMachine('XYZ', case['mode'] or NORM_MODE)
        for t in case['lines']:
            try:
                (_w, codes, modal) = ref.parse(split(t)[0])
                ex = r.effective(codes, modal)
                if not valid_effects(r, ex, case['arcs'] and case['err'], case['canned']):
                    raise Skip()
                r.run(codes, modal)
            except ref.RefError:
                raise Skip()


def norm_lines(case, extra=(), runner=run_script):
    if case['lines'][-1:] == ['']:
        case = dict(case, eof=True)
    domain(case)
    text = '\n'.join(case['lines']) + ('\n' if case.get('eof', True) else '')
    (out, err, end) = runner('pygcode-norm', norm_args(case) + list(extra) + [None], text)
    if end != 0:
        raise Violation('pygcode-norm %s on %r ended with %s %r %s' % (
            ' '.join(norm_args(case) + list(extra)), case['lines'], type(end).__name__, end, err[-300:]))
    return out.split('\n')[:-1] if out else []


# ----------------------------------------------------------------------- C23
def tied_words(want, got, lines, out, mode, st):
    """G53 and, in inverse time mode, F act on the motion of their own line only"""
    def ties(events):
        res = []
        inverse = False
        blocks = []
        for (k, c, _b, _a) in events:
            if not blocks or blocks[-1][0] != k:
                blocks.append((k, []))
            blocks[-1][1].append(c)
        for (k, codes) in blocks:
            for c in codes:
                if c.info.group == GROUPS['feed_rate_mode']:
                    inverse = c.word == ('G', 93.0)
            for c in codes:
                if c.info.group == ref.MOTION:
                    f = [d.word[1] for d in codes if d.word[0] == 'F']
                    res.append((k, any(d.word == ('G', 53.0) for d in codes), round(f[0], 3) if inverse and f else None))
        return res
    (a, b) = (ties(want), ties(got))
    for ((k, m1, f1), (kk, m2, f2)) in zip(a, b):
        expect((m1, f1) == (m2, f2), 'motion of line %d %r has G53, inverse time feed: %r; in the output %r: %r', k + 1, lines[k], (m1, f1), out[kk], (m2, f2))
        st.obs('machine coordinates', int(m1))
        st.obs('inverse time', int(f1 is not None))


def probe_singles_g53():
    (out, _err, code) = run_script('pygcode-norm', ['--singles', None], 'G53 G0 X1 Y2\n')
    expect(code == 0 and any('G53' in t and 'X' in t for t in out.split('\n')), 'G53 and its motion are on different lines: %r', out)


def probe_inverse_time():
    for (opts, text) in ((['--singles'], 'G93 G1 X1 F2\n'), (['--arc_linearize'], 'G93 G2 X2 I1 F2\n')):
        (out, _err, code) = run_script('pygcode-norm', opts + [None], text)
        moves = [t for t in out.split('\n') if 'X' in t and '(' not in t]
        expect(code == 0 and moves and all('F' in t for t in moves), 'moves without F in inverse time mode: %r', out)


def do_c23(case, st, lines=None, garbage=False):
    mode = case['mode'] or NORM_MODE
    out = norm_lines(case) if lines is None else lines
    src = ref.RefMachine('XYZ', mode)
    src.ignore_invalid = garbage
    dst = ref.RefMachine('XYZ', mode)
    want = play(src, case['lines'], 'input')
    # modes in force at each code of the input
    track = ref.RefMachine('XYZ', mode)
    got = play(dst, out, 'output')
    j = 0
    arcs = case['arcs']
    canned = case['canned']
    method = case.get('method') or 'm'
    if not arcs and not canned and '--singles' not in flags(case['opts']):
        tied_words(want, got, case['lines'], out, mode, st)
    for (k, c, before, after) in want:
        what = 'line %d %r: %s' % (k + 1, case['lines'][k], code_str(c))
        if arcs and c.word in ARCS:
            m = track.mode.get(GROUPS['arc_ijk_distance'])
            try:
                arc = TrueArc(c, before, track.plane(), track.incremental(), bool(m) and m.word == ('G', 90.1))
            except ValueError:
                raise Skip()
            pts = []
            while True:
                expect(j < len(got), '%s: output ends before the end of the arc', what)
                g = got[j][1]
                expect(g.word == ('G', 1.0), '%s: output has %s before the end of the arc', what, code_str(g))
                expect(set(g.params) <= set('XYZ'), '%s: output has %s', what, code_str(g))
                pts.append(got[j][3])
                j += 1
                if same_place(dict((a, arc.end[a]) for a in 'XYZ'), pts[-1], 2e-3) and (len(pts) > 1 or arc.sweep < TAU):
                    break
                expect(len(pts) < 20000, '%s: more than 20000 segments', what)
            which = method.split(',')[0 if c.word == ARCS[0] else -1]
            p_geom.check_path(arc, {'dist': 'G91', 'dp': 3, 'err': case['err'],
                                    'method': {'i': 'inside', 'o': 'outside', 'm': 'mid'}[which]}, pts, what)
            expect(same_place(arc.end, pts[-1], 6e-4), '%s: ends at %r, expected %r', what, pts[-1], arc.end)
            st.obs('arcs replaced')
            st.obs('segments', len(pts))
        elif canned and c.word in canned_words(case):
            steps = []
            n = j
            while n < len(got) and got[n][1].word in (('G', 0.0), ('G', 1.0), ('G', 4.0)):
                n += 1
            for (_k, g, _b, p) in got[j:n]:
                kind = {0.0: 'GCodeRapidMove', 1.0: 'GCodeLinearMove', 4.0: 'GCodeDwell'}[g.word[1]]
                steps.append((kind, dict((a, p[a]) for a in 'XYZ'), Shown(g)))
            ccase = {'code': int(c.word[1]), 'words': dict(c.params), 'start': dict((a, before[a]) for a in 'XYZ'),
                     'dist': 'G91' if track.incremental() else 'G90', 'ret': 'G99' if track.to_r() else 'G98'}
            expect(steps, '%s: nothing in its place', what)
            p_geom.check_drilling(ccase, steps, what, Quiet)
            j = n
            st.obs('cycles replaced')
        else:
            expect(j < len(got), '%s: missing at the end of the output', what)
            (kk, g, b, a) = got[j]
            shown = 'output line %d %r' % (kk + 1, out[kk])
            expect(same_code(c, g), '%s: %s executes %s', what, shown, code_str(g))
            expect(same_place(after, a, 1e-6), '%s: %s goes to %r, expected %r', what, shown, a, after)
            j += 1
            st.obs('codes compared')
            st.obs('cycles kept', int(c.word in CANNED))
        track._exec(c)
    expect(j == len(got), 'output executes %s after the end of the program', [code_str(g[1]) for g in got[j:j + 3]])
    for (name, g) in GROUPS.items():
        (a, b) = (src.mode.get(g), dst.mode.get(g))
        if name == 'motion' and (arcs or canned):
            continue
        expect((a is None) == (b is None) and (a is None or same_code(a, b)), 'final %s mode is %r, expected %r', name, b, a)
    st.obs('programs')
    for o in flags(case['opts']):
        if o.startswith('-'):
            st.obs('option ' + o)
    st.obs('several options', int(len(case['opts']) > 2))
    st.seen([case['opts'], case['lines']])


class Shown(object):
    """a code of the output as p_geom's monitors read codes"""
    def __init__(self, code):
        self.params = dict((l, Val(l, v)) for (l, v) in code.params.items())
        self.code = code

    def __repr__(self):
        return repr(self.code)


class Val(object):
    def __init__(self, l, v):
        self.letter, self.value = l, v


class Quiet(object):
    @staticmethod
    def obs(*_a):
        pass


def canned_words(case):
    return [('G', float(x)) for x in case['canned']]


def cased(rng, s):
    return s if rng.random() < .6 else ''.join(rng.choice([c.lower(), c.upper()]) for c in s)


def spelled(rng, words):
    """a list of codes as an option value"""
    return rng.choice([',', ', ', ' , ', ',']).join(
        cased(rng, w[0]) + (rng.choice(['0', '00']) if rng.random() < .1 else '') + w[1:] + ('.0' if rng.random() < .1 and '.' not in w else '')
        for w in words)


def gen_c23(rng, i):
    opts = formatting(rng)
    k = rng.random()
    (arcs, canned) = (k < 0.5 and rng.random() < .8, k > 0.35 and rng.random() < .7)
    mode = rng.choice(NORM_MODES)
    case = {'mode': mode, 'arcs': arcs, 'canned': [], 'err': 0.005, 'method': None}
    if arcs:
        opts.append(rng.choice(['--arc_linearize', '-al']))
        if rng.random() < .6:
            case['err'] = rng.choice([0.001, 0.01, 0.02, 0.1, 0.3, 0.005, 1, 5])
            opts += [rng.choice(['--arc_precision', '-alp']), '%g' % case['err']]
        if rng.random() < .6:
            case['method'] = rng.choice(['i', 'o', 'm', 'i,o', 'o,i', 'm,i', 'o,m', 'i,i'])
            opts += [rng.choice(['--arc_lin_method', '-alm']), cased(rng, case['method'])]
    if canned:
        opts.append(rng.choice(['--canned_expand', '-ce']))
        case['canned'] = [81, 82, 83, 73, 85, 89]
        if rng.random() < .35:
            case['canned'] = rng.sample([81, 82, 83, 73, 85, 89], rng.randint(1, 4))
            opts += [rng.choice(['--canned_codes', '-cc']), spelled(rng, ['G%d' % c for c in case['canned']])]
    case['opts'] = opts
    tied = not arcs and not canned and '--singles' not in flags(opts)
    case['lines'] = norm_program(rng, mode or NORM_MODE, arcs and case['err'], bool(canned), tied=tied)
    case['eof'] = rng.random() < .9
    return case


def do_c23_process(case, st):
    """a process of its own writes the same"""
    a = norm_lines(case)
    b = norm_lines(case, runner=run_process)
    same(b, a, 'output of pygcode-norm as a process')
    st.obs('processes')
    do_c23(case, st, lines=b)


NORM = 'scripts/pygcode-norm'


def C23():
    return dict(
        sections=[Section('programs', do_c23, gen_c23, quick=2500, thorough=100000),
                  Section('processes', do_c23_process, gen_c23, quick=16, thorough=400)],
        anchors=[NORM, 'src/pygcode/transform.py', 'src/pygcode/utils.py'],
        rule='Random programs and option combinations are given to the real script; input and output are executed by an independent '
             'interpreter and their code sequences, positions and final modes compared; replaced arcs and cycles are judged by the '
             'arc and drilling monitors. Distinct (options, program) are counted.',
        assumptions=['values with 3 decimals; G17.1-G19.1, O words and lines mixing them excluded',
                     'G53 and G93 without --singles, arc or cycle replacement (recorded findings)',
                     'a line after an expanded cycle sets S (so that the end of the expansion is known)'],
        probes=[('singles-g53', probe_singles_g53), ('inverse-time', probe_inverse_time)],
        deciding=[('programs', 'machine coordinates'), ('programs', 'inverse time'), ('programs', 'arcs replaced'), ('programs', 'cycles replaced'), ('programs', 'codes compared'), ('processes', 'processes')])


# ----------------------------------------------------------------------- C24
def do_c24(case, st):
    out = norm_lines(case)
    fl = flags(case['opts'])
    rm = set((w[0], float(w[1:])) for w in case.get('rm', []))
    parts = [split(t) for t in out]
    plain = not case['arcs'] and not case['canned']
    src_parts = [split(t) for t in case['lines']]
    for (text, (code, comments, macro)) in zip(out, parts):
        what = 'output line %r of %s' % (text, ' '.join(case['opts']))
        words = ref.tokenize(code)
        (codes, modal) = ref.group(words)
        if '--singles' in fl:
            expect(len(codes) + bool(modal) <= 1, '%s: %d commands', what, len(codes) + bool(modal))
            st.obs('singles')
        if '--full' in fl:
            expect(not modal, '%s: words without code', what)
            st.obs('full')
        if '--rm_comments' in fl:
            expect(not comments, '%s: comment', what)
            st.obs('no comments')
        if '--rm_blanks' in fl:
            expect(text.strip(), '%s: blank line', what)
            st.obs('no blanks')
        if '--rm_whitespace' in fl:
            expect(not any(c.isspace() for c in code.strip()), '%s: blanks in the block', what)
            st.obs('no whitespace')
        for c in codes:
            expect(c.word not in rm, '%s: holds a removed code', what)
    # nothing else is lost
    blanks_in = sum(1 for (t, p) in zip(case['lines'], src_parts) if not t.strip())
    blanks_out = sum(1 for t in out if not t.strip())
    if '--rm_blanks' not in fl:
        if '--rm_comments' not in fl and not rm:
            same(blanks_out, blanks_in, 'blank lines of the output (%s)' % ' '.join(case['opts']))
            st.obs('blanks kept', blanks_in)
        expect(blanks_out >= blanks_in, '%d blank lines, input has %d', blanks_out, blanks_in)
    if '--rm_comments' not in fl:
        want = ['. '.join(p[1]) for p in src_parts if p[1]]
        got = ['. '.join(p[1]) for p in parts if p[1]]
        k = 0
        for g in got:
            if k < len(want) and g == want[k]:
                k += 1
        expect(k == len(want), 'comment %r is missing in %r', want[k:k + 1], got)
        st.obs('comments kept', len(want))
        if plain and '--singles' not in fl:
            same(got, want, 'comments of the output')
    want = [p[2] for p in src_parts if p[2] is not None]
    got = [p[2] for p in parts if p[2] is not None]
    same(got, want, 'macros of the output (%s)' % ' '.join(case['opts']))
    st.obs('macros kept', len(want))
    if rm:
        if plain:
            # everything else is there, in execution order of each block
            r = ref.RefMachine('XYZ', case['mode'] or NORM_MODE)
            want = [c for (_k, c, _b, _a) in play(r, case['lines'], 'input') if c.word not in rm]
            if '--full' in fl:
                got = []
                for p in parts:
                    cs = ref.group(ref.tokenize(p[0]))[0]
                    got += sorted(cs, key=lambda c: c.info.order)
                expect(len(want) == len(got) and all(same_code(a, b) for (a, b) in zip(want, got)),
                       'codes after removing %s: %r, expected %r', case['rm'], got, want)
                st.obs('other codes kept', len(want))
        st.obs('codes removed')
    st.seen([case['opts'], case['lines']])


def gen_c24(rng, i):
    case = gen_c23(rng, i)
    if rng.random() < .4:
        cands = ['M6', 'G43', 'M3', 'M5', 'M8', 'M9', 'G54', 'G21', 'G90', 'G0', 'G1', 'G17', 'G80', 'G49', 'G91', 'M30', 'G4', 'G81', 'G2']
        used = set()
        for t in case['lines']:
            for c in ref.parse(split(t)[0])[1]:
                if c.word[0] in 'GM':
                    used.add('%s%g' % c.word)
        case['rm'] = sorted(set(rng.sample(cands, rng.randint(1, 3)) + (rng.sample(sorted(used), 1) if used else [])))
        case['opts'] += [rng.choice(['--rm_gcodes', '-rmg']), spelled(rng, case['rm'])]
        if rng.random() < .5 and '--full' not in flags(case['opts']):
            case['opts'].append('--full')
    return case


def gen_c24_replace(rng, i):
    """one kind of replacement, coarse enough to tell the methods apart"""
    arcs = rng.random() < .6
    case = {'mode': rng.choice(NORM_MODES), 'arcs': arcs, 'canned': [], 'err': rng.choice([.002, .05, .1, .2, .3, 1, 4]), 'method': None}
    case['opts'] = formatting(rng)
    if arcs:
        case['method'] = rng.choice(['i', 'o', 'm', 'i,o', 'o,i', 'm,i', 'i,m', 'o,m', 'm,o', 'o,o'])
        case['opts'] += [rng.choice(['--arc_linearize', '-al']), rng.choice(['--arc_precision', '-alp']), '%g' % case['err'],
                         rng.choice(['--arc_lin_method', '-alm']), cased(rng, case['method'])]
    else:
        case['canned'] = rng.sample([81, 82, 83, 73, 85, 89], rng.randint(1, 3))
        case['opts'] += [rng.choice(['--canned_expand', '-ce']), rng.choice(['--canned_codes', '-cc']),
                         spelled(rng, ['G%d' % c for c in case['canned']])]
    case['lines'] = norm_program(rng, case['mode'] or NORM_MODE, arcs and case['err'], not arcs)
    return case


def do_c24_replace(case, st):
    do_c23(case, st)


def do_c24_final(case, st):
    """finalising options only append"""
    r = ref.RefMachine('XYZ', case['mode'] or NORM_MODE)
    base = norm_lines(case)
    out = norm_lines(case, case['final'])
    same(out[:len(base)], base, 'program before the final moves')
    tail = out[len(base):]
    play(r, case['lines'], 'input')
    high = r.hi['Z'] - r.offset('Z')
    fl = flags(case['opts'])
    f = set({'-zxy': '--zero_xy', '-zz': '--zero_z', '-so': '--spindle_off', '-rsh': '--rapid_safety_height'}.get(x, x) for x in case['final'])
    codes, comments = [], 0
    for t in tail:
        (code, cm, macro) = split(t)
        expect(macro is None, 'macro at the end')
        comments += len(cm)
        (cs, modal) = ref.group(ref.tokenize(code))
        codes += cs
        if modal:
            expect(codes and codes[-1].info.group == ref.MOTION, 'final line %r has words without code', t)
            codes.append(ref.Code(codes[-1].word, modal))
        if '--singles' in fl:
            expect(len(cs) <= 1, 'final line %r has several commands', t)
        if '--rm_blanks' in fl:
            expect(t.strip(), 'blank line at the end')
        if '--rm_comments' in fl:
            expect(not cm, 'comment at the end')
        if '--rm_whitespace' in fl:
            expect(not any(ch.isspace() for ch in code.strip()), 'blanks in final line %r', t)
    what = 'final codes for %s after %r: %r' % (' '.join(case['final']), case['lines'][-3:], codes)
    spin = [c for c in codes if c.word == ('M', 5.0)]
    same(len(spin), int('--spindle_off' in f), '%s: spindle stops' % what)
    moves = [c for c in codes if c.info.group == ref.MOTION]
    want = []
    if '--zero_xy' in f:
        h = case['height'] if case['height'] is not None else high
        want += [{'Z': h}, {'X': 0.0, 'Y': 0.0}]
    if '--zero_z' in f:
        want += [{'Z': 0.0}]
    same(len(moves), len(want), '%s: number of moves' % what)
    for (c, w) in zip(moves, want):
        expect(c.word == ('G', 0.0) and set(c.params) == set(w) and all(abs(c.params[a] - w[a]) <= 6e-4 for a in w),
               '%s: %r, expected rapid move to %r', what, c, w)
    rest = [c for c in codes if c not in spin and c not in moves]
    expect(all(c.word == ('G', 90.0) for c in rest), '%s: other codes', what)
    if want and r.incremental():
        expect(rest and codes.index(rest[0]) < codes.index(moves[0]), '%s: moves are incremental', what)
        st.obs('back to absolute')
    for c in codes:
        r._exec(c)
    if want:
        expect(not r.incremental(), '%s: ends in incremental mode', what)
        st.obs('final moves', len(want))
    pos = r.pos
    if '--zero_xy' in f:
        expect(abs(pos['X']) < 1e-6 and abs(pos['Y']) < 1e-6, '%s: ends at %r', what, pos)
    if '--zero_z' in f:
        expect(abs(pos['Z']) < 1e-6, '%s: ends at %r', what, pos)
    st.obs('spindle stops', len(spin))
    st.obs('given height', int(case['height'] is not None and '--zero_xy' in f))
    st.obs('highest level', int(case['height'] is None and '--zero_xy' in f))
    st.seen([case['final'], case['opts'], case['lines']])


def gen_c24_final(rng, i):
    case = gen_c23(rng, i)
    final = []
    for (a, b) in (('--zero_xy', '-zxy'), ('--zero_z', '-zz'), ('--spindle_off', '-so')):
        if rng.random() < .6:
            final.append(rng.choice([a, b]))
    if not final:
        final = ['--zero_xy']
    case['height'] = None
    if rng.random() < .4:
        case['height'] = rng.choice([0.0, gen.value(rng, 50, neg=False), 5.0])
        final += [rng.choice(['--rapid_safety_height', '-rsh']), '%g' % round(case['height'], 3)]
        case['height'] = float('%g' % round(case['height'], 3))
    case['final'] = final
    return case


def do_c24_garbage(case, st):
    """--rm_invalid_modal: what is not understood is removed, everything else runs"""
    out = norm_lines(case)
    do_c23(case, st, lines=out, garbage=True)       # the output runs on a strict machine
    removed = 0
    for t in out:
        for w in ref.tokenize(split(t)[0]):
            pass
    for t in case['lines']:
        (codes, modal) = ref.parse(split(t)[0])[1:]
        removed += bool(modal)
    st.obs('lines with unassigned words', removed)


def gen_c24_garbage(rng, i):
    mode = rng.choice(NORM_MODES)
    case = {'mode': mode, 'arcs': False, 'canned': [], 'opts': formatting(rng) + [rng.choice(['--rm_invalid_modal', '-rmim'])]}
    case['lines'] = norm_program(rng, mode or NORM_MODE, False, False, garbage=True)
    return case


def C24():
    return dict(
        sections=[Section('formatting', do_c24, gen_c24, quick=1500, thorough=60000),
                  Section('finalising', do_c24_final, gen_c24_final, quick=1000, thorough=30000),
                  Section('replacing', do_c24_replace, gen_c24_replace, quick=600, thorough=20000),
                  Section('invalid words', do_c24_garbage, gen_c24_garbage, quick=800, thorough=30000)],
        anchors=[NORM],
        rule='The real script is run on random programs with random options; every output line is tokenised independently and '
             'checked against each option given, kept comments, macros and blank lines are counted, the finalising part is '
             'isolated by running with and without it and executed. Distinct (options, program) are counted.',
        assumptions=['as C23; without --full, removing codes may leave their modal words'],
        deciding=[('formatting', n) for n in ('singles', 'full', 'no comments', 'no blanks', 'no whitespace', 'codes removed',
                                              'other codes kept', 'comments kept', 'macros kept', 'blanks kept')] +
                 [('finalising', n) for n in ('back to absolute', 'final moves', 'spindle stops', 'given height', 'highest level')] +
                 [('replacing', n) for n in ('arcs replaced', 'cycles replaced', 'cycles kept')] +
                 [('invalid words', 'lines with unassigned words')])


# ----------------------------------------------------------------------- C25
CROP_AXES = 'XYZABC'
OPS = {'=': lambda a, b: a == b, '==': lambda a, b: a == b, '!=': lambda a, b: a != b, '<': lambda a, b: a < b,
       '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b}


def conditions(conds, n, pos):
    """all conditions true? (Skip if float noise decides)"""
    for (v, op, num) in conds:
        x = n if v == 'n' else pos[v.upper()]
        if v != 'n' and x != num and abs(x - num) < 1e-9:
            raise Skip()
        if not OPS[op](x, num):
            return False
    return True


def crop_text(conds):
    out = []
    for c in conds:
        if len(c) > 3:
            out.append(c[3])
    return ','.join(out)


def do_c25(case, st):
    lines = case['lines']
    text = '\n'.join(lines) + '\n'
    arg = ','.join(c[3] for c in case['first']) + ':' + ','.join(c[3] for c in case['last'])
    first = [c[:3] for c in case['first']]
    last = [c[:3] for c in case['last']]
    # what has to be kept
    r = ref.RefMachine(CROP_AXES, '')
    begin = end = None
    states = []
    for (k, t) in enumerate(lines):
        states.append(r.clone())
        (_w, codes, modal) = ref.parse(split(t)[0])
        try:
            r.run(codes, modal)
        except ref.RefError:
            raise Skip()
        pos = r.pos
        if begin is None and conditions(first, k + 1, pos):
            begin = k
        if begin is not None and last and conditions(last, k + 1, pos):
            end = k
            break
    if end is None:
        end = len(lines)
    what = 'crop %r of %r' % (arg, lines)
    if begin is not None:
        m = states[begin].mode.get(ref.MOTION)
        canned = m is not None and m.word in CANNED
    else:
        canned = False
    (out, err, code) = run_script('pygcode-crop', [None, arg], text)
    expect(code == 0, '%s ended with %r %s', what, code, err[-300:])
    out = out.split('\n')[:-1] if out else []
    if begin is None:
        expect(not any(t.strip() for t in out), '%s: no line matches, output is %r', what, out)
        st.obs('nothing kept')
        return
    kept = lines[begin:end]
    expect(len(out) >= len(kept), '%s: %d lines kept, expected %d', what, len(out), len(kept))
    pre = out[:len(out) - len(kept)]
    tail = out[len(out) - len(kept):]
    for (a, b) in zip(kept, tail):
        (pa, pb) = (split(a), split(b))
        same(('. '.join(pa[1]), pa[2]), ('. '.join(pb[1]), pb[2]), '%s: comment and macro of %r' % (what, a))
        (ca, ma) = ref.parse(pa[0])[1:]
        (cb, mb) = ref.parse(pb[0])[1:]
        expect(len(ca) == len(cb) and all(same_code(x, y) for (x, y) in zip(ca, cb)) and sorted(x[0] for x in ma) == sorted(y[0] for y in mb)
               and all(abs(x - y) < 1e-6 for ((_l, x), (_m, y)) in zip(sorted(ma), sorted(mb))), '%s: kept line %r is printed as %r', what, a, b)
    # the preamble, from any start
    old = states[begin]
    r2 = ref.RefMachine(CROP_AXES, '')
    for a in case['start']:
        r2.abs[a] = case['start'][a]
        r2.lo[a] = r2.hi[a] = r2.abs[a]
    for a in 'ABC':
        if old.lo[a] != old.hi[a]:
            r2.abs[a] = 77.0
    if canned:
        # recorded finding: the line that restores the modes drills a hole; what follows it is judged
        for (k, t) in enumerate(pre):
            if ref.parse(split(t)[0])[1]:
                play(r2, pre[:k + 1], '%s: modes' % what)
                pre = pre[k + 1:]
                break
    ev = play(r2, pre, '%s: preamble' % what)
    n = ref.NORMAL[old.plane()]
    side = [a for a in CROP_AXES if a != n]
    high = max(old.hi[n], 0.0)
    moves = [(c, b, a) for (_k, c, b, a) in ev if c.info.group == ref.MOTION and not same_place(b, a, 1e-9)]
    strays = [c for (_k, c, b, a) in ev if c.info.group != ref.MOTION and not same_place(b, a, 1e-9)]
    expect(not strays, '%s: preamble moves with %r', what, strays)
    for (idx, (c, b, a)) in enumerate(moves):
        expect(c.word == ('G', 0.0), '%s: preamble moves with %r', what, c)
        if any(abs(b[x] - a[x]) > 1e-9 for x in side):
            expect(b[n] >= old.hi[n] - 5.1e-4 and a[n] >= old.hi[n] - 5.1e-4, '%s: preamble moves sideways at %s=%r, highest level is %r',
                   what, n, b[n], old.hi[n])
            expect(abs(b[n] - a[n]) <= 1e-9, '%s: preamble moves sideways and along %s at once', what, n)
            st.obs('sideways')
    for a in CROP_AXES:
        if a in 'ABC' and old.lo[a] == old.hi[a]:
            continue
        expect(abs(r2.pos[a] - old.pos[a]) <= 5.1e-4, '%s: preamble ends at %s=%r, expected %r (%r)', what, a, r2.pos[a], old.pos[a], pre)
    stops = [c for (_k, c, _b, _a) in ev if c.info.group == GROUPS['stopping']]
    expect(not stops, '%s: preamble stops with %r', what, stops)
    st.obs('stopped before', int(old.mode.get(GROUPS['stopping']) is not None))
    st.obs('inches', int(any(c.word == ('G', 20.0) for (_k, c, _b, _a) in ev)))
    for (name, g) in GROUPS.items():
        if name == 'stopping':
            continue
        (x, y) = (old.mode.get(g), r2.mode.get(g))
        if name == 'motion' and (x is None or canned):
            continue
        if x is None:
            expect(y is None or (name == 'distance' and y.word == ('G', 90.0)), '%s: preamble sets %r', what, y)
            continue
        expect(y is not None and same_code(x, y, 5.1e-4), '%s: %s mode after the preamble is %r, expected %r', what, name, y, x)
    st.obs('preambles')
    if canned:
        st.obs('inside a canned cycle')
        return
    # and the kept lines do the same
    r1 = states[begin].clone()
    e1 = play(r1, kept, 'input')
    e2 = play(r2, tail, 'output')
    same(len(e2), len(e1), '%s: codes executed by the kept lines' % what)
    for ((_k, c1, _b, a1), (_k2, c2, _b2, a2)) in zip(e1, e2):
        expect(same_code(c1, c2, 1.1e-3), '%s: kept line executes %r, expected %r', what, c2, c1)
        for a in CROP_AXES:
            if a in 'ABC' and old.lo[a] == old.hi[a]:
                continue
            expect(abs(a1[a] - a2[a]) <= 6e-4, '%s: %r goes to %s=%r, expected %r', what, c2, a, a2[a], a1[a])
    st.obs('lines kept', len(kept))
    st.obs('incremental', int(old.incremental()))
    st.obs('plane %g' % old.plane())
    st.obs('angular', int(any(old.lo[a] != old.hi[a] for a in 'ABC')))
    st.obs('modal first line', int(bool(kept) and bool(ref.parse(split(kept[0])[0])[2])))
    st.seen([arg, lines])


CROP_SAFE = [w for w in SAFE if ref.TABLE[w].group not in (104, GROUPS['units'])]
STOPS = [('M', '0'), ('M', '1'), ('M', '60')]


def crop_program(rng):
    r = ref.RefMachine(CROP_AXES, '')
    lines = []
    axes = rng.choice(['XYZ', 'XYZ', 'XYZA', 'XYZABC', 'XYZC'])
    n = rng.choice([3, 6, 12, 25])
    kinds = {'line': 6, 'bare': 6, 'mode': 2, 'arc': 2, 'dist': .7, 'plane': .5, 'blank': .4, 'comment': .3, 'cycle': .15, 'cancel': .15, 'stop': .3}
    unit = rng.choice([None, None, '20', '21'])
    if unit:
        words = [('G', unit)]
        lines.append(gen.layout(rng, words))
        r.run_text(lines[0])
    names = sorted(kinds)
    tries = 0
    while len(lines) < n and tries < n * 50:
        tries += 1
        kind = rng.choices(names, [kinds[k] for k in names])[0]
        motion = r.mode.get(ref.MOTION)
        mag = rng.choice([5, 5, 100])
        if kind == 'line':
            words = [('G', rng.choice(['0', '1', '1']))] + prog.coords(rng, axes, mag)
            if rng.random() < .25:
                words = words + rng.choice([[('F', '100')], [('M', '3'), ('S', '1000')], [('G', '91')], [('G', '90')], [('T', '3')]])
        elif kind == 'bare' and motion is not None and motion.word not in CANNED:
            words = prog.coords(rng, axes, mag, .6)
            if motion.word in ARCS:
                words = words + [('R', gen.num(rng, 100, neg=False))]
        elif kind == 'mode':
            words = gen.block_words(rng, k=rng.choice([1, 2, 3]), pool=CROP_SAFE, p_param=.4)
        elif kind == 'arc':
            words = [('G', rng.choice(['2', '3']))] + prog.coords(rng, axes, mag, .6) + rng.choice([[('R', '50')], [('I', '1'), ('J', '2.5')]])
        elif kind == 'dist':
            words = [('G', rng.choice(['90', '91']))]
        elif kind == 'plane':
            words = [('G', rng.choice(['17', '18', '19']))]
        elif kind == 'cycle':
            words = [('G', '81'), ('X', gen.num(rng, 5)), ('Y', '1'), ('Z', '-2'), ('R', '1')]
        elif kind == 'cancel':
            words = [('G', '80')]
        elif kind == 'stop':
            words = [rng.choice(STOPS)]
            if rng.random() < .3:
                words = words + [('M', '5')]
        elif kind == 'blank':
            words = []
        elif kind == 'comment':
            lines.append('(' + comment(rng) + ')')
            continue
        else:
            continue
        text = gen.layout(rng, words)
        try:
            r.run_text(text)
        except ref.RefError:
            continue
        lines.append(decorate(rng, text, None))
    return lines, r


def gen_conds(rng, lines):
    """a few conditions, near values that occur"""
    if rng.random() < .1:
        return []
    out = []
    r = ref.RefMachine(CROP_AXES, '')
    seen = []
    for t in lines:
        try:
            r.run_text(split(t)[0])
        except ref.RefError:
            pass
        seen.append(dict(r.pos))
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        v = rng.choice('nnnxyzxyzabc')
        op = rng.choice(['=', '==', '!=', '<', '<=', '>', '>='])
        if v == 'n':
            num = rng.randint(1, len(lines) + 1)
        else:
            num = rng.choice(seen)[v.upper()] if seen else 0
            if rng.random() < .4:
                num += rng.choice([1, -1, 0.5, .001])
            num = round(num, 3)
        txt = gen.fmt(num)
        if v == 'n' and op == '=' and rng.random() < .5:
            s = txt
        else:
            s = rng.choice([v, v, v.upper()]) + rng.choice(['', '', ' ']) + op + rng.choice(['', '', ' ']) + txt
        if rng.random() < .1:
            s = ' ' + s
        out.append([v, op, float(txt), s])
    return out


def gen_c25(rng, i):
    (lines, _r) = crop_program(rng)
    while not lines:
        (lines, _r) = crop_program(rng)
    first = gen_conds(rng, lines)
    last = gen_conds(rng, lines)
    if rng.random() < .3:
        a = rng.randint(1, len(lines))
        first = [['n', '=', float(a), str(a)]]
        if rng.random() < .6:
            b = rng.randint(a, len(lines) + 2)
            last = [['n', '=', float(b), rng.choice(['%d', 'n=%d', 'N==%d']) % b]]
    return {'lines': lines, 'first': first, 'last': last, 'start': dict((a, gen.value(rng, 50)) for a in 'XYZ')}


def do_c25_bad(case, st):
    (out, err, code) = run_script('pygcode-crop', [None, case['range']], 'G1 X1\nX2\nX3\n')
    if case['ok']:
        expect(code == 0, 'range %r was refused: %r %s', case['range'], code, err[-200:])
        st.obs('accepted')
    else:
        expect(code == 2 and not out, 'range %r: exit %r, output %r', case['range'], code, out)
        st.obs('refused')
    st.seen(case)


def cases_c25(tier):
    good = [':', '1:2', '2:', ':3', 'n=1:n=2', 'N>=2:', 'x>1:x>=3', 'a=0:', 'b<=0,c!=1:z>5', 'z<=-2:', 'x>10,y>10:n>=123', 'X = 2 : n = 3',
            'x==2.000:', 'n!=1:n>2', 'y<0.5:', 'x>-1.25:']
    bad = ['', '1', '1:2:3', 'q=1:', 'n=1.5:', 'u>1:', 'x>:', 'x:', 'x=>1:', '>1.5:', '1;2:', 'x>1 y>2:', 'n<>1:', 'x=a:', '1.5:', ',:', 'x=1,:',
           'xx=1:', 'x=1e3:', ':n=1.5', ':q=1']
    return [{'range': r, 'ok': True} for r in good] + [{'range': r, 'ok': False} for r in bad]


def do_c25_process(case, st):
    arg = ','.join(c[3] for c in case['first']) + ':' + ','.join(c[3] for c in case['last'])
    text = '\n'.join(case['lines']) + '\n'
    if arg.startswith('-'):
        raise Skip()
    (out, err, code) = run_script('pygcode-crop', [None, arg], text)
    if code != 0:
        raise Skip()
    same(run_process('pygcode-crop', [None, arg], text)[::2], (out, 0), 'output of pygcode-crop as a process')
    st.obs('processes')


def probe_canned_crop():
    lines = ['G90 G17 G0 X0 Y0 Z5', 'G81 X1 Y1 Z-2 R1', 'X2', 'X3']
    (out, err, code) = run_script('pygcode-crop', [None, '3:'], '\n'.join(lines) + '\n')
    expect(code == 0, 'ended with %r', code)
    ev = []
    r = ref.RefMachine(CROP_AXES, '')
    pre = out.split('\n')[:-1][:-2]
    for t in pre:
        for c in r.run_text(split(t)[0]):
            ev.append(c)
    expect(not any(c.word in CANNED and 'Z' in c.params for c in ev), 'the preamble drills a hole: %r', pre)


def C25():
    return dict(
        sections=[Section('programs', do_c25, gen_c25, quick=4000, thorough=150000),
                  Section('ranges', do_c25_bad, cases=cases_c25),
                  Section('processes', do_c25_process, gen_c25, quick=16, thorough=300)],
        anchors=['scripts/pygcode-crop', 'src/pygcode/machine.py'],
        rule='Random programs on XYZABC and random range expressions; the expected lines are found by an independent interpreter, the '
             'printed preamble is executed from a random start and judged (levels of sideways moves, position, modes), and the '
             'kept lines are compared and executed. Distinct (range, program) are counted.',
        assumptions=['G17-G19, one unit, no end of program before the crop point; a canned cycle active at the crop point is a recorded finding',
                     'comparisons decided by float noise below 1e-9 are skipped'],
        probes=[('canned-active-at-crop', probe_canned_crop)],
        deciding=[('programs', n) for n in ('preambles', 'lines kept', 'incremental', 'plane 18', 'plane 19', 'angular', 'modal first line',
                                            'sideways', 'nothing kept', 'stopped before', 'inches')] + [('ranges', 'refused'), ('processes', 'processes')])


# ----------------------------------------------------------------------- C21
def do_c21(case, st):
    codes = []
    for (word, params) in case['codes']:
        w = (word[0], word[1])
        cls = getattr(pygcode, ref.info(w).cls)
        codes.append(cls(Word(*w), *[Word(l, v) for (l, v) in params]))
    before = [str(g) for g in codes]
    out = list(in_turns(case, omit_redundant_modes(iter(codes) if case['iter'] else list(codes)), lambda: omit_redundant_modes(
        [pygcode.GCodeRapidMove(X=1), pygcode.GCodeLinearMove(X=2), pygcode.GCodeFeedRate(5), pygcode.GCodeLinearMove(Y=3), pygcode.GCodeArcMoveCW(X=1, R=9)])))
    same([str(g) for g in codes], before, 'given codes')
    same(len(out), len(codes), 'number of codes')
    r1 = ref.RefMachine('XYZABC', '')
    r2 = ref.RefMachine('XYZABC', '')
    for (k, (g, orig)) in enumerate(zip(out, codes)):
        (word, params) = case['codes'][k]
        want = ref.Code((word[0], word[1]), [(l, v) for (l, v) in params])
        text = str(g)
        what = 'code %d %r printed as %r' % (k + 1, before[k], text)
        toks = ref.tokenize(text)
        (cs, modal) = ref.group(toks)
        m = r1.mode.get(ref.MOTION)
        redundant = want.info.group == ref.MOTION and m is not None and m.word == want.word
        same(not cs, redundant, '%s: code omitted (active motion %r)' % (what, m))
        same(sorted(toks if redundant else [t for t in toks[1:]]), sorted((l, float(v) if l not in 'L' else v) for (l, v) in params), '%s: parameters' % what)
        same((g.word.letter, g.word.value), (orig.word.letter, orig.word.value), '%s: word' % what)
        # run both
        r1.moves = []
        r1._exec(want)
        try:
            ex = r2.run(cs, modal)
        except ref.RefError as e:
            if e.kind == 'undefined':
                raise Skip()
            raise Violation('%s is refused: %s' % (what, e))
        if params or not redundant:
            expect(len(ex) == 1 and ex[0].word == want.word and all(ex[0].params.get(l) == v for (l, v) in want.params.items()),
                   '%s executes %r', what, ex)
        for a in r1.axes:
            expect(abs(r1.abs[a] - r2.abs[a]) < 1e-6, '%s: %s is %r, expected %r', what, a, r2.abs[a], r1.abs[a])
        for gid in set(r1.mode) | set(r2.mode):
            (x, y) = (r1.mode.get(gid), r2.mode.get(gid))
            same(y and y.word, x and x.word, '%s: mode' % what)
        st.obs('codes')
        st.obs('omitted', int(redundant))
        st.obs('motion after cancel', int(m is None and want.info.group == ref.MOTION))
    st.seen(case['codes'])


def gen_c21(rng, i):
    codes = []
    n = rng.choice([2, 5, 12, 40])
    last = None
    arc = rng.random() < .6
    for _ in range(n):
        k = rng.random()
        if k < .55 and last is not None:
            word = last
        elif k < .85:
            word = rng.choice([('G', 0.), ('G', 1.), ('G', 1.), ('G', 2.), ('G', 3.), ('G', 38.2), ('G', 38.3), ('G', 5.), ('G', 33.), ('G', 81.), ('G', 83.)])
        else:
            word = rng.choice([('G', 80.), ('G', 4.), ('M', 3.), ('M', 5.), ('M', 8.), ('G', 17.), ('G', 18.), ('G', 90.), ('G', 54.), ('G', 55.),
                               ('F', 100.), ('F', 100.), ('S', 50.), ('G', 61.), ('G', 64.), ('G', 21.), ('M', 0.), ('G', 98.), ('G', 41.), ('G', 92.), ('G', 28.)])
        inf = ref.info(word)
        if word in CANNED:
            z = gen.value(rng, 10)
            params = [('X', gen.value(rng)), ('Y', gen.value(rng)), ('Z', z), ('R', round(z + 1, 3))] + ([('Q', 1.0)] if word[1] == 83. else [])
        else:
            params = [(a, gen.value(rng)) for a in 'XYZABC' if a in inf.params and rng.random() < .4]
            params += [(l, gen.value(rng, 10)) for l in 'IJRP' if l in inf.params and rng.random() < .4]
        if inf.group == ref.MOTION:
            last = word
        codes.append([list(word), [list(p) for p in params]])
    return {'codes': codes, 'iter': rng.random() < .5}


def C21():
    return dict(
        sections=[Section('sequences', do_c21, gen_c21, quick=6000, thorough=200000)],
        anchors=['src/pygcode/utils.py', 'src/pygcode/gcodes.py'],
        rule='Random code sequences (with cancels, dwells, mode codes, arcs, probes, cycles) are passed through omit_redundant_modes; '
             'every printed line is tokenised and executed independently beside the original code. Distinct sequences are counted.',
        assumptions=['canned cycles with all their words; absolute mode'],
        deciding=[('sequences', 'omitted'), ('sequences', 'motion after cancel')])


CHECKS = dict(C21=C21, C23=C23, C24=C24, C25=C25)
