"""C36, C37: dialects; scripts and programs that cannot be treated"""
import os
import re
import tempfile
import types

from pygcode import Block, Line, Word, dialects
from pygcode.dialects.utils import WordType
from pygcode.exceptions import GCodeWordStrError
from pygcode.words import str2word, text2words

from . import core, gen, p_tools, ref
from .core import Section, Skip, Violation, expect, same

SRC = 'src/pygcode/'


# ----------------------------------------------------------------------- C36
# kinds of values a dialect may give a letter: (class, pattern, printed as, {text: value})
def hexadecimal(v):
    return v if isinstance(v, int) else int(v[1:], 16)


FLOAT = re.compile(r'^\s*-?(\d+\.?\d*|\.\d+)')
KINDS = {
    'float': (float, FLOAT, lambda v: '%g' % v),
    'int': (int, re.compile(r'^\s*-?\d+'), lambda v: '%d' % v),
    'code': (float, re.compile(r'^\s*\d+(\.\d)?'), lambda v: '%04.1f' % v),
    'one decimal': (float, FLOAT, lambda v: '%.1f' % v),
    'five decimals': (float, FLOAT, lambda v: '%.5f' % v),
    'hex': (hexadecimal, re.compile(r'^\s*\$[0-9A-F]+'), lambda v: '$%X' % v),
    'quoted': (lambda v: v.strip('"'), re.compile(r'^\s*"[^"]*"'), lambda v: '"%s"' % v),
}


def kind_text(rng, kind):
    """(text, value) of one value"""
    v = gen.value(rng, 100)
    if kind in ('float', 'one decimal', 'five decimals'):
        s = gen.fmt(v)
        return s, float(s)
    if kind == 'int':
        return '%d' % int(v), int(v)
    if kind == 'code':
        s = '%d' % abs(int(v)) + rng.choice(['', '', '.%d' % rng.randint(0, 9)])
        return s, float(s)
    if kind == 'hex':
        return '$%X' % abs(int(v * 9)), abs(int(v * 9))
    s = re.sub('(?<= ) +', '', ''.join(rng.choice('abcABC 123') for _ in range(rng.randint(0, 6))))
    return '"%s"' % s, s


def shown(kind, v):
    return KINDS[kind][2](v)


def gen_c36(rng, i):
    ds = []
    for _ in range(2):
        letters = rng.sample('ABCDEFHIJKLPQRSTUVWXYZN', rng.randint(1, 14))
        d = dict((l, rng.choice(sorted(KINDS))) for l in letters)
        d['G'] = d['M'] = 'code'
        if rng.random() < .3:
            del d['M']
        ds.append(d)
    ops = []
    for _ in range(rng.choice([2, 4, 8])):
        k = rng.choice(['set', 'text', 'text', 'block', 'block', 'word', 'mixed', 'foreign'])
        which = rng.choice([0, 1, 2])                    # 2: linuxcnc
        op = [k, which, rng.random() < .5]               # True: name the dialect, False: rely on the default
        d = ds[which] if which < 2 else dict((l, 'float') for l in 'XYZIJKRABCUVW')
        words = []
        for l in rng.sample(sorted(d), min(len(d), rng.randint(1, 5))):
            if l == 'G':
                words.insert(0, [l, '1', 1.0])           # G1 and parameters of any value
            elif l not in 'FSTNM':
                words.append([l] + list(kind_text(rng, d[l])))
        op.append(words)
        other = [l for l in 'ABCDEFHIJKLPQRSTUVWXYZ' if l not in d]
        op.append(rng.choice(other) + '1' if other and which < 2 else None)
        op.append(rng.choice(['', ' ']))
        ops.append(op)
    return {'dialects': ds, 'ops': ops}


def do_c36(case, st):
    names = ['verif_one', 'verif_two', 'linuxcnc']
    kinds = case['dialects'] + [None]
    start = dialects.get_default()
    same(start, 'linuxcnc', 'default dialect')
    try:
        for (name, d) in zip(names, case['dialects']):
            setattr(dialects, name, types.SimpleNamespace(WORD_MAP=dict(
                (l, WordType(cls=KINDS[k][0], value_regex=KINDS[k][1], description='%s in %s' % (l, name), clean_value=KINDS[k][2]))
                for (l, k) in d.items())))
        current = 'linuxcnc'
        kept = []

        def check(words, d, want, what):
            kept.append((list(words), d, want, what))
            check_now(words, d, want, what)

        def check_now(words, d, want, what):
            same([(w.letter, w.value) for w in words], [(l, v) for (l, _t, v) in want], what)
            for (w, (l, _t, v)) in zip(words, want):
                if d is not None:
                    same(str(w), l + shown(d[l], v), '%s: printed word' % what)
                    expect(w.description.endswith(' in ' + names[kinds.index(d)]), '%s: description of %s is %r', what, w, w.description)
                else:
                    same(str(w), l + (ref_str(l, v)), '%s: printed word' % what)
        for (k, which, named, want, foreign, sep) in case['ops']:
            d, name = kinds[which], names[which]
            text = ''
            for (l, t, _v) in want:
                text += (' ' if '$' in text else sep) * bool(text) + l + t  # (a letter may go on a hexadecimal number)
            what = '%s %r in %s (%s)' % (k, text, 'dialect %d' % which if which < 2 else name, d)
            if k == 'set':
                dialects.set_default(name)
                current = name
                st.obs('defaults set')
            same(dialects.get_default(), current, 'default dialect after %s' % what)
            if not named and current != name:
                dialects.set_default(name)
            kw = {'dialect': name} if named else {}
            if k in ('text', 'set'):
                check(list(text2words(text, **kw)), d, want, what)
                if not named:
                    check(Line(text).block.words, d, want, what + ' as line')
                    for (l, t, v) in want:
                        check([str2word(l + t)], d, [[l, t, v]], what + ' as single word')
            elif k == 'block':
                b = Block(text, **kw)
                check(b.words, d, want, what)
                expect(set(w for g in b.gcodes for w in [g.word] + list(g.params.values())) | set(b.modal_params) == set(b.words),
                       '%s: codes %r and %r hold other words', what, b.gcodes, b.modal_params)
                for (l, t, v) in want:
                    same(getattr(b, l).value, v, '%s: attribute %s' % (what, l))
                if d is not None:
                    for l in ref.LETTERS:
                        if l in d:
                            expect(getattr(b, l) is None or l in [x[0] for x in want], '%s: attribute %s', what, l)
                        else:
                            expect(not hasattr(b, l), '%s: has attribute %s', what, l)
            elif k == 'word':
                for (l, t, v) in want:
                    check([Word(l, t, **kw)], d, [[l, t, v]], what + ' as Word(letter, value)')
                    check([Word(l + t, **kw)], d, [[l, t, v]], what + ' as Word(text)')
                    w = Word(l.lower(), t, **kw)
                    w.value = t
                    check([w], d, [[l, t, v]], what + ' as Word, set again')
            elif k == 'mixed' and which < 2:
                # two dialects at once, word by word
                o = kinds[1 - which]
                both = [x for x in want if x[0] in o and o[x[0]] == d[x[0]]]
                t2 = ' '.join(l + t for (l, t, _v) in both)
                (x, y) = (text2words(t2, dialect=names[which]), text2words(t2, dialect=names[1 - which]))
                got = []
                for (a, b) in zip(x, y):
                    got.append((a, b))
                check([a for (a, _b) in got], d, both, what)
                check([b for (_a, b) in got], o, both, what + ' beside')
                st.obs('mixed', len(both))
            elif k == 'foreign' and foreign:
                t2 = foreign + sep + text
                for fn in (lambda: list(text2words(t2, **kw)), lambda: Block(t2, **kw)):
                    try:
                        got = fn()
                    except GCodeWordStrError:
                        st.obs('foreign letters refused')
                    else:
                        raise Violation('%r in %s was read as %r' % (t2, d, got))
            if not named and current != name:
                dialects.set_default(current)
            for (words, d2, want2, what2) in kept[:40]:          # words read earlier are what they were
                check_now(words, d2, want2, what2 + ', read before ' + what)
                st.obs('kept words', len(words))
            st.obs('by name', int(named))
            st.obs('by default', int(not named))
            st.seen([sorted(d.items()) if d else None, text])
        dialects.set_default('linuxcnc')
        same([(w.letter, w.value) for w in text2words('g1 x.5y-2')], [('G', 1.0), ('X', 0.5), ('Y', -2.0)], 'words after the default was set back')
        same(str(Block('G1 X0.12345')), 'G01 X0.123', 'text after the default was set back')
    finally:
        dialects.set_default('linuxcnc')
        for name in names[:2]:
            if hasattr(dialects, name):
                delattr(dialects, name)


def ref_str(l, v):
    return ('%02d' % v if l in 'GM' and v < 10 and v == int(v) else gen.fmt(v))


def C36():
    return dict(
        sections=[Section('dialects', do_c36, gen_c36, quick=4000, thorough=200000)],
        anchors=[SRC + f for f in ('dialects/__init__.py', 'dialects/linuxcnc.py', 'words.py', 'block.py')],
        rule='Random dialects (letters, value classes, patterns and printed forms) are installed two at a time beside the built-in '
             'one; words, texts and blocks are read by named and by default dialect in any order, values known from generation. '
             'Distinct (dialect, text) are counted.',
        assumptions=['dialects without codes of their own: the codes are the built-in ones'],
        deciding=[('dialects', n) for n in ('defaults set', 'by name', 'by default', 'mixed', 'kept words', 'foreign letters refused')])


# ----------------------------------------------------------------------- C37
BAD = ['G1 X', 'X1 G12', 'M98 P1', 'G0 G1 X1', 'G1 X1 X2', 'F', 'G17 G18', 'hello', 'G2 X1 Y1 R1 R2', 'K5', 'G80 X1', 'G1 X1 E3', 'X1 X2', '#5=3',
       'G1 X[1+2]', 'S100 S200', 'G1 X1 Q2', 'M3 M4', 'G5.5', 'N5 N6', 'G1X..1', 'T', 'G1 X-', 'M199', 'G10.9',
       'G1 X1 *', 'G1 X1 =', 'X2 +', 'G0 Y1 /', 'X1 -', '@ G1 X1', 'G1 . X1', 'G1 X1 %%', 'X1 !', '$ X1', 'G1 X1 #', 'G1 & X1', 'G1 X1 Y', 'X1 \'']


def gen_c37(rng, i):
    case = {'script': rng.choice(['norm', 'norm', 'crop']), 'mode': None, 'arcs': False, 'canned': [], 'stdin': rng.random() < .1}
    if case['script'] == 'norm':
        case['opts'] = p_tools.formatting(rng)
        if rng.random() < .3:
            case['opts'] += ['--zero_xy', '--zero_z', '--spindle_off'][:rng.randint(1, 3)]
        case['lines'] = p_tools.norm_program(rng, p_tools.NORM_MODE, False, False)
    else:
        case['opts'] = []
        case['lines'] = p_tools.crop_program(rng)[0]
        n = len(case['lines'])
        first = rng.randint(1, max(n, 1))
        case['range'] = rng.choice([':', '%d:' % first, '%d:%d' % (first, rng.randint(first, n + 3)), ':%d' % first, '%d:' % (n + 9)])
    k = rng.randint(0, len(case['lines']))
    bad = rng.choice(BAD)
    if rng.random() < .2:
        bad += rng.choice([' (note)', ' ; note'])
    case['at'] = k
    case['lines'] = case['lines'][:k] + [bad] + case['lines'][k:]
    return case


def do_c37(case, st):
    """a line that cannot be read or executed ends the script, and is not hidden"""
    lines, k = case['lines'], case['at']
    if k >= len(lines):
        raise Skip()
    norm = case['script'] == 'norm'
    r = ref.RefMachine('XYZ' if norm else p_tools.CROP_AXES, p_tools.NORM_MODE if norm else '')
    for (n, t) in enumerate(lines[:k + 1]):
        try:
            (_w, codes, modal) = ref.parse(p_tools.split(t)[0])
            r.run(codes, modal)
        except ref.RefError as e:
            if n < k or e.kind == 'undefined':
                raise Skip()
            kind = e.kind
            break
        except Violation:
            raise Skip()
    else:
        raise Skip()                                     # (the line is fine here)
    name = 'pygcode-norm' if norm else 'pygcode-crop'
    args = case['opts'] + [None] if norm else [None, case['range']]
    text = '\n'.join(lines) + '\n'
    before = '\n'.join(lines[:k]) + '\n' if k else ''
    formatting = [o for o in case['opts'] if o not in ('--zero_xy', '--zero_z', '--spindle_off')]
    what = '%s %s on %r' % (name, ' '.join(a or 'FILE' for a in args), lines)
    (out, err, end) = p_tools.run_script(name, args, text)
    (fine, err2, end2) = p_tools.run_script(name, formatting + [None] if norm else args, before)
    if end2 != 0:
        raise Violation('%s %s on %r ended with %r' % (name, ' '.join(formatting), lines[:k], end2))
    if not norm and case['range'][-1] != ':':
        to = int(case['range'].split(':')[1])
        if to <= k and cut_before(case['range'], k):     # it never gets to that line
            same((end, out), (0, fine), '%s: end and output' % what)
            st.obs('not reached')
            st.seen([case['opts'], case.get('range'), lines])
            return
    expect(end != 0, '%s: line %d %r cannot be treated, ended as if all was well: %r', what, k + 1, lines[k], out)
    expect(out.startswith(fine), '%s: printed %r before line %d, without that line %r', what, out, k + 1, fine)
    rest = [l for l in out[len(fine):].split('\n') if l.strip()]
    own = set(l.strip() for l in rest)
    if kind in ('word', 'conflict', 'param', 'state'):
        expect(not own or (kind in ('param', 'state') and len(own) <= 1), '%s: printed %r for line %d %r', what, rest, k + 1, lines[k])
    st.obs('stopped: ' + kind)
    st.obs(case['script'])
    st.seen([case['opts'], case.get('range'), lines])


def cut_before(rng, k):
    """does a crop by line numbers end before line k + 1 is read?"""
    (a, b) = rng.split(':')
    first = int(a) if a else 1
    to = int(b)
    return first <= to <= k


def gen_c37_process(rng, i):
    case = gen_c37(rng, i)
    if rng.random() < .5:
        case['lines'].pop(case['at'])                    # a program without bad lines
        case['at'] = None
    return case


def do_c37_process(case, st):
    """processes: status, streams, input file, standard input"""
    import subprocess
    import sys
    norm = case['script'] == 'norm'
    name = 'pygcode-norm' if norm else 'pygcode-crop'
    text = '\n'.join(case['lines']) + '\n'
    args = case['opts'] + [None] if norm else [None, case['range']]
    (out, err, end) = p_tools.run_script(name, args, text)
    d = tempfile.mkdtemp(prefix='verif')
    path = os.path.join(d, 'in put.ngc')
    try:
        with open(path, 'w') as fh:
            fh.write(text)
        os.utime(path, (1e9, 1e9))
        env = dict(os.environ, PYTHONPATH=core.SRC, PYTHONDONTWRITEBYTECODE='1')
        cmd = [sys.executable, os.path.join(core.REPO, 'scripts', name)]
        runs = [subprocess.run(cmd + [path if a is None else a for a in args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=d, timeout=60),
                subprocess.run(cmd + ['-' if a is None else a for a in args], input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               env=env, cwd=d, timeout=60)]
        for (how, p) in zip(('file', 'standard input'), runs):
            what = '%s %s on %r from %s' % (name, args, case['lines'], how)
            same(p.stdout.decode(), out, '%s: output' % what)
            expect((p.returncode == 0) == (end == 0), '%s: status %r, expected %r', what, p.returncode, end)
            expect((p.returncode == 0) or p.stderr.strip(), '%s: failed without a message', what)
        with open(path) as fh:
            same(fh.read(), text, 'input file afterwards')
        same((os.stat(path).st_mtime, os.listdir(d)), (1e9, ['in put.ngc']), 'folder afterwards')
        st.obs('files')
        st.obs('failed', int(end != 0))
    finally:
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)
    st.seen([args, case['lines']])


def cases_c37(tier):
    out = []
    for o in (['--arc_lin_method', 'x'], ['-alm', 'i,'], ['-alm', 'i,o,m'], ['-alm', 'io'], ['-alp', 'fine'], ['-rsh', 'high'], ['-cc', 'foo'], ['-rmg', 'G'],
              ['--bogus'], ['-cc', '81'], ['-alp'], ['-alm', ',i'], ['-alm', 'i o'], ['-rmg', ''], ['-cc', ','], ['-rmg', 'G81,'],
              ['-cc', 'G81;G82'], ['-alp', '0.1mm'], ['-rsh']):
        out.append({'script': 'norm', 'args': o})
    for o in ([], ['1:2', '3:4'], ['1'], ['x=1:', '--full'], ['n=1.5:'], ['1.5:'], [':2.25'], ['1:n<3.1'], ['x:'], ['x>:'], ['q>3:'], ['1::2'],
              ['x=>1:'], ['1:2:3'], ['x>1 y>2:'], ['x>1,:'], [',:'], ['x>one:'], ['x>1:y'], ['u>1:'], ['x===1:'], ['x>1.:'], ['2-5'], ['']):
        out.append({'script': 'crop', 'args': o})
    return out


def do_c37_options(case, st):
    """options that mean nothing are refused before anything is printed"""
    name = 'pygcode-' + case['script']
    (out, err, end) = p_tools.run_script(name, [None] + case['args'], 'G1 X1\nG2 X2 R1\n')
    expect(end != 0 and not out, '%s %r: ended with %r and printed %r', name, case['args'], end, out)
    st.obs('refused options')
    st.seen(case)


def C37():
    return dict(
        sections=[Section('bad lines', do_c37, gen_c37, quick=1000, thorough=60000),
                  Section('processes', do_c37_process, gen_c37_process, quick=25, thorough=600),
                  Section('options', do_c37_options, cases=cases_c37)],
        anchors=['scripts/pygcode-norm', 'scripts/pygcode-crop', SRC + 'machine.py', SRC + 'words.py', SRC + 'block.py'],
        rule='Valid programs with one line that cannot be read or executed (judged by the independent interpreter) are given to both '
             'scripts, in this process and in processes of their own, from files and standard input; status, output before the line, '
             'messages, input file and folder are compared. Distinct (options, program) are counted.',
        assumptions=['the refused line itself may already have been printed'],
        deciding=[('bad lines', 'norm'), ('bad lines', 'crop'), ('bad lines', 'not reached'), ('processes', 'files'), ('processes', 'failed'),
                  ('options', 'refused options')])


CHECKS = dict(C36=C36, C37=C37)
