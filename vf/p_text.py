"""C01-C04, C27, C28: words, comments, lines, code objects"""
import copy
import math

import pygcode
from pygcode import Block, Line, Machine, Word, text2gcodes, words2gcodes
from pygcode.words import str2word, text2words
from pygcode.comment import CommentBrackets, CommentSemicolon, split_line
from pygcode.exceptions import (GCodeBlockFormatError, GCodeParameterError, GCodeWordStrError,
                                MachineInvalidState)

from . import gen, ref
from .core import Section, Violation, expect, in_turns, same

TEXT_ANCHORS = ['src/pygcode/words.py', 'src/pygcode/dialects/linuxcnc.py', 'src/pygcode/line.py',
                'src/pygcode/comment.py', 'src/pygcode/block.py', 'src/pygcode/gcodes.py']


def pairs(words):
    return [(w.letter, w.value) for w in words]


def outcome(fn):
    """('ok', value) or ('error', exception class name)"""
    try:
        return ('ok', fn())
    except Exception as e:
        return ('error', e)


def check_words(text, st):
    try:
        want = ref.tokenize(text)
    except ref.RefError:
        want = None
    try:
        words = list(in_turns(text, text2words(text), lambda: text2words('g02x-1.5 Y 20.25 I.5 n77 M30')))
    except GCodeWordStrError:
        expect(want is None, 'text2words(%r) was refused, expected words %r', text, want)
        st.obs('refused')
        st.seen(['refused', text])
        return None
    if want is None:
        raise Violation('text2words(%r) gave %r, the text is not valid' % (text, pairs(words)))
    got = pairs(words)
    expect(len(got) == len(want), 'text2words(%r) gave %d words %r, expected %d %r', text, len(got), got, len(want), want)
    for (g, w) in zip(got, want):
        expect(g == w and type(g[1]) is type(w[1]), 'text2words(%r): word %r, expected %r', text, g, w)
    st.obs('words', len(got))
    st.obs('texts')
    st.seen(text)
    return words


# ----------------------------------------------------------------------- C01
def gen_c01(rng, i):
    lines = []
    for _ in range(rng.choice([1, 2, 3, 6])):
        r = rng.random()
        if lines and r < 0.2:
            lines.append(rng.choice(lines))
            continue
        if r < 0.5:
            words = [(l, gen.word_text(rng, l, rng.choice([1, 100, 1e4, 1e9, 1e15]), rng.choice([0, 3, 6])) if l not in 'GM'
                      else gen.dress_code(rng)) for l in
                     [rng.choice('ABCDEFGHIJKLMNPQRSTUVWXYZGXYZ') for _ in range(size(rng, [1, 2, 3, 5, 8, 13, 30]))]]
        else:
            words = gen.block_words(rng)
        if rng.random() < 0.05:
            words = words + [(rng.choice('LNXYZPF'), str(rng.randint(0, 10 ** rng.randint(8, 18))).rjust(rng.choice([0, 20]), '0'))]
        if rng.random() < 0.08:
            words = words + [('O', rng.choice(['name', '100', '12 x', 'G1X5', '5-a', '<x>', 'a(b']))]
        s = gen.layout(rng, words)
        if rng.random() < 0.05:
            s = rng.choice(['/', '/ ', ' /']) + s
        lines.append(s)
    return {'lines': lines, 'mutate': rng.random() < 0.5}


def dress_code(rng):
    v = rng.choice([rng.randint(0, 9), rng.randint(0, 199), rng.choice([5.1, 38.2, 59.3, 92.3, 43.1, 17.1])])
    return gen.code_text(rng, ('G', v))[1:]


gen.dress_code = dress_code


def size(rng, options):
    """a length; around the new constants of the code, now and then"""
    near = [int(v) for v in gen.NOVEL_NUMS if 2 <= v <= 200]
    if near and rng.random() < 0.25:
        return max(1, rng.choice(near) + rng.choice([-1, 0, 1, 2]))
    return rng.choice(options)


def do_c01(case, st):
    first = {}
    for text in case['lines']:
        if 'O' in text.upper():
            text = ' '.join(text.split())    # (blanks in a program name are not part of the property)
        words = check_words(text, st)
        got = pairs(words) if words is not None else None
        if text in first:
            same(got, first[text], 'second parse of %r' % text)
            st.obs('repeats')
        first[text] = got
        if words is None:
            b = outcome(lambda: Block(text, verify=False))
            if text.strip():
                expect(b[0] == 'error' and isinstance(b[1], GCodeWordStrError), 'Block(%r) accepted invalid text', text)
            continue
        b = outcome(lambda: Block(text, verify=False))
        if b[0] == 'ok':
            same(pairs(b[1].words), got, 'Block(%r).words' % text)
            for l in set(w[0] for w in got):
                w = getattr(b[1], l)
                same((w.letter, w.value), [x for x in got if x[0] == l][0], 'Block(%r).%s' % (text, l))
            st.obs('blocks')
        else:
            expect(isinstance(b[1], GCodeParameterError), 'Block(%r): %r', text, b[1])
        if len(got) == 1:
            w = str2word(text)
            same((w.letter, w.value), got[0], 'str2word(%r)' % text)
            one = Word(text) if text[0].isalpha() and text.isprintable() and ' ' not in text else w
            same((one.letter, one.value), got[0], 'Word(%r)' % text)
            for x in (w, one) if case['mutate'] else ():
                x.value = {float: 12.5, int: 7, str: 'zz'}[type(x.value)]
                for again in (str2word(text), str2word(text) if one is w else Word(text)):
                    same((again.letter, again.value), got[0], '%r after changing a returned word' % text)
        elif len(got) == 0:
            same(str2word(text), None, 'str2word(%r)' % text)
        else:
            r = outcome(lambda: str2word(text))
            expect(r[0] == 'error' and isinstance(r[1], GCodeWordStrError), 'str2word(%r) accepted several words', text)
        if case['mutate']:
            for w in words:
                w.value = {float: 12.5, int: 7, str: 'zz'}[type(w.value)]
            if b[0] == 'ok':
                b[1].words[:] = []
            same(pairs(text2words(text)), got, 'parse of %r after changing returned words' % text)
            st.obs('mutations')


def gen_c01_bad(rng, i):
    lines = []
    for _ in range(rng.choice([1, 2, 4])):
        s = gen.layout(rng, gen.block_words(rng))
        for _k in range(rng.choice([1, 1, 2, 4])):
            r = rng.random()
            p = rng.randint(0, len(s))
            if r < 0.4:
                s = s[:p] + rng.choice(gen.JUNK + '[]()' if rng.random() < 0.7 else gen.PRINTABLE) + s[p:]
            elif r < 0.6 and s:
                s = s[:p] + s[p + 1:]
            elif r < 0.75:
                s = s[:p] + rng.choice(['--', '-', '.', '..', '+', ' . ', '- ', '=5', '1e5', 'e5', '5.5.5', '-.']) + s[p:]
            elif r < 0.9 and s:
                s = s[:p] + rng.choice('XYZFGMTNLO') + s[p:]
            else:
                s = s[:p]
        lines.append(s.replace('\n', ' '))
    return {'lines': lines, 'mutate': False}


def C01():
    return dict(
        sections=[Section('grammar', do_c01, gen_c01, quick=20000, thorough=300000),
                  Section('corrupted', do_c01, gen_c01_bad, quick=40000, thorough=400000)],
        anchors=TEXT_ANCHORS[:2],
        rule='Block texts from the word grammar (all letters, value forms, layouts, magnitudes) and corrupted ones, in '
             'sequences with repeats and edits of returned words; distinct texts are counted. The monitor compares the '
             'words with an independent tokenizer.',
        assumptions=['printable ASCII; comments are removed before the block is split'],
        deciding=[('grammar', 'words'), ('corrupted', 'refused'), ('grammar', 'repeats')])


# ----------------------------------------------------------------------- C02
def gen_c02(rng, i):
    letter = rng.choice('ABCDEFHIJKPQRSUVWXYZ' * 2 + 'GMLNTO')
    if letter in 'GM':
        v = rng.choice([rng.randint(0, 19), rng.randint(0, 199), rng.randint(0, 1999) / 10., rng.randint(0, 10 ** rng.randint(3, 9)),
                        rng.randint(0, 10 ** rng.randint(4, 9)) / 10.])
    elif letter in 'LN':
        v = rng.choice([rng.randint(0, 99), rng.randint(0, 10 ** rng.randint(2, 18))])
    elif letter == 'T':
        v = str(rng.randint(0, 9999)).rjust(rng.choice([1, 1, 4]), '0')
    elif letter == 'O':
        v = rng.choice(['main', '100', 'a b', '<sub>', '007'])
    else:
        e = rng.choice([0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 16, 17, -2, -3, -4, -6])
        v = rng.choice([rng.uniform(-1, 1) * 10 ** e, round(rng.uniform(-1, 1) * 10 ** e, 3), float(round(10.0 ** e)),
                        10 ** e - 0.0005, 10 ** e - 0.0004, 10. ** e, 1.0 * rng.randint(-10 ** max(e, 1), 10 ** max(e, 1)),
                        0.0, -0.0, gen.value(rng, 1e6, 4)])
        if rng.random() < 0.2:
            v = int(v)
    form = rng.choice(['value', 'text', 'one'])
    return {'letter': letter, 'value': v, 'form': form}


def do_c02(case, st):
    (letter, v) = (case['letter'], case['value'])
    numeric = isinstance(v, (int, float))
    text = None
    if case['form'] != 'value' or letter in 'TO':
        text = v if not numeric else repr(float(v)) if letter not in 'LN' else '%d' % v
        if 'e' in text and numeric:
            text = '%.6f' % v
    if text is None:
        w = Word(letter, v)
    elif case['form'] == 'one':
        w = Word(letter.lower() + text)
    else:
        w = Word(letter, text)
    want = v if not (numeric and text) else (float(text) if letter not in 'LN' else int(text))
    same(w.letter, letter, 'letter of %r' % case)
    same(w.value, want, 'value of %r' % case)
    s = str(w)
    expect(s[:1] == letter, '%r printed as %r', case, s)
    body = s[1:]
    expect(body == w.value_str, 'value_str %r and str %r differ', w.value_str, s)
    if numeric:
        expect(body.lstrip('-').replace('.', '', 1).isdigit(), '%r printed as %r: not a plain decimal', case, s)
    toks = ref.tokenize(s)
    expect(len(toks) == 1, '%r printed as %r reads as %r', case, s, toks)
    back = list(text2words(s))
    same(pairs(back), toks, 'reading %r' % s)
    b = back[0]
    if letter in 'LNTOGM':
        same(b.value, w.value, 'value of %r after writing %r' % (case, s))
    else:
        tol = 0.0005 + 4e-16 * abs(want) * 2
        expect(abs(b.value - want) <= tol + 1e-9, '%r printed as %r, value lost %g', case, s, abs(b.value - want))
    if letter in 'GM' and want < 10:
        expect(body[:1] == '0' and body[1:2].isdigit(), 'code %r printed as %r, not zero padded', case, s)
    if letter in 'GM' and want >= 10:
        expect(body[:1] != '0', 'code %r printed as %r', case, s)
    same(str(b), s, 'second writing of %r' % case)
    same(str(str2word(s)), s, 'str2word writing of %r' % case)
    expect(Word(letter, b.value) == b and hash(Word(letter, b.value)) == hash(b), 'equality of %r', s)
    st.obs('written')
    st.obs('big', int(numeric and abs(v) >= 1000))
    st.seen([letter, s])


def cases_c02(tier):
    out = []
    for l in 'ABCDEFHIJKPQRSUVWXYZ':
        for e in range(-6, 18):
            for m in (1.0, -1.0, 9.9996, 1.2345, -5.5005, 1.0005):
                out.append({'letter': l, 'value': m * 10.0 ** e, 'form': 'value'})
    for l in 'GM':
        for t in list(range(0, 2000)) + [10 ** e + d for e in range(4, 11) for d in (-10, -1, 0, 1, 5, 10)]:
            out.append({'letter': l, 'value': t / 10., 'form': ['value', 'text'][t % 2]})
    return out


def C02():
    return dict(
        sections=[Section('random', do_c02, gen_c02, quick=200000, thorough=2000000),
                  Section('enumerated', do_c02, cases=cases_c02)],
        anchors=TEXT_ANCHORS[:2],
        rule='Word values of every letter over 24 decades (random, and enumerated: every G/M tenth from 0 to 199.9, six '
             'mantissas per decade and letter) are written, read back and written again; distinct texts are counted.',
        assumptions=['finite values up to 1e18 in magnitude (codes: 1e10, above which their value is no longer exact to a tenth)'],
        deciding=[('random', 'big'), ('enumerated', 'written')])


# ----------------------------------------------------------------------- C03
def gen_c03(rng, i, within=True):
    """a line of code segments, comments and a macro"""
    words = gen.block_words(rng, k=rng.choice([None, None, 1])) if rng.random() < 0.85 else []
    texts = [l + v for (l, v) in words]
    parts = []          # ('code', text) | ('b', text) | ('s', text) | ('m', text)
    glue = rng.random() < 0.3
    for (k, t) in enumerate(texts):
        if rng.random() < 0.3:
            parts.append(('b', gen.comment_text(rng, ')')))
        if within and rng.random() < 0.08:         # a comment within the word
            at = rng.randint(1, len(t) - 1)
            parts += [('code', t[:at]), ('b', gen.comment_text(rng, ')'))]
            t = t[at:]
        parts.append(('code', t if glue else t + rng.choice([' ', ' ', '  ', '\t'])))
    while rng.random() < 0.4:
        parts.append(('b', gen.comment_text(rng, ')')))
        if rng.random() < 0.5:
            parts.append(('code', ' '))
    macro = rng.random() < 0.2
    if rng.random() < 0.4:
        parts.append(('s', gen.comment_text(rng, '%' + ('()' if macro else ''))))
        if not macro and rng.random() < 0.2:
            parts[-1] = ('s', parts[-1][1].replace('(', '').replace(')', '') + rng.choice(['(50%)', ' (G1)', '((', ')', ' )(', '(a;b)']))
            parts[-1] = ('s', parts[-1][1].strip())
    if macro:
        parts.append(('m', '%' + rng.choice(['', 'macro', gen.comment_text(rng, '\r\n'), 'x%', '%'])))
    return {'parts': parts, 'eol': rng.choice(['', '', '\n', '\n', ' \n', '\r\n'])}


def do_c03(case, st):
    text, code, comments, macro, kinds = '', '', [], None, set()
    semi = False
    for (k, t) in case['parts']:
        if k == 'code':
            text += t
            code += t
        elif k == 'b':
            text += '(' + t + ')'
            comments.append(t)
            kinds.add('b')
        elif k == 's':
            text += '; ' + t
            comments.append(t)
            semi = True
        else:
            text += t
            macro = t
    want_words = ref.tokenize(code)
    (_wc, want_codes, want_modal) = ref.parse(code)
    line = Line(text + case['eol'])
    same(pairs(line.block.words), want_words, 'executable words of %r' % text)
    same([(g.word.letter, g.word.value) for g in line.gcodes], [c.word for c in want_codes], 'codes of %r' % text)
    if comments:
        expect(line.comment is not None, 'comment of %r is lost', text)
        same(line.comment.text.rstrip(), '. '.join(comments), 'comment of %r' % text)
        expect(isinstance(line.comment, CommentSemicolon if semi else CommentBrackets),
               'class of the comment of %r: %r', text, line.comment)
        for c in comments:
            expect(c.strip() in str(line.comment), 'text %r missing in %s', c, line.comment)
    else:
        expect(line.comment is None, '%r has no comment, got %r', text, line.comment)
    if macro is None:
        expect(line.macro is None, '%r has no macro, got %r', text, line.macro)
    else:
        expect(line.macro is not None, 'macro of %r is lost', text)
        same(str(line.macro).rstrip(), macro.rstrip(), 'macro of %r' % text)
    if macro is None:
        (block_str, comment) = split_line(text + case['eol'])
        same(ref.tokenize(block_str), want_words, 'split_line(%r) code' % text)
        same(comment.text.rstrip() if comment else None, '. '.join(comments) if comments else None,
             'split_line(%r) comment' % text)
    st.obs('lines')
    st.obs('comments', len(comments))
    st.obs('mixed', int(semi and len(comments) > 1))
    st.obs('macros', int(macro is not None))
    st.obs('codelike', sum(1 for c in comments if any(w in c for w in ('G', 'M', ';', '%'))))
    if comments or macro:
        st.seen(text)


def C03():
    return dict(
        sections=[Section('lines', do_c03, gen_c03, quick=60000, thorough=800000)],
        anchors=TEXT_ANCHORS[2:4],
        rule='Lines assembled from code words, bracket comments anywhere, a trailing semicolon comment and a trailing macro '
             'with arbitrary printable text; the monitor knows the parts. Distinct lines with a comment or macro are counted.',
        assumptions=['a "%" inside a semicolon comment starts a macro (as on the original tree), so it is not generated there',
                     'bracket comments do not contain ")"; comment texts are not blank'],
        deciding=[('lines', 'mixed'), ('lines', 'macros'), ('lines', 'codelike')])


# ----------------------------------------------------------------------- C04
def line_text(rng):
    words = gen.block_words(rng, mag=rng.choice([10, 1000, 1e6]), p_param=rng.choice([0.2, 0.5, 0.9]))
    if rng.random() < 0.35:                                # modal (bare) words
        have = set(w[0] for w in words)
        extra = [(l, gen.word_text(rng, l, 1e4)) for l in rng.sample('XYZABCIJKRPQD', rng.randint(1, 4)) if l not in have]
        if extra and rng.random() < 0.3:                   # (bare words may repeat, with any value)
            again = rng.choice(extra)
            extra.insert(rng.randint(0, len(extra)), again if rng.random() < .6 else (again[0], gen.word_text(rng, again[0], 1e4)))
        pos = rng.choice([0, len(words)])
        words = words[:pos] + extra + words[pos:] if rng.random() < 0.5 else extra
    if rng.random() < 0.04:
        words = words + [('O', rng.choice(['100', 'main', '<x>']))]
    s = gen.layout(rng, words)
    if rng.random() < 0.3:
        s += rng.choice(['', ' ']) + '(' + gen.comment_text(rng, ')%') + ')'
    if rng.random() < 0.15:
        s += ' ; ' + gen.comment_text(rng, '%()')
    if rng.random() < 0.1:
        s += ' %' + gen.comment_text(rng, '()')
    return s


def gen_c04(rng, i):
    for _ in range(50):
        s = line_text(rng)
        code = s.split('(')[0].split(';')[0].split('%')[0]
        try:
            (_w, codes, modal) = ref.parse(code)
        except ref.RefError:
            continue
        if any(c.word[0] == 'O' for c in codes) and modal:
            continue
        return {'line': s}
    return {'line': 'G1 X1'}


def facts(line):
    """what a line means"""
    return {
        'codes': [[g.word.letter, g.word.value, sorted((w.letter, w.value) for w in g.params.values())] for g in line.gcodes],
        'modal': [(w.letter, w.value) for w in line.block.modal_params],
        'comment': line.comment and ' '.join(line.comment.text.split()),
        'macro': line.macro and str(line.macro).rstrip(),
    }


def close_val(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= 0.0005 + 1e-9 + 1e-15 * abs(a)
    return a == b


def same_facts(f1, f2, what):
    same(len(f2['codes']), len(f1['codes']), '%s: number of codes' % what)
    for ((l1, v1, p1), (l2, v2, p2)) in zip(f1['codes'], f2['codes']):
        expect(l1 == l2 and close_val(v1, v2), '%s: code %s%s became %s%s', what, l1, v1, l2, v2)
        expect([l for (l, _) in p1] == [l for (l, _) in p2] and all(close_val(a[1], b[1]) for (a, b) in zip(p1, p2)),
               '%s: parameters of %s%s %r became %r', what, l1, v1, p1, p2)
    expect(sorted(l for (l, _) in f1['modal']) == sorted(l for (l, _) in f2['modal']) and
           [l for (l, _) in f1['modal']] == [l for (l, _) in f2['modal']] and
           all(close_val(a[1], b[1]) for (a, b) in zip(f1['modal'], f2['modal'])),
           '%s: modal parameters %r became %r', what, f1['modal'], f2['modal'])
    same(f2['comment'], f1['comment'], '%s: comment' % what)
    same(f2['macro'], f1['macro'], '%s: macro' % what)


def do_c04(case, st):
    text = case['line']
    l1 = Line(text)
    f1 = facts(l1)
    s1 = str(l1)
    code = text.split('(')[0].split(';')[0].split('%')[0]
    (_w, codes, modal) = ref.parse(code)
    same_facts({'codes': [[c.word[0], c.word[1], sorted(c.params.items())] for c in codes], 'modal': modal,
                'comment': f1['comment'], 'macro': f1['macro']}, f1, 'parsing %r' % text)
    l2 = Line(s1)
    f2 = facts(l2)
    same_facts(f1, f2, 'line %r printed as %r' % (text, s1))
    s2 = str(l2)
    expect(s2.rstrip() == s1.rstrip(), 'printed line %r prints as %r', s1, s2)
    sb = str(l1.block)
    b2 = Block(sb, verify=False)
    same(str(b2), sb, 'block text')
    for g in l1.gcodes:                       # each code alone
        again = outcome(lambda: words2gcodes(list(text2words(str(g)))))
        if again[0] == 'ok' and len(again[1][0]) == 1:
            g2 = again[1][0][0]
            expect(type(g2) is type(g), 'code %r printed as %r reads as %r', g, str(g), g2)
            same(str(g2), str(g), 'code text')
        else:
            raise Violation('code %r printed as %r reads as %r' % (g, str(g), again[1]))
    same(facts(Line(text)), f1, 'line %r parsed again' % text)
    st.obs('lines')
    st.obs('codes', len(f1['codes']))
    st.obs('modal', len(f1['modal']))
    st.obs('multi', int(len(f1['codes']) > 2))
    st.seen(text)


def C04():
    return dict(
        sections=[Section('roundtrip', do_c04, gen_c04, quick=40000, thorough=400000)],
        anchors=[TEXT_ANCHORS[2], TEXT_ANCHORS[4], TEXT_ANCHORS[5], TEXT_ANCHORS[0]],
        rule='Parseable lines over all codes (any word order, bare words, comments, macros) are printed, re-parsed and '
             'printed again; distinct lines are counted. The first parse is compared with the reference grouping too.',
        assumptions=['no unassigned words beside an O word (its name extends to the end of the line)',
                     'no "%" in comments (an un-bracketed one starts a macro)'],
        deciding=[('roundtrip', 'multi'), ('roundtrip', 'modal')])


# ----------------------------------------------------------------------- C27
OK_ERRORS = (GCodeWordStrError, GCodeParameterError, GCodeBlockFormatError, AssertionError)
REAL_LINES = [
    'N10 G00 X1.0 Y-2.5 Z.5 (rapid)', 'G01 Z-0.5 F100 ; plunge', 'G2 X10 Y0 I5 J0', 'G3 X0 Y10 R10', 'T1 M6', 'S1000 M3',
    'G17 G21 G40 G49 G80 G90', 'G81 X1 Y2 Z-3 R1 L2', 'G83 X1 Z-10 R1 Q2', 'M30', '%', 'O100', '(header)', 'G91.1 G90',
    'G38.2 Z-5 F10', 'G10 L2 P1 X0 Y0 Z0', 'G28 Z0', 'G92 X0', 'M98 P100', 'G4 P0.5', 'X1 Y2', 'G43 H1 Z10', 'G54', 'G59.3',
]


def gen_c27(rng, i):
    r = rng.random()
    if r < 0.25:
        s = ''.join(rng.choice(gen.PRINTABLE) for _ in range(rng.randint(0, 80)))
    elif r < 0.4:
        s = ''.join(rng.choice('GXYZMFSTNO0123456789.-  ();%') for _ in range(rng.randint(0, 200)))
    elif r < 0.75:
        s = rng.choice(REAL_LINES) if rng.random() < 0.5 else line_text(rng)
        for _ in range(rng.randint(0, 6)):
            p = rng.randint(0, len(s))
            q = rng.random()
            if q < 0.4:
                s = s[:p] + rng.choice(gen.PRINTABLE) + s[p:]
            elif q < 0.6:
                s = s[:p] + s[p + rng.randint(1, 3):]
            elif q < 0.8:
                t = rng.choice(REAL_LINES)
                s = s[:p] + t[rng.randint(0, len(t)):] + s[p:]
            else:
                a = rng.randint(0, len(s))
                s = s[:p] + s[min(a, p):max(a, p)] + s[p:]
    else:
        unit = rng.choice(['(', ')', '%', ';', '((', '()', '(a', 'G1', 'X1', ' ', '-', '.', '1', 'X-', '1.', '/', '(%', '%(', ';(',
                           'G', '\t', '0', 'G1 ', 'x1 ', '( ', '9', '(;', 'N1'])
        s = unit * (400 // len(unit))
        s = s[:rng.choice([400, 399, 200, 37, 5])]
        if rng.random() < 0.5:
            p = rng.randint(0, len(s))
            s = s[:p] + rng.choice(gen.PRINTABLE) + s[p:]
        if rng.random() < 0.3:
            s = rng.choice(REAL_LINES) + s
    return {'line': s[:400].replace('\r', ' ').replace('\n', ' ')}


def fingerprint(text):
    o = outcome(lambda: Line(text))
    if o[0] == 'ok':
        l = o[1]
        return (l, ['ok', facts(l), str(l), str(l.block), [str(w) for w in l.block.words]])
    if not isinstance(o[1], OK_ERRORS):
        raise Violation('Line(%r) raised %s: %s' % (text, type(o[1]).__name__, o[1]))
    return (None, ['error', type(o[1]).__name__])


def machine_view(m):
    return {
        'pos': dict((k, v) for (k, v) in m.pos.values.items()),
        'abs': dict(m.abs_pos.values), 'lo': dict(m.abs_range_min.values), 'hi': dict(m.abs_range_max.values),
        'mode': str(m.mode), 'cur': m.state.cur_coord_sys,
    }


def eq_views(a, b):
    return repr(a) == repr(b)       # (nan-proof)


def do_c27(case, st):
    text = case['line']
    (line, f1) = fingerprint(text)
    (line2, f2) = fingerprint(text)
    expect(repr(f1) == repr(f2), 'Line(%r) gave %r, then %r', text, f1, f2)
    st.obs('accepted' if line else 'refused')
    st.seen(text)
    if not any(c in text for c in '(;%'):
        try:
            ref.parse(text)
            want = 'ok'
        except ref.RefError as e:
            want = {'word': 'GCodeWordStrError', 'param': 'GCodeParameterError', 'conflict': 'AssertionError'}[e.kind]
        got = f1[0] if f1[0] == 'ok' else f1[1]
        expect(got == want, 'Line(%r): %s, expected %s', text, f1, want)
        st.obs('judged')
    if not line:
        return
    if any(w.letter == 'L' and w.value > 500 for w in line.block.words):
        return
    before = (str(line), str(line.block), repr(facts(line)), [str(w) for w in line.block.words], [repr(g) for g in line.gcodes])
    ms = [Machine(), Machine()]
    outs = []
    for m in ms:
        o = outcome(lambda: m.process_block(line.block))
        outs.append(('ok', repr(machine_view(m))) if o[0] == 'ok' else ('error', type(o[1]).__name__, repr(machine_view(m))))
        after = (str(line), str(line.block), repr(facts(line)), [str(w) for w in line.block.words], [repr(g) for g in line.gcodes])
        expect(before == after, 'running %r changed it: %r became %r', text, before, after)
    expect(outs[0] == outs[1], 'running %r twice: %r and %r', text, outs[0], outs[1])
    m = Machine()
    o = outcome(lambda: m.process_str(text))
    same(('ok' if o[0] == 'ok' else 'error', repr(machine_view(m))), (outs[0][0], outs[0][-1]), 'process_str(%r) against process_block' % text)
    st.obs('executed' if outs[0][0] == 'ok' else 'execution refused')
    # once more on the machine that already ran it
    m2 = copy.copy(ms[0])
    a = outcome(lambda: ms[0].process_block(line.block))
    b = outcome(lambda: m2.process_block(Line(text).block))
    same(a[0], b[0], 'second run of %r' % text)
    expect(eq_views(machine_view(ms[0]), machine_view(m2)), 'second run of the parsed block %r differs from a fresh parse', text)


def gen_c27_prog(rng, i):
    lines = []
    for _ in range(rng.choice([3, 8, 20])):
        if lines and rng.random() < 0.3:
            lines.append(rng.choice(lines))
        else:
            lines.append(gen_c04(rng, 0)['line'])
    return {'lines': lines}


def do_c27_prog(case, st):
    """one parse of every distinct line, reused on several machines, equals fresh parses"""
    parsed = {}
    text0 = {}
    reused, fresh = Machine(), Machine()
    other = Machine()
    for t in case['lines']:
        if t not in parsed:
            parsed[t] = Line(t)
            text0[t] = (str(parsed[t]), repr(facts(parsed[t])))
        if any(w.letter == 'L' and w.value > 500 for w in parsed[t].block.words):
            continue
        a = outcome(lambda: reused.process_block(parsed[t].block))
        b = outcome(lambda: fresh.process_block(Line(t).block))
        same(a[0] == 'ok' or type(a[1]).__name__, b[0] == 'ok' or type(b[1]).__name__, 'outcome of %r' % t)
        expect(eq_views(machine_view(reused), machine_view(fresh)), 'after %r: re-used blocks give %r, fresh ones %r', t,
               machine_view(reused), machine_view(fresh))
        outcome(lambda: other.process_block(parsed[t].block))
        for (k, l) in parsed.items():
            expect((str(l), repr(facts(l))) == text0[k], 'running %r changed the parsed line %r into %r', t, k, str(l))
        st.obs('steps')
    st.seen(case['lines'])


def C27():
    return dict(
        sections=[Section('lines', do_c27, gen_c27, quick=20000, thorough=250000),
                  Section('programs', do_c27_prog, gen_c27_prog, quick=1200, thorough=15000)],
        anchors=TEXT_ANCHORS + ['src/pygcode/machine.py'],
        rule='Random, mutated and adversarially repetitive printable lines up to 400 characters are parsed twice and, when '
             'accepted, run on several machines; a CPU watchdog bounds every case. Distinct lines/programs are counted.',
        assumptions=['printable ASCII, no line breaks', 'programs are not executed with repeat counts above 500'],
        deciding=[('lines', 'accepted'), ('lines', 'refused'), ('lines', 'executed'), ('lines', 'judged'), ('programs', 'steps')])


# ----------------------------------------------------------------------- C28
def gclass(word):
    return getattr(pygcode, ref.TABLE[word].cls)


def gen_c28(rng, i):
    word = rng.choice(list(ref.TABLE))
    info = ref.TABLE[word]
    ps = sorted(info.params)
    params = dict((l, pval(rng, l)) for l in ps if rng.random() < 0.6)
    edits = []
    for _ in range(rng.choice([0, 1, 3, 6])):
        if ps:
            l = rng.choice(ps)
            edits.append([l, pval(rng, l)])
    bad = rng.choice([l for l in 'ABCDEFHIJKLPQRSTUVWXYZ' if l not in info.params])
    return {'code': list(word), 'params': params, 'edits': edits, 'bad': bad}


def pval(rng, l):
    if l == 'L':
        return rng.randint(0, 20)
    if l == 'T':
        return str(rng.randint(0, 20))
    return gen.value(rng, rng.choice([10, 1e5]))


def rng_sign(case):
    return 1 if len(case['edits']) % 2 else -1


def do_c28(case, st):
    word = tuple(case['code'])
    cls = gclass(word)
    params = case['params']
    pws = [Word(l, v) for (l, v) in sorted(params.items())]
    by_words = cls(Word(word[0], word[1]), *pws)
    text = str(by_words)
    (codes, modal) = words2gcodes([Word(word[0], word[1])] + [Word(l, v) for (l, v) in params.items()])
    expect(len(codes) == 1 and not modal, '%s %r grouped as %r %r', word, params, codes, modal)
    by_text = text2gcodes(text)[0]
    made = [by_words, codes[0], by_text]
    ref_default = cls()
    if (ref_default.word.letter, ref_default.word.value) == word:
        made.append(cls(**params))
    shown = lambda g: dict((l, getattr(g, l)) for l in sorted(ref.TABLE[word].params))
    # the word of one code built without giving it is no other code's
    (was, usual) = (ref_default.word.value, str(ref_default))
    try:
        ref_default.word.value = 3
        same(str(cls()), usual, 'a new %s after the word of another was edited' % cls.__name__)
        expect(type(words2gcodes([Word(*word)])[0][0]) is cls, '%s is no %s after the word of one was edited', word, cls.__name__)
    finally:
        ref_default.word.value = was

    def consistent(g, want, what):
        expect(type(g) is cls, '%s: %r is not a %s', what, g, cls.__name__)
        same(dict((l, v) for (l, v) in shown(g).items() if v is not None), want, '%s: attributes' % what)
        same(g.get_param_dict(), want, '%s: get_param_dict' % what)
        same(dict((w.letter, w.value) for w in g.params.values()), want, '%s: params' % what)
        same(set(g.params), set(want), '%s: keys of params' % what)
        same(g.get_param_dict(lc=True), dict((l.lower(), v) for (l, v) in want.items()), '%s: lower-case dict' % what)
        some = sorted(want)[::2]
        same(g.get_param_dict(some), dict((l, want[l]) for l in some), '%s: get_param_dict(%r)' % (what, some))
        for none in ('', [], set()):
            same(g.get_param_dict(none), {}, '%s: get_param_dict(%r)' % (what, none))
        same(g.get_param_dict(letters=''.join(some) + case['bad'], lc=True), dict((l.lower(), want[l]) for l in some),
             '%s: get_param_dict with a foreign letter' % what)
        toks = ref.tokenize(str(g))
        same(toks[0][0], word[0], '%s: text %s' % (what, g))
        expect(abs(toks[0][1] - word[1]) < 1e-9, '%s: text %s', what, g)
        same(set(l for (l, _) in toks[1:]), set(want), '%s: letters in the text %s' % (what, g))
        for (l, v) in toks[1:]:
            expect(close_val(v, want[l]), '%s: %s shows %s%s, is %r', what, g, l, v, want[l])
        for (l, v) in want.items():
            expect(str(Word(l, v)) in repr(g), '%s: %s%s missing in %r', what, l, v, g)
    for (k, g) in enumerate(made):
        want = dict(params)
        if g is by_text:
            for (l, v) in want.items():
                if isinstance(v, float):
                    want[l] = round(v, 3) + 0.0
                    expect(abs(getattr(by_text, l) - v) <= 0.0005 + 1e-9, '%s%s became %r', l, v, getattr(by_text, l))
                    want[l] = getattr(by_text, l)
        consistent(g, want, 'code %d of %r' % (k, case))
        for h in made:
            if g is not by_text and h is not by_text or want == params:
                expect(g == h and not (g != h) and str(g) == str(h), '%r and %r are not equal', g, h)
    # independence and edits
    g = made[1]
    want = dict(params)
    for (l, v) in case['edits']:
        setattr(g, l, v)
        want[l] = v
        consistent(g, want, 'after %s=%r' % (l, v))
        st.obs('edits')
    consistent(by_words, dict(params), 'the other code, after edits')
    if want != params:
        expect(g != by_words and not (g == by_words), '%r and %r are equal', g, by_words)
    # a code with a word more, or less, or another value is not equal, whichever comes first
    for l in sorted(params):
        fewer = cls(Word(word[0], word[1]), *[w for w in pws if w.letter != l])
        other = cls(Word(word[0], word[1]), *[w if w.letter != l else Word(l, 77 if l == 'L' else '77' if l == 'T' else params[l] + 1) for w in pws])
        near = []
        if l not in 'LT':
            for d in (1e-4, 1e-7, 1e-10):
                v = params[l] + d * rng_sign(case)
                if v != params[l]:
                    near.append(cls(Word(word[0], word[1]), *[w if w.letter != l else Word(l, v) for w in pws]))
        for h in [fewer, other] + near:
            expect(h != by_words and by_words != h and not h == by_words and not by_words == h, '%r and %r are equal', by_words, h)
        st.obs('unequal codes')
    # foreign letters
    bad = case['bad']
    for make in (lambda: cls(Word(word[0], word[1]), Word(bad, 1)), lambda: g.add_parameter(Word(bad, 1))):
        o = outcome(make)
        expect(o[0] == 'error' and isinstance(o[1], GCodeParameterError), '%s accepted parameter %s', word, bad)
    o = outcome(lambda: getattr(g, bad))
    expect(o[0] == 'error' and isinstance(o[1], AttributeError), '%s has attribute %s', word, bad)
    if params:
        l = sorted(params)[0]
        o = outcome(lambda: by_words.add_parameter(Word(l, 5)))
        expect(o[0] == 'error' and isinstance(o[1], GCodeParameterError), '%s accepted %s twice', word, l)
    consistent(by_words, dict(params), 'after refused parameters')
    # copies
    for dup in (copy.deepcopy(g),):
        consistent(dup, want, 'deep copy')
        expect(dup == g, 'deep copy of %r is %r', g, dup)
    mc = by_words.modal_copy()
    keep = dict((l, v) for (l, v) in params.items() if l in ref.TABLE[word].sticky)
    consistent(mc, keep, 'modal copy')
    if keep:
        l = sorted(keep)[0]
        setattr(mc, l, 3 if l == 'L' else 3.25)
        consistent(by_words, dict(params), 'original after editing its modal copy')
    st.obs('codes')
    st.seen([word, sorted(params), [e[0] for e in case['edits']]])


def gen_c28_words(rng, i):
    def one():
        l = rng.choice('XYZGMFPLN')
        return [l, rng.randint(0, 5) if l in 'LN' else rng.choice([0, 1, 1.5, 2, 3, 10, 28]) * 1.0]
    words = [one() for _ in range(rng.choice([2, 3, 6]))]
    for w in list(words):
        if rng.random() < .2 and w[0] not in 'LN':        # as close as numbers can be
            words.append([w[0], w[1] + rng.choice([1e-3, 1e-6, 1e-9, 1e-12, 1e-15, w[1] * 2.3e-16])])
    return {'words': words}


def do_c28_words(case, st):
    for (k, (l, v)) in enumerate(case['words']):        # a word that was changed is as good as a new one
        (a, b) = (Word(l, 1), Word(l, v))
        (hash(a), str(a), a == b, a in set([b]))
        a.value = v
        expect(a == b and hash(a) == hash(b) and str(a) == str(b) and a in set([b]) and not (a != b), '%r changed to %r is not %r', l, v, b)
    ws = [Word(l, v) for (l, v) in case['words']]
    for (a, ka) in zip(ws, case['words']):
        text = str(a)
        written = lambda w: w[0] not in 'GM' or w[1] == round(w[1], 1)     # (other codes have no text)
        exact = written(ka) and ref.tokenize(text)[0][1] == ka[1]
        if written(ka):
            expect((a == text) == exact and (a != text) == (not exact), '%r and its text %r: equal is not %r', a, text, exact)
        for (b, kb) in zip(ws, case['words']):
            (x, y) = (tuple(ka), tuple(kb))
            same((a == b, a != b, a < b, a > b, a <= b, a >= b), (x == y, x != y, x < y, x > y, x <= y, x >= y),
                 'comparisons of %r and %r' % (a, b))
            if x == y:
                same(hash(a), hash(b), 'hash of equal words')
            if written(kb):
                same(a == str(b), (ka[0], ka[1]) == ref.tokenize(str(b))[0], '%r == %r' % (a, str(b)))
            st.obs('comparisons')
    same([(w.letter, w.value) for w in sorted(ws)], sorted(tuple(k) for k in case['words']), 'sorting')
    same(len(set(ws)), len(set(tuple(k) for k in case['words'])), 'set of words')
    st.seen(case['words'])


def gen_letters(rng, i):
    case = {'letter': rng.choice('FSTNO'), 'v': rng.randint(0, 9999)}
    if rng.random() < .6:
        case['many'] = rng.choice([rng.uniform(0, 1e5), rng.randint(0, 10 ** 8) / 1000., float(rng.randint(10 ** 6, 10 ** 9)), rng.uniform(0, 1)])
    if rng.random() < .3:
        case['v'] = rng.randint(10 ** 5, 10 ** 9)
    return case


def rng_near(v):
    return 1e-9 * max(abs(v), 1e-3)


def do_letters(case, st):
    cls = {'F': 'GCodeFeedRate', 'S': 'GCodeSpindleSpeed', 'T': 'GCodeSelectTool', 'N': 'GCodeLineNumber',
           'O': 'GCodeProgramName'}[case['letter']]
    cls = getattr(pygcode, cls)
    (l, v) = (case['letter'], case['v'])
    a = cls(v)
    b = cls(Word(l, v))
    c = Line('%s%d' % (l, v)).gcodes[0]
    for g in (a, b, c):
        expect(type(g) is cls and g.word.letter == l and str(g) == '%s%d' % (l, v), '%s%d built as %r', l, v, g)
        expect(g == a and not g.params, '%r != %r', g, a)
    for (k, g) in enumerate((a, b, c)):           # another number from now on
        n = (v * 7 + k) % (10000 if v < 10000 else 10 ** 9)
        g.word.value = str(n) if l == 'O' else n
        same(str(g), '%s%d' % (l, n), 'text after the number was changed to %d' % n)
        expect(str(n) in repr(g), 'repr after the number was changed to %d is %r', n, g)
        expect(g == cls(n) if l != 'O' else True, '%r is not %s%d', g, l, n)
        g.word.value = str(v) if l == 'O' else v
        same(str(g), '%s%d' % (l, v), 'text after the number was changed back')
    many = case.get('many')
    if many is not None and l in 'FS':            # built from the number itself: no digit is lost
        g = cls(many)
        same((g.word.letter, g.word.value), (l, many), '%s(%r): its word' % (cls.__name__, many))
        for h in (cls(Word(l, many)), words2gcodes([Word(l, many)])[0][0]):
            expect(g == h and not (g != h) and str(g) == str(h), '%s(%r) is %r, from its word %r', cls.__name__, many, g, h)
        shown = ref.tokenize(str(g))[0][1]
        expect(abs(shown - many) <= 0.0005 + 1e-9 * abs(many), '%s(%r) is written %s', cls.__name__, many, g)
        near = many + rng_near(many)
        expect(cls(near) != g and not cls(near) == g, '%s(%r) equals %s(%r)', cls.__name__, near, cls.__name__, many)
        m = Machine()
        m.process_gcodes(cls(many))
        now = m.mode.feed_rate if l == 'F' else m.mode.spindle_speed
        same(now.word.value, many, '%s(%r): what the machine keeps' % (cls.__name__, many))
        st.obs('numbers kept')
    if l == 'N':
        same(a.number, v, 'line number')
    if l == 'O':
        same(c.name, str(v), 'program name')
    st.obs('letter codes')
    st.seen([l, v])


def C28():
    return dict(
        sections=[Section('codes', do_c28, gen_c28, quick=20000, thorough=200000),
                  Section('words', do_c28_words, gen_c28_words, quick=3000, thorough=60000),
                  Section('letters', do_letters, gen_letters, quick=2000, thorough=5000)],
        anchors=['src/pygcode/gcodes.py', 'src/pygcode/words.py'],
        rule='Every supported code class is built from words, text and keywords with random accepted parameters, edited, '
             'copied and given foreign parameters; words are compared in all pairs. Distinct (code, letters, edits) are counted.',
        deciding=[('codes', 'edits'), ('codes', 'codes'), ('words', 'comparisons')])


CHECKS = dict(C01=C01, C02=C02, C03=C03, C04=C04, C27=C27, C28=C28)
