"""Seeded generators: numbers, words, blocks, programs (text; judged by vf.ref)"""
from . import core, ref

(NOVEL_NUMS, NOVEL_STRS) = core.novel()
AX = 'XYZABCUVW'


def chance(rng, p):
    return rng.random() < p


def fmt(v, dec=3):
    """plain decimal text of v with at most dec decimals"""
    s = '%.*f' % (dec, v)
    if '.' in s:
        s = s.rstrip('0').rstrip('.')
    return '0' if s in ('-0', '') else s


def dress(rng, s):
    """another way to write the same number"""
    neg, s = (s[:1] == '-'), s.lstrip('-')
    r = rng.random()
    if r < 0.10:
        s = '0' * rng.randint(1, 3) + s
    elif r < 0.25 and s.startswith('0.') and len(s) > 2:
        s = s[1:]
    elif r < 0.32 and '.' not in s:
        s = s + '.'
    elif r < 0.40:
        s = (s if '.' in s else s + '.') + '0' * rng.randint(1, 3)
    return '-' + s if neg else s


def value(rng, mag=100.0, dec=3, neg=True):
    """a number (float with at most dec decimals)"""
    r = rng.random()
    if NOVEL_NUMS and r < 0.15:
        v = rng.choice(NOVEL_NUMS) + rng.choice([0, 0, 0, 1, -1, .001, -.001, .5])
        v = max(-mag, min(mag, v))
    elif r < 0.22:
        v = 0.0
    elif r < 0.40:
        v = float(rng.randint(0, int(min(mag, 20)) or 1))
    elif r < 0.50:
        v = rng.choice([0.001, 0.01, 0.1, 0.5, 0.25, 0.999, 1.001, 9.999, 99.9995])
    elif r < 0.60:
        v = rng.uniform(0, 1)
    else:
        v = rng.uniform(0, mag) if r < 0.85 else 10 ** rng.uniform(-3, 0.001 + _log10(mag))
    v = min(v, mag)
    if neg and rng.random() < 0.4:
        v = -v
    return round(v, dec) + 0.0


def _log10(x):
    import math
    return math.log10(x)


def num(rng, mag=100.0, dec=3, neg=True, plain=False):
    s = fmt(value(rng, mag, dec, neg), dec)
    return s if plain else dress(rng, s)


def code_text(rng, word, plain=False):
    (letter, v) = word
    s = '%g' % v
    if not plain and v < 10 and rng.random() < 0.4:
        s = '0' + s
    if not plain and rng.random() < 0.1 and '.' not in s:
        s += '.0'
    return letter + s


def word_text(rng, letter, mag=100.0, dec=3):
    """text of a value for a parameter (or letter code) word"""
    if letter in 'LNP' and letter != 'P':
        return '%d' % rng.choice([0, 1, 1, 2, 3, 5, 10, 99999])
    if letter == 'T':
        return '%d' % rng.randint(0, 40)
    if letter == 'O':
        return rng.choice(['100', 'main', 'sub1', '<name>', '12 call'])
    return num(rng, mag, dec)


ALL_CODES = list(ref.TABLE) + [(l, None) for l in 'FST']
MOTIONS = [w for w in ref.TABLE if ref.TABLE[w].group == 1]
PLAIN_MOTIONS = [w for w in MOTIONS if w not in ref.CANNED]
NONMOTION = [w for w in ref.TABLE if ref.TABLE[w].group != 1]


def layout(rng, words, case=True, glue=True):
    """join word texts [(letter, value text)] with arbitrary spacing and case"""
    out = []
    style = rng.random()
    for (i, (l, v)) in enumerate(words):
        if case and rng.random() < 0.25:
            l = l.lower()
        gap = ''
        if style > 0.8 and rng.random() < 0.3 and l.upper() != 'O':
            gap = rng.choice([' ', '  ', '\t'])
        sep = ' '
        if i == 0:
            sep = rng.choice(['', '', '', ' ', '\t', '  ']) if style > 0.6 else ''
        elif glue and style < 0.3:
            sep = rng.choice(['', '', ' '])
        elif style > 0.9:
            sep = rng.choice([' ', '\t', '   ', ''])
        out.append(sep + l + gap + v)
    return ''.join(out) + (rng.choice(['', ' ', '\t ']) if style > 0.7 else '')


def code_words(rng, code, params=None, mag=100.0, p_param=0.5, letters=None):
    """[(letter, text)] of a code and some of its parameters"""
    (letter, v) = code
    if v is None:
        return [(letter, num(rng, 9999, 2, neg=False) if letter in 'FS' else word_text(rng, letter))]
    words = [(letter, code_text(rng, code)[1:])]
    info = ref.TABLE[code]
    ps = sorted(info.params)
    rng.shuffle(ps)
    for l in ps:
        if letters is not None and l in AX and l not in letters:
            continue
        if rng.random() < p_param:
            words.append((l, word_text(rng, l, mag)))
    return words


def block_words(rng, k=None, pool=None, mag=100.0, line_no=0.1, axes=None, shuffle=True, letters=0.4, p_param=0.4):
    """words of a block that the reference accepts (non-conflicting codes, no repeated parameter)"""
    for _ in range(60):
        n = k if k is not None else rng.choice([1, 1, 1, 2, 2, 3, 4, 5, 6, 8])
        groups = []
        used = set()
        cand = list(pool or ref.TABLE)
        for _i in range(n):
            if rng.random() < letters * 0.5:
                code = (rng.choice('FST'), None)
                g = code[0]
            else:
                code = rng.choice(cand)
                g = ref.TABLE[code].group or code
            if g in used:
                continue
            used.add(g)
            groups.append(code_words(rng, code, mag=mag, letters=axes, p_param=p_param))
        if shuffle:
            rng.shuffle(groups)
        words = [w for g in groups for w in g]
        if shuffle and rng.random() < 0.15:
            rng.shuffle(words)
        if rng.random() < line_no:
            words.insert(0, ('N', '%d' % rng.randint(0, 99999)))
        text = ' '.join(l + v for (l, v) in words)
        try:
            ref.parse(text)
        except ref.RefError:
            continue
        return words
    return [('G', '1'), ('X', '1')]


def block_text(rng, **kw):
    return layout(rng, block_words(rng, **kw))


JUNK = '!"#$&\'*+,-./:<=>?@[\\]^_`{|}~'
PRINTABLE = ''.join(chr(c) for c in range(32, 127))
COMMENTY = ['G1 X5', 'M3', 'T1 M6', 'x', 'feed 50%', 'a;b', 'half - depth', 'N10 G0', '#100=5', '100%', 'L', 'Z-1',
            'tool: 3mm endmill', 'F', '%', ';', '...', 'G90G21', 'M30', 'e', '1', 'op. 1. rough', 'x: 1, y: 2']


def comment_text(rng, bad):
    r = rng.random()
    if r < 0.5:
        s = rng.choice(COMMENTY)
    elif r < 0.6 and NOVEL_STRS:
        s = rng.choice(NOVEL_STRS)
    else:
        s = ''.join(rng.choice(PRINTABLE) for _ in range(rng.randint(1, 30)))
    s = ''.join(c for c in s if c not in bad).strip()
    return s or 'c'
