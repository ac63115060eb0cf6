"""Random programs (lists of operations) for machines"""
from . import gen, ref

AXES_SETS = ['XYZ', 'XYZ', 'XYZ', 'XYZABC', 'XYZABCUVW', 'XY', 'XZ', 'X', 'YZA', 'XYZA', 'XYZW', 'UVW']
MODES = [ref.DEFAULT_MODE] * 6 + [
    '', '', 'G0 G54 G17 G21 G90 G94 M5 M9 T0 F0 S0', 'G1 G91 G18 F100', 'G20 G90 G1', 'G80 G90 G99', 'G91', 'G90 G55',
    'G2 G19 G91.1 G59.3', 'G0 G98 G17 M3 S1000 T5', 'G38.3 G91 M8', 'G91 G20 G99 G17']

WEIGHTS = {'motion': 5, 'bare': 5, 'mode': 2, 'any': 2, 'canned': 1, 'cs': 0, 'bad': 0, 'distance': 1, 'select': 0,
           'cancel': .4, 'noise': .5, 'plane': .3, 'retract': .2}


FINE = [3]       # decimals of the coordinates of the program being generated


def coords(rng, letters, mag=200, p=0.5):
    if FINE[0] > 3 and rng.random() < .4:
        mag = rng.choice([mag, .01, 10 ** -FINE[0] * 9])
    if gen.NOVEL_NUMS and rng.random() < 0.06:
        mag = min(max(abs(v) for v in gen.NOVEL_NUMS) * 2 + mag, 1e8)
    out = [(l, gen.num(rng, mag, FINE[0])) for l in letters if rng.random() < p]
    rng.shuffle(out)
    return out


def repeats(rng):
    near = [int(v) for v in gen.NOVEL_NUMS if 2 <= v <= 200]
    if near and rng.random() < 0.3:
        return rng.choice(near) + rng.choice([0, 1, 2])
    return rng.choice([0, 1, 1, 1, 2, 2, 3, 5, 12, 33] if rng.random() < .97 else [100, 101, 130, 256, 257, 300, 1001])


def canned_words(rng, axes, mag=50, code=None, letters='XY', full=True):
    code = code or rng.choice([('G', 81.), ('G', 82.), ('G', 83.), ('G', 73.), ('G', 85.), ('G', 89.)])
    w = [('G', '%g' % code[1])]
    out = coords(rng, letters, mag, 0.7)
    if full or rng.random() < 0.7:
        out.append(('Z', gen.num(rng, mag)))
    if full or rng.random() < 0.7:
        out.append(('R', gen.num(rng, mag)))
    if rng.random() < 0.35:
        out.append(('L', '%d' % repeats(rng)))
    p = ref.TABLE[code].params
    if 'Q' in p and rng.random() < 0.8:
        out.append(('Q', gen.num(rng, 5, neg=False)))
    if 'P' in p and rng.random() < 0.4:
        out.append(('P', gen.num(rng, 5, neg=False)))
    rng.shuffle(out)
    return w + out


def bare_words(rng, r, mag=200):
    m = r.mode.get(ref.MOTION)
    if m is None:
        return None
    ls = [l for l in sorted(m.info.params) if l in 'XYZXYZABCUVWIJKRPQ']
    rng.shuffle(ls)
    ls = sorted(ls[:rng.randint(1, 4)], key=lambda l: (l not in r.axes, rng.random()))[:rng.randint(1, 3)]
    return [(l, gen.num(rng, mag, FINE[0])) for l in ls]


def bad_words(rng, r):
    """words of a block the machine has to refuse (usually)"""
    k = rng.random()
    if k < 0.2:          # unsupported code
        bad = rng.choice([('G', '12'), ('G', '84'), ('G', '86'), ('M', '98'), ('M', '100'), ('G', '5.4'), ('M', '70'), ('G', '100'),
                          ('G', '%.1f' % (rng.randint(0, 1999) / 10.)), ('M', '%d' % rng.randint(0, 199))])
        w = gen.block_words(rng, k=rng.choice([0, 1, 2]), axes=r.axes) if rng.random() < 0.7 else []
        w = list(w)
        w.insert(rng.randint(0, len(w)), bad)
        return w
    if k < 0.4:          # words nothing accepts
        w = gen.block_words(rng, k=rng.choice([1, 2]), pool=gen.NONMOTION) if rng.random() < 0.5 else coords(rng, 'XYZ')
        return w + [(l, gen.num(rng)) for l in rng.sample('DEHKQRIJPL', rng.randint(1, 2)) if l != 'L'] + \
            ([('L', '2')] if rng.random() < 0.3 else [])
    if k < 0.6:          # leftovers beside an explicit motion code
        m = rng.choice([w for w in gen.MOTIONS])
        left = [l for l in 'IJKRPQDHE' if l not in ref.TABLE[m].params]
        w = [('G', '%g' % m[1])] + coords(rng, 'XYZ') + ([('R', '1')] if m in ref.CANNED else [])
        w += [(l, gen.num(rng)) for l in rng.sample(left, min(len(left), rng.randint(1, 2)))]
        if rng.random() < 0.3:
            rng.shuffle(w)
        return w
    if k < 0.75:         # repeated bare coordinates
        w = bare_words(rng, r) or coords(rng, 'XYZ', p=0.8)
        if w:
            w.append((rng.choice(w)[0], gen.num(rng)))
        return w
    if k < 0.9:          # G80 with coordinates
        return [('G', '80')] + coords(rng, 'XYZ', p=0.6)
    return coords(rng, 'XYZABC', p=0.4)


def line_words(rng, r, kind):
    if kind == 'motion':
        code = rng.choice(gen.PLAIN_MOTIONS) if rng.random() < 0.4 else ('G', float(rng.choice([0, 1, 1, 2, 3])))
        w = [('G', gen.code_text(rng, code)[1:])]
        letters = r.axes if rng.random() < 0.8 else gen.AX
        w += coords(rng, letters, rng.choice([10, 200, 5000, 200, 10, 3e6, 10, 200] if rng.random() < 0.3 else [10, 200, 5000]))
        extra = [l for l in sorted(ref.TABLE[code].params) if l not in gen.AX]
        for l in extra:
            if rng.random() < 0.3:
                w.append((l, gen.word_text(rng, l, 10)))
        if rng.random() < 0.15:
            w = w[1:] + w[:1]
        if rng.random() < 0.25:
            w = gen.block_words(rng, k=1, pool=gen.NONMOTION_SAFE, p_param=0.3) + w
        return w
    if kind == 'bare':
        w = bare_words(rng, r)
        if w and rng.random() < 0.2:
            w = w + gen.code_words(rng, rng.choice([('F', None), ('S', None), ('M', 3.0), ('M', 8.0), ('G', 91.0), ('G', 90.0)]))
            if rng.random() < 0.5:
                rng.shuffle(w)
        return w
    if kind == 'mode':
        return gen.block_words(rng, k=rng.choice([1, 1, 2, 3]), pool=gen.NONMOTION, p_param=0.3)
    if kind == 'any':
        return gen.block_words(rng, axes=r.axes, p_param=0.4)
    if kind == 'canned':
        return canned_words(rng, r.axes, letters=rng.choice(['XY', 'XY', 'XYU', 'X', 'XYW']), full=rng.random() < 0.8)
    if kind == 'distance':
        return [('G', rng.choice(['90', '91']))] + (coords(rng, r.axes) if rng.random() < 0.3 and r.mode.get(ref.MOTION) else [])
    if kind == 'select':
        w = [('G', rng.choice(['54', '55', '56', '57', '58', '59', '59.1', '59.2', '59.3']))]
        if rng.random() < 0.5:
            w += [('G', rng.choice(['0', '1']))] + coords(rng, r.axes)
        return w
    if kind == 'cancel':
        w = [('G', '80')]
        if rng.random() < 0.4:
            w.insert(rng.randint(0, 1), ('G', rng.choice(['0', '1', '3'])))
            if rng.random() < 0.7:
                w += coords(rng, 'XYZ')
        return w
    if kind == 'noise':
        return [('N', str(rng.randint(0, 9999)))] if rng.random() < 0.5 else []
    if kind == 'plane':
        return [('G', rng.choice(['17', '18', '19', '17', '17.1', '18.1', '19.1'][:rng.choice([4, 4, 7])]))]
    if kind == 'retract':
        return [('G', rng.choice(['98', '99']))]
    if kind == 'bad':
        return bad_words(rng, r)
    raise AssertionError(kind)


gen.NONMOTION_SAFE = [w for w in gen.NONMOTION if not (ref.TABLE[w].params & set(gen.AX)) and w != ref.CANCEL]


def length(rng, options=(3, 8, 15, 30)):
    near = [int(v) for v in gen.NOVEL_NUMS if 2 <= v <= 300]
    if near and rng.random() < 0.25:
        return rng.choice(near) + rng.choice([0, 1, 2, 5])
    return rng.choice(options)


def program(rng, axes='XYZ', mode=ref.DEFAULT_MODE, n=None, weights=None, ignore=False, plain=False, fine=False):
    """list of operations: text of a block, or ['cs', index, {axis: offset}] (index 0: temporary offset)"""
    FINE[0] = rng.choice([3, 3, 3, 3, 4, 6]) if fine else 3
    try:
        return _program(rng, axes, mode, n, weights, ignore, plain)
    finally:
        FINE[0] = 3


def _program(rng, axes, mode, n, weights, ignore, plain):
    w = dict(WEIGHTS)
    w.update(weights or {})
    kinds = sorted(k for k in w if w[k] > 0)
    r = ref.RefMachine(axes, mode)
    r.ignore_invalid = ignore
    ops = []
    n = n or length(rng)
    while len(ops) < n:
        kind = rng.choices(kinds, [w[k] for k in kinds])[0]
        if kind == 'cs':
            i = rng.randint(0, 9)
            if rng.random() < 0.4:
                i = r.cur
            off = dict((a, gen.value(rng, 300)) for a in axes if rng.random() < 0.6)
            k = rng.random()
            if k < .3:                  # related to another offset, or to the position
                o = rng.choice([r.temp, r.cs[r.cur], r.cs[r.cur], r.cs[rng.randint(1, 9)], r.abs, r.pos])
                f = rng.choice([1, 1, -1])
                off = dict((a, f * o[a]) for a in axes)
            elif k < .36:
                off = dict.fromkeys(axes, 0.0)
            elif k < .42:               # nearly what it is (less than is printed)
                o = r.temp if i == 0 else r.cs[i]
                a = rng.choice(axes)
                off = {a: o[a] + rng.choice([1, -1]) * rng.choice([.0004, .0001, 2e-5])}
            t = r.temp if i == 0 else r.cs[i]
            t.update(off)
            ops.append(['cs', i, off])
            continue
        if ops and rng.random() < 0.06:
            text = rng.choice(ops)
            if not isinstance(text, str):
                continue
        else:
            words = line_words(rng, r, kind)
            if words is None:
                continue
            text = ' '.join(l + v for (l, v) in words) if plain else gen.layout(rng, words)
        try:
            r.run_text(text)
        except ref.RefError as e:
            if e.kind == 'undefined' or (kind != 'bad' and rng.random() < 0.8):
                continue
        ops.append(text)
    return ops


def setup(rng):
    axes = rng.choice(AXES_SETS)
    mode = rng.choice(MODES)
    return axes, mode
