"""C05-C08, C22, C26: grouping, conflicts, dictionary, order, splitting, user codes"""
import copy
import itertools

import pygcode
from pygcode import Block, Line, Machine, Word, text2gcodes, words2gcodes, split_gcodes
from pygcode import gcodes as gcodes_module
from pygcode.exceptions import GCodeParameterError, GCodeWordStrError, MachineInvalidState
from pygcode.words import text2words

from . import gen, mach, ref
from .core import Section, Violation, expect, same

ANCHORS = ['src/pygcode/gcodes.py', 'src/pygcode/block.py', 'src/pygcode/machine.py']


def shape(gcodes):
    return [((g.word.letter, g.word.value), dict((w.letter, w.value) for w in g.params.values())) for g in gcodes]


def ref_shape(codes):
    return [(c.word, dict(c.params)) for c in codes]


# ----------------------------------------------------------------------- C05
def rand_word(rng):
    r = rng.random()
    if r < 0.4:
        return list(rng.choice(list(ref.TABLE)))
    if r < 0.5:
        return [rng.choice('GM'), rng.randint(0, 1999) / 10.]
    l = rng.choice('ABCDEFHIJKLNPQRSTUVWXYZXYZPQLST')
    if l in 'LN':
        return [l, rng.randint(0, 99)]
    if l == 'T':
        return [l, str(rng.randint(0, 99))]
    return [l, gen.value(rng, 1000)]


def gen_c05(rng, i):
    n = rng.choice([1, 2, 3, 3, 4, 5, 6, 8, 12, 20])
    near = [int(v) for v in gen.NOVEL_NUMS if 2 <= v <= 60]
    if near and rng.random() < 0.2:
        n = rng.choice(near) + rng.choice([0, 1, 2])
    words = [rand_word(rng) for _ in range(n)]
    if rng.random() < 0.7:       # avoid repeated letters of parameters, so that the grouping succeeds more often
        out = []
        for w in words:
            if w[0] in 'GM' or w[0] not in [x[0] for x in out]:
                out.append(w)
        words = out
    return {'words': words}


def do_c05(case, st):
    ws = [tuple(w) for w in case['words']]
    try:
        want = ref.group(ws)
    except ref.RefError:
        want = None
    given = [Word(l, v) for (l, v) in ws]
    for attempt in (0, 1):
        try:
            (gcodes, rest) = words2gcodes(given)
        except GCodeParameterError:
            expect(want is None, '%r was refused', ws)
            st.obs('refused')
            continue
        expect(want is not None, '%r gives a code one parameter twice, but was grouped as %r', ws, gcodes)
        same([(w.letter, w.value) for w in given], ws, 'the given words')
        same(shape(gcodes), ref_shape(want[0]), 'codes of %r' % ws)
        same([(w.letter, w.value) for w in rest], want[1], 'unassigned words of %r' % ws)
        total = sorted([s[0] for s in shape(gcodes)] + [p for s in shape(gcodes) for p in s[1].items()] +
                       [(w.letter, w.value) for w in rest], key=repr)
        same(total, sorted(ws, key=repr), 'all words of %r' % ws)
        for g in gcodes:
            i = ref.info((g.word.letter, g.word.value))
            same(type(g).__name__, i.cls, 'class of %r' % g)
            expect(set(g.params) <= i.params, '%r holds parameters %r', g, sorted(g.params))
            for (k, w) in g.params.items():
                same(k, w.letter, 'key of parameter %r' % w)
        st.obs('grouped')
        st.obs('codes', len(gcodes))
        st.obs('several codes', int(len(gcodes) > 1))
        st.obs('unassigned', len(rest))
    st.seen(ws)


def do_c05_text(case, st):
    """the same through text, block and the no-leftover function"""
    text = case['line']
    (_w, codes, modal) = ref.parse(text)
    b = Block(text)
    same(shape(b.gcodes), ref_shape(codes), 'codes of block %r' % text)
    same([(w.letter, w.value) for w in b.modal_params], modal, 'unassigned words of block %r' % text)
    same(len(b), len(codes) + bool(modal), 'length of block %r' % text)
    try:
        g = text2gcodes(text)
    except GCodeWordStrError:
        expect(modal, 'text2gcodes(%r) was refused', text)
        st.obs('not fully formed')
    else:
        expect(not modal, 'text2gcodes(%r) lost %r', text, modal)
        same(shape(g), ref_shape(codes), 'text2gcodes(%r)' % text)
        st.obs('fully formed')
    st.seen(text)


def gen_c05_text(rng, i):
    from .p_text import gen_c04
    return {'line': gen_c04(rng, i)['line'].split('(')[0].split(';')[0].split('%')[0]}


def cases_c05(tier):
    """every code, before and after each letter, alone and beside a second code"""
    out = []
    letters = 'ABCDEFHIJKLNPQRSTUVWXYZ'
    val = dict((l, 3.5) for l in letters)
    val.update(L=2, N=7, T='4')
    for w in ref.TABLE:
        for l in letters:
            out.append({'words': [list(w), [l, val[l]]]})
            out.append({'words': [[l, val[l]], list(w)]})
    for (a, b) in itertools.permutations(list(ref.TABLE), 2):
        both = ref.TABLE[a].params & ref.TABLE[b].params
        if both:
            l = sorted(both)[(hash_of(a) + hash_of(b)) % len(both)]
            for ws in ([a, (l, val[l]), b], [a, b, (l, val[l])], [(l, val[l]), a, b]):
                out.append({'words': [list(x) for x in ws]})
    return out


def hash_of(w):
    return int(w[1] * 10) + ord(w[0])


def C05():
    return dict(
        sections=[Section('words', do_c05, gen_c05, quick=40000, thorough=2000000),
                  Section('enumerated', do_c05, cases=cases_c05),
                  Section('text', do_c05_text, gen_c05_text, quick=8000, thorough=100000)],
        anchors=ANCHORS[:1],
        rule='Random word lists over all codes and letters; every code with every letter before and after it; every ordered '
             'pair of codes sharing a letter with that letter in three places. Distinct word lists are counted.',
        deciding=[('words', 'several codes'), ('words', 'unassigned'), ('words', 'refused'), ('enumerated', 'grouped')])


# ----------------------------------------------------------------------- C06
def judge_block(text, st):
    try:
        (_w, codes, modal) = ref.parse(text)
        want = 'ok'
    except ref.RefError as e:
        want = e.kind
    try:
        b = Block(text)
        got = 'ok'
    except AssertionError:
        got = 'conflict'
    except GCodeParameterError:
        got = 'param'
    expect(got == want, 'Block(%r): %s, expected %s', text, got, want)
    st.obs({'ok': 'accepted', 'conflict': 'rejected', 'param': 'repeated parameter'}[got])
    if want == 'param':
        return
    codes = ref.group(ref.tokenize(text))[0]
    u = Block(text, verify=False)
    same(shape(u.gcodes), ref_shape(codes), 'Block(%r, verify=False)' % text)
    if got == 'ok':
        same(shape(b.gcodes), ref_shape(codes), 'Block(%r)' % text)
        same(shape(Line(text).gcodes), ref_shape(codes), 'Line(%r)' % text)
    else:
        try:
            Line(text)
        except AssertionError:
            pass
        else:
            raise Violation('Line(%r) accepted conflicting codes' % text)
    st.seen(text)


def cases_pairs(tier):
    ws = list(ref.TABLE)
    texts = ['%s%g' % w for w in ws] + ['F1', 'F2', 'S1', 'S2', 'T1', 'T2', 'N1', 'N2']
    return [{'line': a + ' ' + b} for a in texts for b in texts]


def do_c06(case, st):
    judge_block(case['line'], st)


def gen_c06(rng, i):
    """mostly valid blocks, with one more code that may conflict"""
    words = gen.block_words(rng, k=rng.choice([1, 2, 3, 4, 5, 6, 7]), p_param=0.3)
    r = rng.random()
    if r < 0.6:
        have = [(l, float(v)) for (l, v) in words if l in 'GM']
        infos = [ref.info(w) for w in have if ref.info(w)]
        groups = [i for i in infos if i.group]
        if groups and rng.random() < 0.6:
            g = rng.choice(groups).group
            extra = rng.choice([w for w in ref.TABLE if ref.TABLE[w].group == g])
        elif have and rng.random() < 0.5:
            extra = rng.choice(have)
        else:
            extra = rng.choice(list(ref.TABLE))
        group = [(extra[0], gen.code_text(rng, extra)[1:])]
        if rng.random() < 0.3 and ref.info(extra):
            for l in sorted(ref.info(extra).params)[:2]:
                if l not in [w[0] for w in words]:
                    group.append((l, gen.word_text(rng, l)))
        pos = rng.randint(0, len(words))
        words = words[:pos] + group + words[pos:]
    elif r < 0.75:
        words = words + [rng.choice([('F', '5'), ('S', '9'), ('T', '1'), ('N', '3')])]
    return {'line': gen.layout(rng, words)}


def C06():
    return dict(
        sections=[Section('pairs', do_c06, cases=cases_pairs),
                  Section('blocks', do_c06, gen_c06, quick=40000, thorough=1500000)],
        anchors=ANCHORS[:2],
        rule='Every ordered pair of supported codes (exhaustive) and random blocks of up to 8 codes with an extra code that '
             'may conflict; the monitor compares acceptance with the documented modal groups. Distinct block texts counted.',
        deciding=[('pairs', 'accepted'), ('pairs', 'rejected'), ('blocks', 'rejected'), ('blocks', 'accepted')])


# ----------------------------------------------------------------------- C07
def cases_numbers(tier):
    return [{'letter': l, 'tenths': t} for l in 'GM' for t in range(0, 2000)]


def do_number(case, st):
    w = (case['letter'], case['tenths'] / 10.)
    text = '%s%g' % w
    info = ref.TABLE.get(w)
    (codes, rest) = words2gcodes(list(text2words(text)))
    if info is None:
        expect(not codes and len(rest) == 1, '%s is not documented, recognised as %r', text, codes)
        for block in (text, 'X1 ' + text, 'G1 X1 ' + text, text + ' F10 G90'):
            m = Machine()
            before = mach.view(m)
            err = mach.real_run(m, block)
            expect(isinstance(err, MachineInvalidState), 'machine given %r: %r', block, err)
            mach.check_view(m, before, 'refused block %r' % block)
        st.obs('undocumented')
    else:
        expect(len(codes) == 1 and not rest, '%s recognised as %r', text, codes)
        g = codes[0]
        same(type(g).__name__, info.cls, 'class of %s' % text)
        same(g.modal_group, info.group, 'modal group of %s' % text)
        same((g.word.letter, g.word.value), w, 'word of %s' % text)
        expect(text in str(g) or text.replace(text[0], text[0] + '0', 1) == str(g), '%s printed as %s', text, g)
        for l in ref.LETTERS:
            if l in 'GMNO':
                continue
            v = {'L': 2, 'T': '3'}.get(l, 1.5)
            (cs, rest) = words2gcodes([Word(*w), Word(l, v)])
            bound = len(cs) == 1 and not rest and l in cs[0].params
            expect(bound == (l in info.params), '%s with %s: bound=%s, documented letters are %s', text, l, bound,
                   ''.join(sorted(info.params)))
            if not bound:
                if l in 'FST':
                    expect(len(cs) == 2 and not rest, '%s %s grouped as %r %r', text, l, cs, rest)
                else:
                    expect(len(cs) == 1 and len(rest) == 1, '%s %s grouped as %r %r', text, l, cs, rest)
            st.obs('letters')
        if info.group:
            name = ref.GROUP_NAME[info.group]
            need = {'R': 1, 'Z': -1} if w in ref.CANNED else {}
            m = Machine()
            m.process_gcodes(type(g)(Word(*w), *[Word(l, v) for (l, v) in need.items()]))
            got = getattr(m.mode, name)
            expect(got is not None and got.word == Word(*w), 'after %s the %s mode is %r', text, name, got)
        cls = getattr(pygcode, info.cls)
        d = cls()
        dw = (d.word.letter, d.word.value)
        expect(ref.TABLE.get(dw) is not None and ref.TABLE[dw].cls == info.cls, 'default word of %s is %r', info.cls, d.word)
        (cs, rest) = words2gcodes([d.word])
        expect(len(cs) == 1 and type(cs[0]) is cls, 'default word %r of %s maps to %r', d.word, info.cls, cs)
        st.obs('documented')
    st.seen(text)


def cases_letters(tier):
    return [{'text': t, 'cls': ref.info((t[0], 0)).cls, 'group': ref.info((t[0], 0)).group, 'value': v}
            for (t, v) in (('F100', 100.0), ('S2500', 2500.0), ('T7', '7'), ('N10', 10), ('Omain', 'main'), ('F.5', .5), ('T12', '12'))
            ] + [{'text': l + '5', 'cls': None, 'group': None, 'value': 5} for l in 'ABCDEHIJKLPQRUVWXYZ']


def do_letter(case, st):
    (codes, rest) = words2gcodes(list(text2words(case['text'])))
    if case['cls'] is None:
        expect(not codes and len(rest) == 1, '%s recognised as %r', case['text'], codes)
    else:
        expect(len(codes) == 1 and not rest and type(codes[0]).__name__ == case['cls'], '%s recognised as %r %r', case['text'], codes, rest)
        same(codes[0].modal_group, case['group'], 'modal group of %s' % case['text'])
        same(codes[0].word.value, case['value'], 'value of %s' % case['text'])
        if case['text'][0] in 'FST':
            d = type(codes[0])()
            same(d.word.letter, case['text'][0], 'default word of %s' % case['cls'])
            m = Machine()
            m.process_str(case['text'])
            same(getattr(m.mode, ref.GROUP_NAME[case['group']]).word, codes[0].word, 'mode after %s' % case['text'])
        st.obs('letter codes')
    st.seen(case['text'])


def C07():
    return dict(
        sections=[Section('numbers', do_number, cases=cases_numbers),
                  Section('letters', do_letter, cases=cases_letters)],
        anchors=ANCHORS[:1],
        rule='Exhaustive: every G and M number from 0 to 199.9 in steps of 0.1 (documented ones with every parameter letter, '
             'default word and mode effect; the others in four block shapes on a machine), and every letter alone.',
        deciding=[('numbers', 'documented'), ('numbers', 'undocumented'), ('numbers', 'letters'), ('letters', 'letter codes')])


# ----------------------------------------------------------------------- C08
class OrderMonitor(object):
    """records the codes whose process() is called"""
    def __enter__(self):
        self.log = []
        self.orig = pygcode.GCode.process
        log, orig = self.log, self.orig

        def process(gcode, machine):
            log.append((gcode.word.letter, gcode.word.value))
            return orig(gcode, machine)
        pygcode.GCode.process = process
        return self.log

    def __exit__(self, *exc):
        pygcode.GCode.process = self.orig
        return False


DEFAULT_PARAMS = {'P': '1', 'L': '1', 'Q': '2', 'R': '3', 'H': '1', 'D': '1', 'E': '1', 'T': '5', 'I': '1', 'J': '2', 'K': '1',
                  'X': '4', 'Y': '-2', 'Z': '1', 'A': '7', 'B': '8', 'C': '9', 'U': '1', 'V': '2', 'W': '3'}


def std_group(w, axes='XYZ'):
    info = ref.info(w)
    g = ['%s%g' % w if w[0] in 'GM' else w[0] + str(w[1])]
    for l in 'XYZIJKRPQLHDET':
        if l in info.params and (l not in 'XYZ' or l in axes):
            if info.cls.startswith('GCodeArc') and l in 'IJK':
                continue
            if w in (('G', 28.0), ('G', 30.0), ('G', 92.0), ('G', 10.0)) and l in 'XYZ':
                continue
            g.append(l + DEFAULT_PARAMS[l])
    return g


def cases_c08(tier):
    ws = list(ref.TABLE) + [('F', 120), ('S', 900), ('T', 3), ('N', 10)]
    return [{'groups': [std_group(a), std_group(b)], 'pre': PRE[(i + j) % len(PRE)]}
            for (i, a) in enumerate(ws) for (j, b) in enumerate(ws) if i < j]


SORT_CLASSES = [pygcode.GCodeLinearMove, pygcode.GCodeRapidMove, pygcode.GCodeArcMoveCW, pygcode.GCodeIncrementalDistanceMode,
                pygcode.GCodeAbsoluteDistanceMode, pygcode.GCodeCoolantOff, pygcode.GCodeCoolantMistOn, pygcode.GCodeRapidMove,
                pygcode.GCodeSelectXYPlane, pygcode.GCodeSelectZXPlane]
PRE = [['G1 X1 Y2 Z3'], ['G91 G1 X1'], ['G99', 'G0 Z5'], ['G18 G0 Y9'], ['G55 G0 X0'], ['G80'], ['G81 X1 Y1 Z-1 R2'], ['G19 G99 X3']]


def gen_c08(rng, i):
    words = gen.block_words(rng, k=rng.choice([2, 3, 4, 5, 6, 8]), shuffle=False, axes='XYZ', line_no=0.1, letters=0.7)
    groups, cur = [], None
    infos = ref.group([(l, float(v) if l in 'GM' else v) for (l, v) in words])[0]
    for (l, v) in words:
        if l in 'GMFSTN' and not (cur and l in ref.info(cur[0]).params):
            cur = [(l, float(v) if l in 'GM' else v)]
            groups.append([l + v])
        else:
            groups[-1].append(l + v)
    if rng.random() < 0.3:
        groups.append(['%s%s' % (l, gen.num(rng)) for l in rng.sample('XYZ', rng.randint(1, 3))])
    return {'groups': groups, 'pre': rng.choice(PRE) if rng.random() < 0.7 else [], 'orders': [rng.random() for _ in range(3)]}


CS = {1: {'X': 1.0}, 2: {'X': 10.0, 'Y': -3.0, 'Z': 0.5}, 3: {'Z': 100.0}, 4: {'Y': 7.0}, 5: {'X': -50.0}, 6: {'X': 5.5},
      7: {'Y': 2.5}, 8: {'Z': -8.0}, 9: {'X': 1.25, 'Y': 1.25, 'Z': 1.25}}


def do_c08(case, st):
    import random
    groups = case['groups']
    orders = [list(groups), list(reversed(groups))]
    for s in case.get('orders', ()):
        g = list(groups)
        random.Random(s).shuffle(g)
        orders.append(g)
    wanted, result = None, None
    for order in orders:
        text = ' '.join(w for g in order for w in g)
        try:
            (_w, codes, modal) = ref.parse(text)
        except ref.RefError:
            st.obs('conflicting')
            continue
        facts = (sorted(repr(c.key()) for c in codes), sorted(modal))
        if wanted is None:
            wanted = facts
        if facts != wanted:          # this order binds a parameter differently
            st.obs('different binding')
            continue
        block = Block(text)
        orderly = [ref.info((g.word.letter, g.word.value)).order for g in sorted(block.gcodes)]
        expect(orderly == sorted(orderly), 'sorted codes of %r are %r', text, sorted(block.gcodes))
        expect(len(orderly) == len(codes), 'sorted codes of %r are %r', text, sorted(block.gcodes))
        # codes of one rank keep the order in which they are given, also those no block may hold together
        given = list(block.gcodes) + [cls() for cls in SORT_CLASSES[:len(text) % 7 + 2]]
        random.Random(len(text)).shuffle(given)
        rank = [ref.info((g.word.letter, g.word.value)).order for g in given]
        want = [given[k] for k in sorted(range(len(given)), key=lambda k: (rank[k], k))]
        expect([id(g) for g in sorted(given)] == [id(g) for g in want], 'sorted(%r) is %r, expected %r', given, sorted(given), want)
        for (a, ka) in zip(given, rank):
            (b, kb) = (given[0], rank[0])
            same((a < b, a <= b, a > b, a >= b), (ka < kb, ka <= kb, ka > kb, ka >= kb), 'order (<, <=, >, >=) of %r and %r' % (a, b))
        (m, r) = mach.make()
        for i in CS:
            mach.set_cs(m, r, i, CS[i])
        for t in case['pre']:
            mach.step(m, r, t)
        with OrderMonitor() as log:
            (kind, ex) = mach.step(m, r, text)
        if log and kind == 'ok':
            got = [ref.info(w).order for w in log]
            want = [c.info.order for c in ex]
            expect(got == want, '%r executed as %r, expected order %r', text, log, [c.word for c in ex])
            if kind == 'ok':
                same(sorted(log), sorted(c.word for c in ex), 'codes executed for %r' % text)
            st.obs('ordered executions')
        what = '%r after %r' % (text, case['pre'])
        mach.check_pos(m, r, what)
        mach.check_mode(m, r, what)
        v = mach.view(m)
        if result is not None:
            expect(repr(sorted(v.items(), key=str)) == repr(sorted(result[1].items(), key=str)) or v == result[1],
                   '%r and %r leave different machines: %r, %r', result[0], text, result[1], v)
            st.obs('permutations compared')
        else:
            result = (text, v)
        st.obs(kind)
        st.seen(text)


def C08():
    return dict(
        sections=[Section('pairs', do_c08, cases=cases_c08),
                  Section('blocks', do_c08, gen_c08, quick=6000, thorough=250000)],
        anchors=[ANCHORS[0], ANCHORS[2]],
        rule='Every pair of supported codes (both orders, exhaustive, in eight starting states) and random blocks of up to 8 '
             'codes in several permutations run on a machine with nine offset coordinate systems; a monitor on '
             'GCode.process logs the execution order. Distinct block texts are counted.',
        deciding=[('pairs', 'permutations compared'), ('pairs', 'ok'), ('blocks', 'permutations compared')])


# ----------------------------------------------------------------------- C22
ABSTRACT = ['GCode', 'GCodeMotion', 'GCodeCannedCycle', 'GCodeArcMove', 'GCodeSpindle', 'GCodeCoolant', 'GCodeOtherModal',
            'GCodeNonModal', 'GCodePlaneSelect', 'GCodeUnit', 'GCodeDistanceMode', 'GCodeStartSpindle', 'GCodeIO',
            'GCodeSelectCoordinateSystem', 'GCodeToolLength', 'GCodeFeedRateMode', 'GCodeDefinition', 'GCodeFeedRate',
            'GCodeSpindleSpeed', 'GCodeSelectTool', 'GCodeLineNumber']
CLASSES = sorted(set(i.cls for i in ref.TABLE.values()) | set(ABSTRACT))


def gen_c22(rng, i):
    ws = [list(rng.choice(list(ref.TABLE))) for _ in range(rng.randint(0, 12))]
    if rng.random() < 0.4:
        ws = [w for w in ws] + [rng.choice([['F', 5], ['S', 100], ['N', 3], ['T', '2']]) for _ in range(rng.randint(1, 3))]
        rng.shuffle(ws)
    cls = rng.choice(CLASSES)
    if ws and rng.random() < 0.5:
        w = rng.choice(ws)
        cls = ref.info((w[0], w[1])).cls
    return {'words': ws, 'cls': cls, 'sort': rng.random() < 0.5, 'default': rng.random() < 0.5}


def do_c22(case, st):
    cls = getattr(pygcode, case['cls'])
    glist = []
    for (k, w) in enumerate(case['words']):
        glist.append(words2gcodes([Word(*w)])[0][0])
    before = list(glist)
    sort = case['sort']
    if case['default'] and sort:
        parts = split_gcodes(glist, cls)
    else:
        parts = split_gcodes(glist, cls, sort_list=sort)
    expect(len(glist) == len(before) and all(a is b for (a, b) in zip(glist, before)), 'the given list was changed')
    same(len(parts), 3, 'number of parts')
    (a, b, c) = [list(p) for p in parts]
    base = sorted(glist) if sort else glist
    order = lambda g: ref.info((g.word.letter, g.word.value)).order
    if sort:
        same([order(g) for g in a + b + c], sorted(order(g) for g in glist), 'order of the parts of %r' % case)
    if sort:
        same(sorted(id(g) for g in a + b + c), sorted(id(g) for g in glist), 'codes in the parts of %r' % case)
        # equal orders: as given
        keyed = [g for (_o, _k, g) in sorted((order(g), k, g) for (k, g) in enumerate(glist)) for _ in (0,)] \
            if len(set((order(g), k) for (k, g) in enumerate(glist))) == len(glist) else base
        same([id(g) for g in a + b + c], [id(g) for g in keyed], 'stable order of the parts of %r' % case)
    else:
        same([id(g) for g in a + b + c], [id(g) for g in glist], 'codes in the parts of %r' % case)
    hits = [g for g in (a + b + c) if isinstance(g, cls)]
    if hits:
        expect(len(b) == 1 and b[0] is hits[0], 'split of %r by %s: middle is %r', base, case['cls'], b)
        expect(not any(isinstance(g, cls) for g in a), 'split of %r by %s: first part has one', base, case['cls'])
        st.obs('split')
    else:
        expect(not b and not c, 'split of %r by %s: %r %r', base, case['cls'], b, c)
        st.obs('not found')
    again = split_gcodes(glist, cls, sort_list=sort)
    same([[id(g) for g in p] for p in again], [[id(g) for g in p] for p in parts], 'second split')
    st.obs('several instances', int(len(hits) > 1))
    st.seen([case['words'], case['cls'], sort])


def C22():
    return dict(
        sections=[Section('split', do_c22, gen_c22, quick=20000, thorough=500000)],
        anchors=ANCHORS[:1],
        rule='Random lists of up to 15 codes (repeated codes allowed) are split by concrete and abstract classes, sorted and '
             'unsorted. Distinct (list, class, mode) are counted.',
        deciding=[('split', 'split'), ('split', 'not found'), ('split', 'several instances')])


# ----------------------------------------------------------------------- C26
FREE_G = [11, 12.5, 21.1, 26, 34, 36, 44, 50, 60, 65, 66, 67, 68, 69, 77, 100, 101, 137.5, 199]
FREE_M = [70, 71, 98, 99, 100, 101, 102, 110, 137, 150, 199]
BASES = ['GCode', 'GCodeUserDefined', 'GCodeOtherModal', 'GCodeNonModal', 'GCodeMotion', 'GCodeIO']


CLASHES = ['G1', 'M3', 'G54', 'user', 'user', 'user', 'user']


def free_number(rng, letter, used):
    while True:
        k = rng.random()
        if k < .5:
            v = rng.choice(FREE_G if letter == 'G' else FREE_M)
        elif k < .7 and gen.NOVEL_NUMS:
            v = round(abs(rng.choice(gen.NOVEL_NUMS)) + rng.choice([-1, 0, 1, 1]), 1)
        elif letter == 'M':
            v = rng.choice([rng.randint(0, 199), rng.randint(200, 999), rng.randint(1000, 9999)])
        else:
            v = rng.choice([rng.randint(0, 99), rng.randint(100, 999), round(rng.uniform(0, 99), 1), round(rng.uniform(99, 999), 1)])
        if letter == 'M':
            v = int(v)
        if 0 <= v < 10000 and (letter, float(v)) not in used and (letter, float(v)) not in ref.TABLE:
            return v


def gen_c26(rng, i):
    specs, used = [], set()
    for k in range(rng.choice([1, 1, 2, 3, 5])):
        letter = rng.choice('GMM')
        v = free_number(rng, letter, used)
        match = rng.random() < 0.4
        values = [v]
        used.add((letter, float(v)))
        if match:               # a rule may claim several numbers
            step = 1 if rng.random() < .7 or letter == 'M' else 0.1
            for j in range(1, rng.choice([1, 1, 2, 4, 9])):
                x = round(v + j * step, 1)
                if (letter, x) not in used and (letter, x) not in ref.TABLE:
                    values.append(x)
                    used.add((letter, x))
        if rng.random() < .2:
            # a motion of the user's own, that moves as the built-in one does
            specs.append({'letter': letter, 'value': v, 'values': values, 'base': rng.choice(['GCodeLinearMove', 'GCodeRapidMove']),
                          'match': match, 'params': 'XYZ' + ''.join(rng.sample('ABCDEHIJKLPQRUVW', rng.randint(0, 2))),
                          'group': 'motion', 'order': rng.choice([241, 242, 243, 260]), 'effect': 'inherit'})
            continue
        base = rng.choice(BASES)
        if specs and rng.random() < .25:
            again = rng.choice(specs)['group']
        else:
            again = None
        specs.append({
            'letter': letter, 'value': v, 'values': values, 'base': base, 'match': match,
            'params': ''.join(rng.sample('ABCDEHIJKLPQRUVWXYZ', rng.randint(0, 4))),
            'group': again or rng.choice([None, None, 'user_defined', 'coolant', 'spindle', 'motion', 'control_mode', 'override_switches', 300, 300, 16]),   # (numbers: of their own)
            'order': rng.choice([5, 35, 85, 130, 145, 205, 215, 235, 243, 260, 999]),
            'effect': rng.choice([None, 'move', 'count', 'move']),
        })
    for s in specs:
        s['name'] = rng.choice([None, None, None, 'Custom', 'Custom', s['base'], 'GCodeRapidMove', '_Custom', '__custom', 'custom', 'G', 'GCode',
                                'Base', 'AbstractCode', 'Word', 'CodeMixin', 'X' * 80, 'C\u00f6de', 'Test1', 'ZZ', 'AA'])   # (names need not differ)
        s['doc'] = rng.choice([None, None, '', 'M150: user code', 'abstract'])
        s['module'] = rng.choice([None, None, '__main__', 'pygcode.gcodes', 'builtins'])
        s['family'] = rng.choice(['flat', 'flat', 'abstract', 'chain', 'mixin', 'diamond', 'sibling'])
        if s['params'] and s['group'] is not None and (s['group'] != 'motion' or s['effect'] != 'inherit') and rng.random() < .5:
            s['sticky'] = ''.join(l for l in s['params'] if rng.random() < .6)   # retained while it is the active one of its group
        if rng.random() < .2:
            s['order'] += rng.choice([.5, .25])
    lines = []
    for _ in range(rng.choice([2, 4, 8])):
        s = rng.choice(specs)
        ws = ['%s%g' % (s['letter'], rng.choice(s['values']))]
        for l in s['params']:
            if rng.random() < 0.7:
                ws.append(l + ('2' if l == 'L' else gen.num(rng, 50, plain=True)))
        others = [gen.code_words(rng, rng.choice([w for w in ref.TABLE if w not in ref.CANNED]), axes_ok(s), p_param=0.3)
                  for _k in range(rng.choice([0, 1, 1, 2, 3]))]
        others = [[l + v for (l, v) in g] for g in others]
        pos = rng.randint(0, len(others))
        lines.append([w for g in others[:pos] + [ws] + others[pos:] for w in g])
        if s['group'] == 'motion' and s['params'] and rng.random() < .5:     # repeated by bare words
            lines.append([l + ('2' if l == 'L' else gen.num(rng, 50, plain=True))
                          for l in rng.sample(s['params'], rng.randint(1, len(s['params'])))])
    for _ in range(3):          # two of the user's codes in a line, often of the same group
        a = rng.choice(specs)
        b = rng.choice([x for x in specs if x['group'] == a['group']] if rng.random() < .7 else specs)
        lines.insert(rng.randint(0, len(lines)), ['%s%g' % (x['letter'], rng.choice(x['values'])) for x in (a, b)])
    return {'specs': specs, 'lines': lines, 'clash': rng.choice(CLASHES) if rng.random() < 0.15 else None}


def group_of(s):
    return ref.GROUPS.get(s['group'], s['group'])


def axes_ok(_s):
    return None


def family(k, s, classes):
    """base classes of a user class: directly a built-in one, through classes without a word of their own, several ..."""
    base = getattr(pygcode, s['base'])
    how = s.get('family', 'flat')
    plain = {'word_key': None, 'word_matches': None}
    if how == 'abstract':
        return (type('Base%d' % k, (base,), plain),)
    if how == 'chain':
        for j in range(4):
            base = type('Level%d_%d' % (k, j), (base,), plain)
        return (base,)
    if how == 'mixin':
        return (base, type('Mixin%d' % k, (object,), {'note': 'user'}))
    if how == 'diamond':
        return (type('Left%d' % k, (base,), plain), type('Right%d' % k, (base,), plain))
    if how == 'sibling' and base is not pygcode.GCode:
        return (base, type('Shared%d' % k, (pygcode.GCode,), plain))
    return (base,)


def do_c26(case, st):
    """(own process) define classes, then compare with a reference table extended the same way"""
    log = []
    classes = []
    names = []
    for (k, s) in enumerate(case['specs']):
        bases = family(k, s, classes)
        attrs = {'param_letters': set(s['params']), 'exec_order': s['order'], 'word_letter': s['letter'],
                 'modal_group': group_of(s)}
        if s['match']:
            attrs['word_matches'] = classmethod(lambda cls, w, s=s: w.letter == s['letter'] and w.value in s['values'])
            attrs['default_word'] = Word(s['letter'], s['value'])
            attrs['word_key'] = None
        else:
            attrs['word_key'] = Word(s['letter'], s['value'])

        def _process(self, machine, s=s):
            log.append((self.word.letter, float(self.word.value)))
            if s['effect'] == 'move':
                machine.move_to(X=3.0, Z=1.0)
            elif s['effect'] == 'count':
                machine.user_count = getattr(machine, 'user_count', 0) + 1
        if s['effect'] != 'inherit':
            attrs['_process'] = _process
        if s.get('sticky'):
            attrs['modal_param_letters'] = set(s['sticky'])
        for (key, attr) in (('doc', '__doc__'), ('module', '__module__')):
            if s.get(key) is not None:
                attrs[attr] = s[key]
        classes.append(type(s.get('name') or 'UserCode%d' % k, bases, attrs))
        names.append(classes[-1].__name__)
    if case['clash']:
        (s, text) = (case['specs'][0], case['clash'])
        if text == 'user' and not s['match']:
            text = '%s%g' % (s['letter'], s['value'])
        if text != 'user':
            classes.append(type('UserClash', (pygcode.GCode,), {'word_key': Word(text)}))
            for parse in (lambda: Block(text), lambda: pygcode.Line('G0 X1'), lambda: words2gcodes([Word('M8')]), lambda: pygcode.Machine()):
                try:
                    parse()
                except RuntimeError:
                    pass
                else:
                    raise Violation('two classes claim %s, nothing was refused' % text)
            st.obs('clashes refused')
            st.obs('clashes with built-in codes', int(case['clash'] != 'user'))
            st.seen(['clash', case['clash'], case['specs']])
            return
    for s in case['specs']:
        for v in s['values']:
            w = (s['letter'], float(v))
            ref.TABLE[w] = ref.Info(w, 'user', group_of(s), frozenset(s['params']), s['order'], frozenset(s.get('sticky', '')))
    st.obs('same name', len(names) - len(set(names)))
    users = dict(((s['letter'], float(v)), (s, c)) for (s, c) in zip(case['specs'], classes) for v in s['values'])
    own = sorted(set(s['group'] for s in case['specs'] if isinstance(s['group'], int)))
    ref.GROUP_NAME.update((k, 'user group %d' % k) for k in own)
    base_exec = ref.RefMachine._exec

    def _exec(self, c):
        if c.word in users:
            self._set_mode(c)
            if users[c.word][0]['effect'] == 'move':
                self._move({'X': 3.0, 'Z': 1.0})
            elif users[c.word][0]['effect'] == 'inherit':
                self._move(dict((l, v) for (l, v) in c.params.items() if l in ref.AX))
        else:
            base_exec(self, c)
    ref.RefMachine._exec = _exec

    for (w, (s, c)) in users.items():
        text = '%s%g' % w
        (codes, rest) = words2gcodes(list(text2words(text)))
        expect(len(codes) == 1 and type(codes[0]) is c and not rest, '%s recognised as %r', text, codes)
        d = c()
        same((d.word.letter, float(d.word.value)), (w[0], float(s['value'])), 'default word of user class')
        st.obs('recognised')
    (m, r) = mach.make()
    for i in CS:
        mach.set_cs(m, r, i, CS[i])
    counted = 0
    for ws in case['lines']:
        text = ' '.join(ws)
        try:
            words = ref.tokenize(text)
            (codes, modal) = ref.group(words)
        except ref.RefError:
            continue
        bad = ref.conflicts(codes)
        try:
            b = Block(text)
        except AssertionError:
            expect(bad, 'Block(%r) was refused', text)
            st.obs('conflicts')
            continue
        except GCodeParameterError:
            raise Violation('Block(%r) was refused' % text)
        expect(not bad, 'Block(%r) holds conflicting codes', text)
        same(shape(b.gcodes), ref_shape(codes), 'codes of %r' % text)
        for g in b.gcodes:
            if (g.word.letter, g.word.value) in users:
                expect(type(g) is users[(g.word.letter, g.word.value)][1], '%r in %r', g, text)
        same([(w.letter, w.value) for w in b.modal_params], modal, 'unassigned words of %r' % text)
        for g in b.gcodes:
            if type(g) in classes:
                for cls in type(g).__mro__[:-1]:
                    if not issubclass(cls, pygcode.GCode):
                        continue
                    for keep in (False, True):
                        given = list(b.gcodes) if keep else sorted(b.gcodes)
                        at = [i for (i, x) in enumerate(given) if isinstance(x, cls)][0]
                        (x, y, z) = split_gcodes(list(b.gcodes), cls, sort_list=not keep)
                        expect([id(e) for e in x + y + z] == [id(e) for e in given] and len(y) == 1 and y[0] is given[at] and len(x) == at,
                               'split of %r by %s is %r', text, cls.__name__, (x, y, z))
                        st.obs('split by classes of the user')
        orders = [ref.info((g.word.letter, g.word.value)).order for g in sorted(b.gcodes)]
        same(orders, sorted(orders), 'order of %r' % text)
        del log[:]
        (kind, ex) = mach.step(m, r, text)
        if kind == 'ok':
            same(log, [c.word for c in ex if c.word in users and users[c.word][0]['effect'] != 'inherit'], 'user codes executed for %r' % text)
            counted += sum(1 for c in ex if c.word in users and users[c.word][0]['effect'] == 'count')
            same(getattr(m, 'user_count', 0), counted, 'effect of user codes after %r' % text)
            st.obs('executed', len(log))
        mach.check_pos(m, r, 'after %r' % text)
        mach.check_mode(m, r, 'after %r' % text)
        for k in own:
            (g, c) = (m.mode.modal_groups.get(k), r.mode.get(k))
            same(g and (g.word.letter, g.word.value, g.get_param_dict()), c and (c.word[0], c.word[1], dict(c.params)),
                 'after %r: mode of user group %d' % (text, k))
            twin = copy.copy(m).mode.modal_groups.get(k)
            same(twin and (twin.word.letter, twin.word.value, twin.get_param_dict()), c and (c.word[0], c.word[1], dict(c.params)),
                 'after %r: mode of user group %d of a copy' % (text, k))
            st.obs('own groups', int(bool(c)))
        st.seen(text)
    # nothing built in changed
    for w in list(ref.TABLE)[::5]:
        if w in users:
            continue
        g = words2gcodes([Word(*w)])[0]
        expect(len(g) == 1 and type(g[0]).__name__ == ref.TABLE[w].cls, '%r recognised as %r', w, g)
    for w in (('G', 35.0), ('M', 111.0), ('G', 12.0)):
        if w not in users:
            expect(not words2gcodes([Word(*w)])[0], '%r is recognised', w)


def C26():
    return dict(
        sections=[Section('classes', do_c26, gen_c26, quick=500, thorough=15000, isolate=True)],
        anchors=[ANCHORS[0], ANCHORS[2]],
        rule='Sets of 1..5 user classes (fixed word or rule, letters, group, order, effect) are defined in a process of their '
             'own before the first parse, then lines mixing them with built-in codes run in lockstep with a reference table '
             'extended the same way. Distinct lines are counted.',
        assumptions=['user words do not overlap built-in words; effects are implemented in _process'],
        deciding=[('classes', 'recognised'), ('classes', 'executed'), ('classes', 'conflicts'), ('classes', 'clashes refused'), ('classes', 'own groups'), ('classes', 'split by classes of the user')])


CHECKS = dict(C05=C05, C06=C06, C07=C07, C08=C08, C22=C22, C26=C26)
