"""C09-C15, C30: the machine"""
import copy

import pygcode
from pygcode import Block, GCode, Line, Machine, Mode, NullMachine, Word
from pygcode.machine import CoordinateSystem, Position, State
from pygcode.exceptions import GCodeParameterError, MachineInvalidAxis, MachineInvalidState

from . import gen, mach, prog, ref
from .core import Section, Skip, Violation, expect, same

ANCHORS = ['src/pygcode/machine.py', 'src/pygcode/gcodes.py']


WATCH = [1, 1, 1, .1, .02, 0]      # how often the machine is looked at


def gen_program(weights=None, ignore=None, sizes=None, fine=True):
    def g(rng, i):
        (axes, mode) = prog.setup(rng)
        ig = rng.random() < 0.3 if ignore is None else ignore
        return {'axes': axes, 'mode': mode, 'ignore': ig, 'how': rng.randint(0, 3) if rng.random() < 0.6 else -1,
                'watch': rng.choice(WATCH),
                'lines': prog.program(rng, axes, mode, weights=weights, ignore=ig, fine=fine,
                                      n=prog.length(rng, sizes) if sizes else None)}
    return g


def run_program(case, st, after):
    """lockstep; after(m, r, op, kind, what) after every operation"""
    (m, r) = mach.make(case['axes'], case['mode'], case['ignore'])
    if case.get('watch', 1):
        after(m, r, None, 'new', 'new machine')
    st.obs('machines')
    for (k, op) in enumerate(case['lines']):
        if isinstance(op, list):
            mach.set_cs(m, r, op[1], op[2])
            kind, what = 'cs', 'after offsets %r' % (op[1:],)
        else:
            how = case['how'] if case['how'] >= 0 else k % 4
            what = 'after %r (line %d)' % (op, k + 1)
            (kind, ex) = mach.step(m, r, op, how, 'line %d %r' % (k + 1, op), mach.watched(case, k))
        st.obs('blocks ' + kind)
        if mach.watched(case, k):
            after(m, r, op, kind, what)
        else:
            st.obs('blocks not looked at')
    return m, r


# ----------------------------------------------------------------------- C09
def do_c09(case, st):
    def after(m, r, op, kind, what):
        mach.check_pos(m, r, what)
        if kind == 'ok' and isinstance(op, str):
            st.seen([case['axes'], op, sorted(r.pos.items())])
            st.obs('positions')
            st.obs('modal moves', int(not any(c in op.upper() for c in 'GM')))
    run_program(case, st, after)


def do_c09_api(case, st):
    """move_to and the pos property, directly"""
    (m, r) = mach.make(case['axes'], case['mode'])
    tol = 1e-6 * case['scale'] ** 1.25          # (numbers of a billionth keep their precision, too)
    check_pos = lambda what: mach.check_pos(m, r, what, tol)
    for op in case['lines']:
        if op[0] == 'move':
            (m.move_to(**op[1]) if op[2] is None else m.move_to(rapid=op[2], **op[1]))
            r._move(op[1])
        elif op[0] == 'set':
            p = m.pos
            p.update(**op[1])
            m.pos = p
            for (a, v) in op[1].items():
                r.abs[a] = v + r.offset(a)
            r._move({})
        elif op[0] == 'block':
            mach.step(m, r, op[1])
        else:
            mach.set_cs(m, r, op[1], op[2])
        check_pos('after %r' % (op,))
        mach.check_range(m, r, 'after %r' % (op,), tol)
        p = m.pos                       # the returned position is a copy
        for a in case['axes']:
            setattr(p, a, 12345.0)
        check_pos('after changing the returned position')
        st.obs('calls')
    st.seen(case)


def gen_c09_api(rng, i):
    (axes, mode) = prog.setup(rng)
    lines = []
    scale = 1e-9 if rng.random() < .2 else 1
    for _ in range(rng.choice([2, 6, 15])):
        some = dict((a, gen.value(rng, 500) * scale) for a in axes if rng.random() < 0.5)
        k = rng.random()
        if k < 0.5:
            lines.append(['move', some, rng.choice([None, True, False])])
        elif k < 0.65:
            lines.append(['set', some])
        elif k < 0.8:
            lines.append(['block', rng.choice(['G90', 'G91', 'G55', 'G54', 'G59.3', 'G1 X%s1' % ('.00000000' if scale < 1 else ''), 'G0 Y%s2' % ('-.0000000' if scale < 1 else ''), 'F100'])])
        else:
            lines.append(['cs', rng.randint(0, 9), some])
    return {'axes': axes, 'mode': mode, 'lines': lines, 'scale': scale}


def C09():
    return dict(
        sections=[Section('programs', do_c09, gen_program({'cs': .3, 'select': .5, 'bad': .3}), quick=2500, thorough=120000),
                  Section('long programs', do_c09, gen_program({'cs': .2, 'select': .3}, sizes=(150, 400)), quick=60, thorough=2500),
                  Section('direct calls', do_c09_api, gen_c09_api, quick=1200, thorough=40000)],
        anchors=ANCHORS,
        rule='Random programs (explicit and modal motion of every kind, modes, offsets, refused lines) on 12 axis sets and 12 '
             'default modes run in lockstep with an independent interpreter; the position is compared after every block. '
             'Distinct (axes, block, position reached) are counted.',
        assumptions=['one unit system per program; G53, G10, G28 and G92 do not move (not implemented by the library)'],
        deciding=[('programs', 'positions'), ('programs', 'modal moves'), ('direct calls', 'calls')])


# ----------------------------------------------------------------------- C10
def do_c10(case, st):
    (m, r) = mach.make(case['axes'], case['mode'], case['ignore'])
    mach.check_mode(m, r, 'new machine')
    for (k, op) in enumerate(case['lines']):
        if isinstance(op, list):
            mach.set_cs(m, r, op[1], op[2])
            continue
        what = 'line %d %r' % (k + 1, op)
        how = case['how'] if case['how'] >= 0 else k % 4
        if not mach.watched(case, k):
            mach.step(m, r, op, how, what, False)
            st.obs('blocks not looked at')
            continue
        # codes the machine says it will execute
        try:
            (_w, codes, modal) = ref.parse(op)
            want = r.effective(codes, modal)
        except ref.RefError:
            want = None
        if want is not None:
            got = m.block_modal_gcodes(Line(op).block)
            same([(g.word.letter, g.word.value, dict((w.letter, w.value) for w in g.params.values())) for g in got],
                 [(c.word[0], c.word[1], dict(c.params)) for c in want], 'effective codes of %s' % what)
        (kind, ex) = mach.step(m, r, op, how, what)
        mach.check_mode(m, r, 'after %s' % what)
        same(sorted((g.word.letter, g.word.value) for g in m.mode.gcodes),
             sorted(c.word for c in r.mode.values() if c), 'list of modal codes after %s' % what)
        text = str(m.mode)
        toks = ref.tokenize(text)
        (cs, rest) = ref.group(toks)
        same(sorted(c.word for c in cs), sorted(c.word for c in r.mode.values() if c), 'printed mode after %s' % what)
        st.obs('blocks ' + kind)
        st.obs('no motion mode', int(m.mode.motion is None))
        st.obs('sticky', sum(1 for c in r.mode.values() if c and c.params))
        st.seen(text)


def do_c10_set(case, st):
    """setting the mode directly"""
    (m, r) = mach.make('XYZ', case['mode'])
    for (name, word) in case['sets']:
        code = getattr(pygcode, ref.TABLE[tuple(word)].cls)(Word(*word)) if word else None
        if word and ref.TABLE[tuple(word)].group != ref.GROUPS[name]:
            try:
                setattr(m.mode, name, code)
            except MachineInvalidState:
                st.obs('refused')
            else:
                raise Violation('mode.%s was set to %r' % (name, code))
        else:
            setattr(m.mode, name, code)
            r.mode[ref.GROUPS[name]] = ref.Code(tuple(word)) if word else None
            st.obs('set')
        got = mach.mode_of(m)
        want = mach.ref_mode(r)
        same(dict((k, v[:2]) for (k, v) in got.items()), dict((k, v[:2]) for (k, v) in want.items()), 'after mode.%s = %r' % (name, code))
        st.seen([name, word])
    try:
        setattr(m.mode, 'motion', 'G1')
    except MachineInvalidState:
        pass
    else:
        raise Violation('mode.motion was set to a string')


def gen_c10_set(rng, i):
    sets = []
    for _ in range(rng.choice([1, 3, 6])):
        name = rng.choice(sorted(n for n in ref.GROUPS if n not in ('feed_rate', 'spindle_speed', 'tool', 'user_defined', 'coordinate_system')))
        if rng.random() < 0.7:
            word = rng.choice([w for w in ref.TABLE if ref.TABLE[w].group == ref.GROUPS[name]])
        else:
            word = rng.choice(list(ref.TABLE))
            if word in (ref.CANCEL,):
                word = None
        sets.append([name, list(word) if word else None])
    return {'sets': sets, 'mode': rng.choice(prog.MODES)}


def C10():
    w = {'mode': 5, 'any': 5, 'canned': 3, 'cancel': 1, 'bad': 1, 'motion': 3, 'retract': .5, 'select': .5}
    return dict(
        sections=[Section('programs', do_c10, gen_program(w), quick=2500, thorough=120000),
                  Section('direct', do_c10_set, gen_c10_set, quick=1000, thorough=20000)],
        anchors=ANCHORS,
        rule='Random programs over all codes run in lockstep with an independent interpreter; every modal group (code and '
             'retained parameters), the list of modal codes and the codes about to be executed are compared at every block. '
             'Distinct printed modes are counted.',
        deciding=[('programs', 'blocks ok'), ('programs', 'sticky'), ('programs', 'no motion mode'), ('direct', 'refused')])


# ----------------------------------------------------------------------- C11
def do_c11(case, st):
    def after(m, r, op, kind, what):
        mach.check_pos(m, r, what)
        mach.check_mode(m, r, what)
        mach.check_range(m, r, what)
        if isinstance(op, str) and kind in ('state', 'param'):
            st.seen([op, str(m.mode)])
            st.obs('refused')
    run_program(case, st, after)


def do_c11_clean(case, st):
    """clean_block removes exactly the unassignable words"""
    (m, r) = mach.make(case['axes'], case['mode'])
    for (k, op) in enumerate(case['lines']):
        if isinstance(op, list):
            continue
        try:
            (_w, codes, modal) = ref.parse(op)
        except ref.RefError:
            continue
        motion = r.mode.get(ref.MOTION)
        if motion is None or any(c.info.group == ref.MOTION or c.word == ref.CANCEL for c in codes):
            keep = []
        else:
            keep = [w for w in modal if w[0] in motion.info.params]
        block = Line(op).block
        before = mach.view(m)
        repeated = len(set(w[0] for w in keep)) < len(keep)
        try:
            m.clean_block(block)
        except GCodeParameterError:
            expect(repeated, 'clean_block(%r) was refused', op)
            continue
        mach.check_view(m, before, 'clean_block(%r)' % op)
        same([(w.letter, w.value) for w in block.modal_params], keep, 'line %d %r: kept words' % (k + 1, op))
        same([(g.word.letter, g.word.value) for g in block.gcodes], [c.word for c in codes], 'line %d %r: codes' % (k + 1, op))
        st.obs('cleaned', int(len(keep) < len(modal)))
        st.obs('blocks')
        st.seen([op, len(keep), len(modal)])
        try:
            r.clone().run(codes, keep)
        except ref.RefError as e:
            if e.kind == 'undefined':
                raise Skip()
            continue
        m.process_block(block)
        r.run(codes, keep)
        mach.check_pos(m, r, 'after cleaned %r' % op)
        mach.check_mode(m, r, 'after cleaned %r' % op)


def C11():
    w = {'bad': 8, 'motion': 3, 'bare': 2, 'cancel': 1, 'canned': 1.5, 'mode': 1, 'any': 1, 'cs': .2}
    return dict(
        sections=[Section('refusals', do_c11, gen_program(w, ignore=False), quick=2500, thorough=100000),
                  Section('ignoring', do_c11, gen_program(w, ignore=True), quick=1500, thorough=60000),
                  Section('cleaning', do_c11_clean, gen_program(w, ignore=True), quick=1500, thorough=60000)],
        anchors=ANCHORS[:1],
        rule='Programs in which half of the lines hold unassignable words (unsupported codes, leftovers, bare words without '
             'motion mode, repeated words) run in lockstep, refusing, ignoring, and cleaned first; the full machine state is '
             'compared before and after each refusal. Distinct (refused line, mode) are counted.',
        deciding=[('refusals', 'refused'), ('ignoring', 'blocks ok'), ('cleaning', 'cleaned')])


# ----------------------------------------------------------------------- C12
def do_c12(case, st):
    (m, r) = mach.make(case['axes'], case['mode'])
    axes = case['axes']
    for (k, op) in enumerate(case['lines']):
        what = 'after %r (operation %d)' % (op, k + 1)
        if not mach.watched(case, k):
            (mach.set_cs(m, r, *op[1:]) if isinstance(op, list) else mach.step(m, r, op, k % 4, watch=False))
            st.obs('operations not looked at')
            continue
        abs_before = dict(m.abs_pos.values)
        pos_before = dict(m.pos.values)
        cur = r.cur
        if isinstance(op, list):
            mach.set_cs(m, r, *op[1:])
            st.obs('replaced offsets', int(len(op) > 3 and op[3] not in (None, 'update')))
            same(dict(m.abs_pos.values), abs_before, '%s: absolute position' % what)
            if op[1] not in (0, cur):
                same(dict(m.pos.values), pos_before, '%s: position, system %d is selected' % (what, cur))
                st.obs('unselected offsets')
            st.obs('offsets')
        else:
            (kind, ex) = mach.step(m, r, op, k % 4)
            if kind == 'ok' and not any(c.info.group == ref.MOTION for c in ex):
                same(dict(m.abs_pos.values), abs_before, '%s: absolute position' % what)
                st.obs('selections', int(any(c.info.group == ref.GROUPS['coordinate_system'] for c in ex)))
            if kind == 'ok' and not r.incremental():
                mv = [c for c in ex if c.info.group == ref.MOTION and c.word not in ref.CANNED]
                for c in mv:
                    for (a, v) in c.params.items():
                        if a in axes:
                            expect(mach.near(getattr(m.pos, a), v), '%s: %s is %r in work coordinates', what, a, getattr(m.pos, a))
                            st.obs('coordinates reached')
        same(m.state.cur_coord_sys, r.cur, '%s: selected system' % what)
        mach.check_pos(m, r, what)
        # conversions
        for pt in case['points'][k % len(case['points'])]:
            p = Position(axes=set(axes), **dict((a, v) for (a, v) in zip(sorted(axes), pt)))
            keep = dict(p.values)
            w = m.abs2work(p)
            b = m.work2abs(w)
            q = m.abs2work(m.work2abs(p))
            for a in axes:
                expect(mach.near(getattr(w, a), keep[a] - r.offset(a)), '%s: abs2work(%r) is %r', what, p, w)
                expect(mach.near(getattr(b, a), keep[a]) and mach.near(getattr(q, a), keep[a]), '%s: round trip of %r gives %r, %r', what, p, b, q)
            same(dict(p.values), keep, '%s: the converted position' % what)
            same(set(w.axes), set(axes), 'axes of abs2work')
            st.obs('conversions')
        for i in range(1, 10):
            v = m.state.coord_systems[i].offset.values
            expect(all(v[a] == r.cs[i][a] for a in axes), '%s: offset of system %d is %r, expected %r', what, i, v, r.cs[i])
        st.seen([r.cur, sorted(r.pos.items())])


def gen_c12(rng, i):
    (axes, mode) = prog.setup(rng)
    lines = prog.program(rng, axes, mode, weights={'cs': 5, 'select': 5, 'motion': 3, 'bare': 2, 'any': 1, 'mode': 1,
                                                   'noise': 0, 'canned': .5})
    lines = [op + [rng.choice([None, None, 'update', 'offset', 'system', 'state'])] if isinstance(op, list) else op for op in lines]
    return {'axes': axes, 'mode': mode, 'watch': rng.choice(WATCH),
            'points': [[[gen.value(rng, 1000) for _a in axes] for _k in range(2)] for _j in range(3)],
            'lines': lines}


def C12():
    return dict(
        sections=[Section('histories', do_c12, gen_c12, quick=2000, thorough=80000)],
        anchors=ANCHORS,
        rule='Histories of offset changes (nine systems and the temporary offset), selections and moves on 12 axis sets; after '
             'every operation the position, all offsets and conversions of random points are compared with the reference. '
             'Distinct (system, work position) are counted.',
        assumptions=['offsets are set through machine.state (G10, G92 are not implemented by the library)'],
        deciding=[('histories', 'unselected offsets'), ('histories', 'selections'), ('histories', 'coordinates reached'),
                  ('histories', 'conversions')])


# ----------------------------------------------------------------------- C13
def do_c13(case, st):
    seen = {}

    def after(m, r, op, kind, what):
        mach.check_range(m, r, what)
        for a in case['axes']:
            v = getattr(m.abs_pos, a)
            (lo, hi) = seen.get(a, (v, v))
            seen[a] = (min(lo, v), max(hi, v))
            (glo, ghi) = (getattr(m.abs_range_min, a), getattr(m.abs_range_max, a))
            expect(glo <= seen[a][0] + 1e-9 and ghi >= seen[a][1] - 1e-9, '%s: extents of %s %r do not hold %r', what, a, (glo, ghi), seen[a])
            if 'last' in seen:
                (plo, phi) = seen['last'][a]
                expect(glo <= plo and ghi >= phi, '%s: extents of %s shrank from %r to %r', what, a, (plo, phi), (glo, ghi))
        st.obs('extended', int('last' in seen and any(
            seen['last'][a] != (getattr(m.abs_range_min, a), getattr(m.abs_range_max, a)) for a in case['axes'])))
        seen['last'] = dict((a, (getattr(m.abs_range_min, a), getattr(m.abs_range_max, a))) for a in case['axes'])
        st.obs('checks')
        st.seen([sorted(seen['last'].items())])
    run_program(case, st, after)


def C13():
    w = {'cs': 1, 'select': 1, 'distance': 2, 'canned': 2, 'bad': .5, 'plane': .5, 'retract': .5}
    return dict(
        sections=[Section('programs', do_c13, gen_program(w), quick=2500, thorough=100000),
                  Section('long programs', do_c13, gen_program(w, sizes=(150, 300)), quick=40, thorough=2000)],
        anchors=ANCHORS[:1],
        rule='Random programs on 12 axis sets with offsets and both distance modes; the extents are compared with those of the '
             'reference and with the positions observed, after every block. Distinct extents are counted.',
        deciding=[('programs', 'extended'), ('programs', 'checks')])


# ----------------------------------------------------------------------- C14
def gen_c14(rng, i):
    (axes, mode) = prog.setup(rng)
    lines = []
    base = prog.program(rng, axes, mode, n=rng.choice([6, 15, 30]),
                        weights={'cs': 2, 'select': 2, 'canned': 1.5, 'any': 3, 'mode': 3, 'bad': .3})
    for op in base:
        if rng.random() < 0.3:
            lines.append(['copy', rng.randint(0, 9), rng.choice(['machine', 'machine', 'machine', 'deep', 'parts'])])
        if rng.random() < 0.15:
            lines.append(['edit', rng.randint(0, 9), rng.choice(['abs_pos', 'lo', 'hi', 'cs', 'mode', 'pos', 'own', 'own', 'box', 'box'])])
            if lines[-1][2] == 'box' and rng.random() < .5:
                lines.append(['copy', lines[-1][1], 'machine'])
        lines.append(['run', rng.randint(0, 9), op, rng.random() < 0.5])
    return {'axes': axes, 'mode': mode, 'lines': lines, 'watch': rng.choice(WATCH)}


def do_c14(case, st):
    (m, r) = mach.make(case['axes'], case['mode'])
    pool = [(m, r)]
    for (k, op) in enumerate(case['lines']):
        (m, r) = pool[op[1] % len(pool)]
        what = 'operation %d %r' % (k + 1, op)
        watch = mach.watched(case, k)
        if op[0] == 'copy':
            v = mach.view(m) if watch else None
            if op[2] == 'parts' and watch:
                # copies of the parts equal the parts and are independent objects
                s2, p2, md2 = copy.copy(m.state), copy.copy(m.abs_pos), copy.copy(m.mode)
                same(dict((i, dict(c.offset.values)) for (i, c) in s2.coord_systems.items()), v['cs'], '%s: copied state' % what)
                same(s2.cur_coord_sys, v['cur'], '%s: selected system of the copied state' % what)
                same(dict(s2.offset.values), v['offset'], '%s: offset of the copied state' % what)
                expect(p2 == m.abs_pos and p2 is not m.abs_pos, '%s: copied position %r', what, p2)
                same(str(md2), str(m.mode), '%s: copied mode' % what)
                a = case['axes'][0]
                setattr(p2, a, 4321.0)
                for c in s2.coord_systems.values():
                    setattr(c.offset, a, 999.0)
                setattr(s2.offset, a, 888.0)
                s2.cur_coord_sys = 9
                for g in md2.gcodes:
                    for w in g.params.values():
                        w.value = 7
                md2.motion = None
                md2.set_mode(*Line('M3 M8 G20 G91').gcodes)
                cs2 = copy.copy(m.state.coord_sys)
                expect(dict(cs2.offset.values) == v['cs'][v['cur']], '%s: copied coordinate system %r', what, cs2)
                setattr(cs2.offset, a, 777.0)
                mach.check_view(m, v, '%s: original after editing copies of its parts' % what)
                spare = copy.copy(m) if k % 2 else copy.deepcopy(m)
                for p in [spare.abs_pos, spare.abs_range_min, spare.abs_range_max, spare.state.offset] + \
                        [c.offset for c in spare.state.coord_systems.values()]:
                    p.update(**dict((x, -4242.0) for x in case['axes']))
                for g in spare.mode.gcodes:
                    for w in list(g.params.values()):
                        w.value = 7
                    if g.word.letter in 'FS':
                        g.word.value = 31337
                spare.state.cur_coord_sys = 1 + spare.state.cur_coord_sys % 9
                mach.check_view(m, v, '%s: original after editing its copy everywhere' % what)
                lenient = bool((k + len(case['lines'])) % 2)
                was = m.ignore_invalid_modal
                m.ignore_invalid_modal = lenient
                for dup in (copy.copy(m), copy.deepcopy(m), copy.copy(copy.copy(m))):
                    refused = False
                    try:
                        dup.modal_gcode([Word('D', 3.0)])
                    except MachineInvalidState:
                        refused = True
                    expect(refused != lenient, '%s: ignore_invalid_modal of a machine is %r, its copy %s a lone D word', what, lenient,
                           'refuses' if refused else 'accepts')
                m.ignore_invalid_modal = was
                st.obs('parts copied')
            elif len(pool) < 6:
                m2 = copy.copy(m) if op[2] == 'machine' else copy.deepcopy(m)
                expect(type(m2) is type(m), '%s: copy is a %s', what, type(m2).__name__)
                if watch:
                    mach.check_view(m2, v, '%s: the copy' % what)
                    mach.check_view(m, v, '%s: the original' % what)
                pool.append((m2, r.clone()))
                st.obs('copies')
        elif op[0] == 'edit':
            a = case['axes'][-1]
            if op[2] == 'abs_pos':
                setattr(m.abs_pos, a, 55.5)
                r.abs[a] = 55.5
            elif op[2] == 'lo':
                setattr(m.abs_range_min, a, -12345.0)
                r.lo[a] = -12345.0
            elif op[2] == 'hi':
                setattr(m.abs_range_max, a, 23456.0)
                r.hi[a] = 23456.0
            elif op[2] == 'box':        # the extents begin anew where the machine is
                m.abs_range_min = copy.copy(m.abs_pos)
                m.abs_range_max = copy.copy(m.abs_pos)
                (r.lo, r.hi) = (dict(r.abs), dict(r.abs))
            elif op[2] == 'cs':
                mach.set_cs(m, r, r.cur, {a: 3.125})
            elif op[2] == 'pos':
                p = m.pos
                setattr(p, a, 77.0)
                m.pos = p
                r.abs[a] = 77.0 + r.offset(a)
                r._move({})
            elif op[2] == 'own':
                # a mode is given the codes it holds, and those are edited afterwards
                held = list(m.mode.gcodes)
                m.mode.set_mode(*held)
                v = mach.view(m)
                for g in held:
                    for w in g.params.values():
                        w.value = 5 if w.letter != 'T' else '5'
                    if g.word.letter in 'FS':
                        g.word.value = 31337
                    st.obs('own codes edited')
                mach.check_view(m, v, '%s: after editing the codes the mode was given' % what)
                # the same through the attributes of the mode
                for (name, g) in sorted(ref.GROUPS.items()):
                    h = m.mode.modal_groups.get(g)
                    if h is None:
                        continue
                    h = copy.deepcopy(h)
                    for l in sorted(set(h.param_letters) - set(h.modal_param_letters))[:2]:
                        h.add_parameter(Word(l, 4))
                    setattr(m.mode, name, h)
                    mach.check_view(m, v, '%s: after mode.%s = %r' % (what, name, h))
                    for w in h.params.values():
                        w.value = 5
                    if h.word.letter in 'FS':
                        h.word.value = 31337
                    st.obs('assigned codes edited')
                mach.check_view(m, v, '%s: after editing the codes assigned to the mode' % what)
            else:
                m.mode.motion = None
                r.mode[ref.MOTION] = None
            st.obs('edits')
        elif isinstance(op[2], list):
            mach.set_cs(m, r, op[2][1], op[2][2])
        else:
            text = op[2]
            kind = mach.ref_run(r.clone(), text)[0]
            if kind in ('word', 'conflict') or (kind == 'param' and mach.ref_run(ref.RefMachine('XYZ', ''), text)[0] == 'param'):
                continue
            if op[3] and kind == 'ok' and watch:
                # process parsed codes, then edit them: the machine must not change
                line = Line(text)
                m.process_block(line.block)
                mach.ref_run(r, text)
                v = mach.view(m)
                for g in line.block.gcodes:
                    for w in list(g.params.values()):
                        w.value = 5 if w.letter != 'T' else '5'
                    for l in ('X', 'R', 'P', 'H', 'D'):
                        if l in ref.info((g.word.letter, g.word.value)).params:
                            setattr(g, l, 66.0)
                    if g.word.letter in 'FS':
                        g.word.value = 31337
                for w in line.block.modal_params:
                    w.value = 9
                mach.check_view(m, v, '%s: after editing the processed codes' % what)
                st.obs('codes edited')
            else:
                mach.step(m, r, text, 1, watch=watch)
            st.obs('runs')
        for (j, (mm, rr)) in enumerate(pool if watch else []):
            w = '%s: machine %d' % (what, j)
            mach.check_pos(mm, rr, w)
            mach.check_range(mm, rr, w)
            mach.check_mode(mm, rr, w)
            for i in range(1, 10):
                v = mm.state.coord_systems[i].offset.values
                expect(all(v[a] == rr.cs[i][a] for a in rr.axes), '%s: system %d is %r, expected %r', w, i, v, rr.cs[i])
            expect(all(mm.state.offset.values[a] == rr.temp[a] for a in rr.axes), '%s: offset %r', w, mm.state.offset)
            st.obs('machines compared')
        st.seen([op, len(pool)])


def do_c14_deep(case, st):
    """deep copies of words, codes, blocks, lines and positions"""
    text = case['line']
    line = Line(text)
    before = (str(line), [str(w) for w in line.block.words])
    for (name, obj) in [('line', line), ('block', line.block)] + [('code', g) for g in line.gcodes] + [('word', w) for w in line.block.words]:
        dup = copy.deepcopy(obj)
        expect(dup is not obj and str(dup) == str(obj) and type(dup) is type(obj), 'deep copy of %s %r is %r', name, str(obj), str(dup))
        gcodes = {'line': lambda: dup.block.gcodes, 'block': lambda: dup.gcodes, 'code': lambda: [dup], 'word': lambda: []}[name]()
        for g in gcodes:
            for w in g.params.values():
                w.value = '8' if w.letter == 'T' else 8
            g.word.value = {'T': '1', 'O': 'x'}.get(g.word.letter, 1)
        if name == 'word':
            dup.value = {'T': '9', 'O': 'x'}.get(dup.letter, 9)
        if name == 'block':
            dup.modal_params = []
        st.obs('deep copies')
        same((str(line), [str(w) for w in line.block.words]), before, 'line %r after editing a deep copy of its %s' % (text, name))
    for g in line.gcodes:
        c = copy.copy(g)
        expect(c == g and str(c) == str(g), 'copy of %r is %r', g, c)
        mc = g.modal_copy()
        expect(mc.word == g.word and type(mc) is type(g), 'modal copy of %r is %r', g, mc)
    st.seen(text)


def gen_c14_deep(rng, i):
    from .p_text import gen_c04
    return gen_c04(rng, i)


class OwnMode(GCode):
    # (no word key or rule: only made by hand, never found in text)
    param_letters = set('PX')
    modal_group = 777
    modal_param_letters = set('P')
    exec_order = 125


def copied_own_mode(case, st):
    """a mode of a group that is not a documented one"""
    p = float(case['cur'])
    m = Machine()
    m.process_gcodes(OwnMode(Word('M', 951), P=p, X=3.0))
    m.process_str('G91 F%d' % case['cur'])
    for (name, mode) in [('machine', copy.copy(m).mode), ('machine (deep)', copy.deepcopy(m).mode), ('mode', copy.copy(m.mode)),
                         ('copied machine', copy.copy(copy.copy(m)).mode)]:
        got = mode.modal_groups[777]
        expect(got is not None and (str(got.word), got.P, got.X) == ('M951', p, None), 'own mode of a copied %s: %r', name, got)
        same([str(g) for g in mode.gcodes], [str(g) for g in m.mode.gcodes], 'modes of a copied %s' % name)
        got.P = 99.0
        mode.modal_groups[776] = got
        expect(m.mode.modal_groups[777].P == p and 776 not in m.mode.modal_groups, 'own mode after editing that of a copied %s', name)
        st.obs('own modes copied')


def do_c14_pos(case, st):
    copied_own_mode(case, st)
    p = Position(axes=set(case['axes']), **case['values'])
    if case['unit'] is not None:
        p.unit = case['unit']
    v = dict(p.values)
    u = p.unit
    for dup in (copy.copy(p), copy.deepcopy(p)):
        expect(dup == p and dup is not p, 'copy of %r is %r', p, dup)
        same((dict(dup.values), dup.unit, set(dup.axes)), (v, u, set(case['axes'])), 'copied position')
        for a in case['axes']:
            setattr(dup, a, 1e4)
        dup.unit = 1 - u
        same((dict(p.values), p.unit), (v, u), 'position after changing its copy')
        st.obs('positions copied')
    cs = CoordinateSystem(axes=set(case['axes']))
    cs.offset.update(**case['values'])
    c2 = copy.copy(cs)
    same(dict(c2.offset.values), dict(cs.offset.values), 'copied coordinate system')
    c2.offset.update(**dict((a, 5.0) for a in case['axes']))
    expect(all(getattr(cs.offset, a) == x for (a, x) in case['values'].items()), 'coordinate system after changing its copy: %r', cs)
    s = State(axes=set(case['axes']))
    for (i, c) in s.coord_systems.items():
        c.offset.update(**dict((a, x * i) for (a, x) in case['values'].items()))
    s.cur_coord_sys = case['cur']
    s.offset.update(**case['values'])
    s2 = copy.copy(s)
    for t in (s, s2):
        for i in range(1, 10):
            for (a, x) in case['values'].items():
                same(getattr(t.coord_systems[i].offset, a), x * i, 'system %d of a state' % i)
                same(getattr(t.offset, a), x, 'offset of a state')
        same(t.cur_coord_sys, case['cur'], 'selected system')
        same(dict(t.coord_sys.offset.values), dict(s.coord_systems[case['cur']].offset.values), 'selected system')
    for i in range(1, 10):
        s2.coord_systems[i].offset.update(**dict((a, 0.5) for a in case['axes']))
    s2.offset.update(**dict((a, 0.25) for a in case['axes']))
    for i in range(1, 10):
        for (a, x) in case['values'].items():
            same(getattr(s.coord_systems[i].offset, a), x * i, 'system %d of the original state' % i)
            same(getattr(s.offset, a), x, 'offset of the original state')
    st.seen(case)


def gen_c14_pos(rng, i):
    axes = rng.choice(prog.AXES_SETS)
    return {'axes': axes, 'values': dict((a, gen.value(rng, 1000)) for a in axes if rng.random() < 0.8),
            'unit': rng.choice([None, 0, 1]), 'cur': rng.randint(1, 9)}


def C14():
    return dict(
        sections=[Section('machines', do_c14, gen_c14, quick=1000, thorough=40000),
                  Section('objects', do_c14_deep, gen_c14_deep, quick=3000, thorough=60000),
                  Section('states', do_c14_pos, gen_c14_pos, quick=3000, thorough=60000)],
        anchors=ANCHORS + ['src/pygcode/block.py'],
        rule='Up to six machines that are copies of each other at different moments run interleaved programs, offset changes and '
             'edits; after every operation each is compared with its own reference. Codes are edited after processing. '
             'Distinct operations are counted.',
        deciding=[('machines', 'copies'), ('machines', 'parts copied'), ('machines', 'codes edited'), ('machines', 'assigned codes edited'), ('machines', 'machines compared'),
                  ('objects', 'deep copies'), ('states', 'positions copied'), ('states', 'own modes copied')])


# ----------------------------------------------------------------------- C15
def gen_c15(rng, i):
    def pos(axes):
        return {'axes': axes, 'values': dict((a, gen.value(rng, rng.choice([1, 100, 1e5]))) for a in axes if rng.random() < 0.85)}
    scale = rng.choice([1, 1, 1, 1, 1e-9, 1e6])
    if scale != 1:
        plain = pos
        pos = lambda axes: (lambda d: dict(d, values=dict((a, v * scale) for (a, v) in d['values'].items())))(plain(axes))
    axes = ''.join(sorted(rng.sample('XYZABCUVW', rng.randint(1, 9))))
    other = axes if rng.random() < 0.7 else ''.join(sorted(rng.sample('XYZABCUVW', rng.randint(1, 9))))
    return {'a': pos(axes), 'b': pos(other), 'scalar': rng.choice([0, 1, -1, 2, 0.5, -3.25, 10]), 'ops': [rng.randint(0, 12) for _ in range(8)],
            'unit': rng.choice([0, 1])}


def mk(d, unit=None):
    kw = dict(d['values'])
    if unit is not None:
        kw['unit'] = unit
    p = Position(axes=d['axes'] if len(d['axes']) % 2 else set(d['axes']), **kw)
    return p, dict((a, d['values'].get(a, 0.0)) for a in d['axes'])


SHOWN = [0]  # positions read so far: every fifth is also shown


def same_pos(p, want, what, unit=None, tol=1e-6):
    v = p.values
    same(set(v), set(want), '%s: axes' % what)
    for (a, x) in want.items():
        expect(mach.near(v[a], x, tol) and getattr(p, a) == v[a], '%s: %s is %r, expected %r', what, a, v[a], x)
    if unit is not None:
        same(p.unit, unit, '%s: unit' % what)
    # every way to read it agrees
    words = p.words
    same(dict((w.letter, w.value) for w in words), v, '%s: words' % what)
    vec = p.vector
    same((vec.x, vec.y, vec.z), tuple(v.get(a, 0.0) for a in 'XYZ'), '%s: vector' % what)
    SHOWN[0] += 1
    if SHOWN[0] % 5 == 0:
        shown = repr(p)
        for w in words:
            expect(str(w) in shown, '%s: shown as %r, has %s', what, shown, w)
    same(p.values, v, '%s: values after reading' % what)


def refused(fn, what):
    try:
        got = fn()
    except MachineInvalidAxis:
        return
    raise Violation('%s gave %r, expected MachineInvalidAxis' % (what, got))


def do_c15(case, st):
    (a, va) = mk(case['a'], case['unit'])
    (b, vb) = mk(case['b'], case['unit'])
    (A, B) = (set(va), set(vb))
    u = case['unit']
    tol = 1e-13 * 30 * max([abs(x) for x in list(va.values()) + list(vb.values())] + [1e-300])  # float noise of the largest number

    def same_pos(p, want, what, unit=None):
        globals()['same_pos'](p, want, what, unit, tol)
    k = case['scalar']
    same_pos(a, va, 'new position', u)
    if A == B:
        same_pos(a + b, dict((x, va[x] + vb[x]) for x in va), 'a + b', u)
        same_pos(b + a, dict((x, va[x] + vb[x]) for x in va), 'b + a', u)
        same_pos(a - b, dict((x, va[x] - vb[x]) for x in va), 'a - b', u)
        same_pos((a + b) - b, va, '(a + b) - b', u)
        same_pos((a - b) + b, va, '(a - b) + b', u)
        same((a == b), all(va[x] == vb[x] for x in va), 'a == b for %r, %r' % (va, vb))
        same((a != b), not (a == b), 'a != b')
        st.obs('same axes')
    else:
        refused(lambda: a + b, '%r + %r' % (a, b))
        expect(not (a == b) and (a != b), '%r == %r', a, b)
        if B - A:
            refused(lambda: a - b, '%r - %r' % (a, b))
        else:
            same_pos(a - b, dict((x, va[x] - vb.get(x, 0)) for x in va), 'a - b with fewer axes', u)
        st.obs('different axes')
    same_pos(a * k, dict((x, va[x] * k) for x in va), 'a * %r' % k, u)
    if k:
        same_pos(a / k, dict((x, va[x] / k) for x in va), 'a / %r' % k, u)
        same_pos((a * k) / k, va, 'a * k / k', u)
    expect(a == a and not (a != a) and copy.copy(a) == a, '%r != itself', a)
    same_pos(a - a, dict((x, 0.0) for x in va), 'a - a', u)
    # operands untouched, results are new objects
    same_pos(a, va, 'a after arithmetic', u)
    same_pos(b, vb, 'b after arithmetic', u)
    for r_ in [a * 1, a / 1, a - a] + ([a + b, Position.min(a, b), Position.max(a, b)] if A == B else []):
        expect(r_ is not a and r_ is not b, 'result of arithmetic is an operand')
        for x in va:
            setattr(r_, x, 99.0)
        same_pos(a, va, 'a after changing a result', u)
        same_pos(b, vb, 'b after changing a result', u)
    # axes that are not there
    for x in 'XYZABCUVW':
        if x not in A:
            refused(lambda: setattr(a, x, 1.0), 'setting %s of %r' % (x, a))
            refused(lambda: a.update(**{x: 1.0}), 'updating %s of %r' % (x, a))
            refused(lambda: Position(axes=set(A), **{x: 1.0}), 'Position(axes=%s, %s=1)' % (sorted(A), x))
            try:
                getattr(a, x)
            except AttributeError:
                pass
            else:
                raise Violation('%r has attribute %s' % (a, x))
            st.obs('axis refused')
    refused(lambda: Position(axes='XQ'), "Position(axes='XQ')")
    same_pos(a, va, 'a after refusals', u)
    # read-outs are snapshots
    for x in va:
        snap = a.values
        snap[x] = 5e5
        a.words[0].value = 4e5
        same_pos(a, va, 'a after changing its values', u)
        snap = a.values
        z = copy.copy(a)
        zsnap = z.values
        setattr(z, x, 3e5)
        z.unit = 1 - u
        same(dict(zsnap), va, 'values read before a change')
        same_pos(a, va, 'a after changing a copy', u)
    # min / max
    if A == B:
        same_pos(Position.min(a, b), dict((x, min(va[x], vb[x])) for x in va), 'min', u)
        same_pos(Position.max(a, b), dict((x, max(va[x], vb[x])) for x in va), 'max', u)
        (c, vc) = mk(case['b'], 1 - u)
        f = 25.4 if u == 1 else 1 / 25.4          # value of one unit of c in units of a
        same_pos(Position.min(a, c), dict((x, min(va[x], vc[x] * f)) for x in va), 'min in different units', u)
        same_pos(Position.max(a, c), dict((x, max(va[x], vc[x] * f)) for x in va), 'max in different units', u)
        same_pos(c, vc, 'c after min/max', 1 - u)
        st.obs('extremes')
    # units
    f = 25.4 if u == 0 else 1 / 25.4
    c = copy.copy(a)
    c.unit = 1 - u
    same_pos(c, dict((x, va[x] * f) for x in va), 'a in the other unit', 1 - u)
    c.unit = 1 - u
    same_pos(c, dict((x, va[x] * f) for x in va), 'a in the other unit, twice', 1 - u)
    same_pos(a, va, 'a after changing the unit of a copy', u)
    c.unit = u
    same_pos(c, va, 'a after converting back', u)
    if any(abs(va[x]) > 0 for x in va):
        d, _vd = mk(case['a'], 1 - u)
        expect(a != d and not (a == d), 'same numbers in different units are equal')
    (e, ve) = mk(case['a'], 1 - u)
    for x in va:
        setattr(e, x, va[x] * 25.4 if u == 0 else va[x] / 25.4)
    for (p, q) in ((a, e), (e, a)):
        (p == q, p != q)
        same_pos(a, va, 'a after comparing', u)
        same((e.unit, dict(e.values)), (1 - u, dict((x, va[x] * 25.4 if u == 0 else va[x] / 25.4) for x in va)), 'the other position after comparing')
    g = copy.copy(e)
    g.unit = u
    if dict(g.values) == dict(a.values):         # exactly the same place, whatever the rounding
        expect(a == e and not (a != e), '%r and %r are at the same place', a, e)
        st.obs('equal in different units')
    st.obs('units')
    if 'X' in A and 'Y' in A and 'Z' in A:
        vec = a.vector
        same((vec.x, vec.y, vec.z), (va['X'], va['Y'], va['Z']), 'vector')
    same([(w.letter, w.value) for w in a.words], sorted(va.items()), 'words')
    st.seen(case)


def do_c15_default(case, st):
    p = Position()
    same(set(p.axes), set('XYZABCUVW'), 'default axes')
    same_pos(p, dict((a, 0.0) for a in 'XYZABCUVW'), 'default position')
    q = Position(**case['values'])
    same_pos(q, dict((a, case['values'].get(a, 0.0)) for a in 'XYZABCUVW'), 'position with keywords')
    q.update(**case['more'])
    want = dict((a, 0.0) for a in 'XYZABCUVW')
    want.update(case['values'])
    want.update(case['more'])
    same_pos(q, want, 'updated position')
    sub = type('P', (Position,), {'default_axes': set('XY'), 'default_unit': 0})
    s = sub()
    same((set(s.axes), s.unit), (set('XY'), 0), 'defaults of a subclass')
    same_pos(Position(), dict((a, 0.0) for a in 'XYZABCUVW'), 'default position, again')
    st.obs('defaults')
    st.seen(case)


def do_c15_machine(case, st):
    """positions of a machine are in the unit of its default mode, on its axes"""
    (m, r) = mach.make(case['axes'], case['mode'])
    words = case['mode'].upper().split()
    u = 0 if 'G20' in words else 1
    for (k, op) in enumerate([None] + case['lines']):
        if isinstance(op, list):
            mach.set_cs(m, r, op[1], op[2])
        elif op is not None:
            mach.step(m, r, op, k % 4)
        what = 'machine with mode %r after %r' % (case['mode'], op)
        d = m if k % 3 else copy.copy(m)
        fresh = d.Position()
        same((set(fresh.axes), fresh.unit), (set(case['axes']), u), '%s: axes and unit of a position made by it' % what)
        same_pos(fresh, dict((a, 0.0) for a in case['axes']), '%s: position made by it' % what)
        for (name, p) in (('position', d.pos), ('absolute position', d.abs_pos), ('lowest', d.abs_range_min), ('highest', d.abs_range_max)):
            same(p.unit, u, '%s: unit of %s' % (what, name))
        same(m.Position(**dict((a, 1.5) for a in case['axes'])).values, dict((a, 1.5) for a in case['axes']), '%s: position made with values' % what)
        st.obs('machine units')
    st.obs('inches', 1 - u)
    st.seen([case['axes'], case['mode'], case['lines'][-1:]])


def gen_c15_machine(rng, i):
    (axes, mode) = prog.setup(rng)
    mode = ' '.join(w for w in mode.split() if w.upper() not in ('G20', 'G21'))
    unit = rng.choice(['', 'G20', 'G20', 'G21'])
    mode = ' '.join(rng.sample([mode, unit], 2)).strip()
    lines = prog.program(rng, axes, mode, n=rng.choice([2, 5, 10]), weights={'cs': 1, 'select': 1})
    return {'axes': axes, 'mode': mode, 'lines': lines}


def gen_c15_default(rng, i):
    return {'values': dict((a, gen.value(rng)) for a in 'XYZABCUVW' if rng.random() < 0.5),
            'more': dict((a, gen.value(rng)) for a in 'XYZABCUVW' if rng.random() < 0.5)}


def probe_add_units():
    a = Position(axes='X', X=1.0, unit=1)
    b = Position(axes='X', X=1.0, unit=0)
    same_pos(a + b, {'X': 26.4}, '1 mm + 1 inch', 1)
    same_pos(a - b, {'X': -24.4}, '1 mm - 1 inch', 1)


def C15():
    return dict(
        sections=[Section('arithmetic', do_c15, gen_c15, quick=9000, thorough=600000),
                  Section('defaults', do_c15_default, gen_c15_default, quick=1000, thorough=10000),
                  Section('machines', do_c15_machine, gen_c15_machine, quick=300, thorough=6000)],
        anchors=ANCHORS[:1],
        rule='Random pairs of positions over random axis subsets and both units, with scalars; all operations, unit changes and '
             'refusals are compared with a dictionary model, operands re-checked. Distinct cases are counted.',
        assumptions=['adding and subtracting positions in different units is a recorded finding, not part of the workload'],
        probes=[('add-sub-units', probe_add_units)],
        deciding=[('arithmetic', 'same axes'), ('arithmetic', 'different axes'), ('arithmetic', 'axis refused'),
                  ('arithmetic', 'equal in different units'), ('machines', 'machine units'), ('machines', 'inches')])


# ----------------------------------------------------------------------- C30
def do_c30(case, st):
    (m, r) = mach.make(case['axes'], case['mode'])
    if case.get('watch', 1):
        mach.check_mode(m, r, 'new machine')
        mach.check_pos(m, r, 'new machine')
        mach.check_range(m, r, 'new machine')
        for a in case['axes']:
            same(getattr(m.abs_pos, a), 0.0, 'start of axis %s' % a)
    ops = list(case['lines']) + [None]
    for (k, op) in enumerate(ops):
        if isinstance(op, list):
            continue
        if op is not None:
            mach.step(m, r, op, k % 4, watch=mach.watched(case, k))
        if op is not None and (k % 3 or not mach.watched(case, k)):
            continue
        what = 'mode %r' % str(m.mode)
        motion = r.mode.get(ref.MOTION)
        if motion is not None and motion.word in ref.CANNED:
            ret = r.to_r()
            if ret and 'R' not in motion.params:
                continue
        text = str(m.mode)
        n = NullMachine()
        line = Line(text)
        expect(str(line) == str(Line(str(line))), 'printed mode %r re-prints differently', text)
        n.process_block(line.block)
        got, want = mach.mode_of(n), mach.mode_of(m)
        for name in ref.GROUPS:
            (g, w) = (got.get(name), want.get(name))
            ok = (g is None) == (w is None)
            if g and w:
                ok = g[:2] == w[:2] if g[0] not in 'FS' else abs(g[1] - w[1]) <= 0.0005 + 1e-9
                ok = ok and set(g[2]) == set(w[2]) and all(
                    g[2][l] == w[2][l] if l == 'T' else abs(g[2][l] - w[2][l]) <= 0.0005 + 1e-9 for l in w[2])
            expect(ok, '%s gives %s mode %r, expected %r', what, name, g, w)
        same(n.state.cur_coord_sys, m.state.cur_coord_sys, '%s: selected coordinate system' % what)
        if any(g is not None for g in want.values()):
            same(str(n.mode), text, 'printed again')
        st.obs('modes')
        st.obs('no motion', int('motion' not in want))
        st.obs('with parameters', int(any(w[2] for w in want.values())))
        st.seen(text)


def do_c30_default(case, st):
    """a new machine is in its declared mode"""
    text = case['text']
    cls = type('M', (Machine,), {'MODE_CLASS': type('Md', (Mode,), {'default_mode': text})})
    for _ in range(2):
        m = cls()
        r = ref.RefMachine('XYZ', '')
        for line in text.splitlines():              # each line is a block
            for c in ref.parse(line.split('(')[0])[1]:
                r._set_mode(c)
        mach.check_mode(m, r, 'new machine with %r' % text)
        mach.check_pos(m, r, 'new machine')
        m.process_str('M9')
        r.run_text('M9')
        mach.check_mode(m, r, 'machine with %r after M9' % text)
        m.process_str('G80 G91 M8 F33 G59 G18')     # must not leak into the next new machine
        st.obs('defaults')
    d = Machine()
    mach.check_mode(d, ref.RefMachine(), 'new default machine')
    n = NullMachine()
    same(mach.mode_of(n), {}, 'mode of a null machine')
    same(str(n.mode), '', 'printed mode of a null machine')
    st.seen(text)


def gen_c30_default(rng, i):
    words = gen.block_words(rng, k=rng.randint(1, 10), pool=[w for w in ref.TABLE if ref.TABLE[w].group and w not in ref.CANNED
                                                              and ref.TABLE[w].group != 104],
                            p_param=0.3, letters=0.8, axes='')
    sep = rng.choice([' ', '\n', ' (c)\n'])
    groups = []
    infos = [(l, float(v) if l in 'GM' else v) for (l, v) in words]
    cur = None
    for ((l, v), w) in zip(words, infos):
        if ref.info(w) and not (cur and l in ref.info(cur).params):
            cur = w
            groups.append(l + v)
        elif groups:
            groups[-1] += ' ' + l + v
    return {'text': sep.join(groups)}


def C30():
    w = {'mode': 6, 'any': 4, 'canned': 1, 'cancel': 1, 'motion': 2, 'plane': 1, 'retract': 1, 'select': 1, 'bare': 1}
    return dict(
        sections=[Section('modes', do_c30, gen_program(w, ignore=False, fine=False), quick=2500, thorough=100000),
                  Section('defaults', do_c30_default, gen_c30_default, quick=800, thorough=20000)],
        anchors=ANCHORS,
        rule='The mode reached by random programs over all codes is printed, executed on a machine without mode, compared group '
             'by group and printed again; random declared default modes are compared with new machines. Distinct printed modes '
             'are counted.',
        assumptions=['values to 3 decimals; canned cycles as active motion only in G17 and with R under G99'],
        deciding=[('modes', 'modes'), ('modes', 'no motion'), ('modes', 'with parameters'), ('defaults', 'defaults')])


CHECKS = dict(C09=C09, C10=C10, C11=C11, C12=C12, C13=C13, C14=C14, C15=C15, C30=C30)
