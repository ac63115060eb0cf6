"""C16-C20, C29: arcs, canned cycles, rotations"""
import copy
import itertools
import math

import pygcode
from pygcode import Block, Line, Machine, Position
from pygcode import transform
from pygcode.exceptions import GCodeParameterError
from pygcode.transform import linearize_arc, simplify_canned_cycle
from pygcode.utils import plane_projection, quat2align, quat2coord_system
from euclid3 import Vector3

from . import gen, mach, prog, ref
from .core import Section, Skip, Violation, expect, in_turns, near, same

TAU = 2 * math.pi
ANCHORS = ['src/pygcode/transform.py', 'src/pygcode/gcodes.py']

# in-plane axes (u, v) with u x v = normal
PLANES = {'G17': ('X', 'Y', 'Z', pygcode.GCodeSelectXYPlane),
          'G18': ('Z', 'X', 'Y', pygcode.GCodeSelectZXPlane),
          'G19': ('Y', 'Z', 'X', pygcode.GCodeSelectYZPlane)}
OFFSET = {'X': 'I', 'Y': 'J', 'Z': 'K'}
METHODS = {'inside': transform.ArcLinearizeInside, 'outside': transform.ArcLinearizeOutside,
           'mid': transform.ArcLinearizeMid, 'default': None}


# ----------------------------------------------------------- arcs by construction
class Arc(object):
    """Geometry of a case: known by construction, not read from the words"""

    def __init__(self, case):
        (self.u, self.v, self.n, self.plane) = PLANES[case['plane']]
        self.r, self.a0, self.sweep = case['r'], case['a0'], case['sweep']
        self.sign = 1 if case['ccw'] else -1
        (self.cu, self.cv) = case['c']
        self.h0, self.dh = case['h0'], case['dh']
        self.full = case['full']
        self.start = self.at(0)
        self.end = self.start if self.full else self.at(self.sweep)
        if self.full:
            self.end = dict(self.start)
            self.end[self.n] = self.h0 + self.dh
        if case.get('grid'):
            self.start, self.end = dict(case['grid'][0]), dict(case['grid'][1])
        self.scale = max(abs(x) for x in list(self.start.values()) + list(self.end.values()) + [self.r, abs(self.cu), abs(self.cv)])
        span = math.hypot(self.end[self.u] - self.start[self.u], self.end[self.v] - self.start[self.v])
        self.span = span
        # how far float noise in the given numbers may move the centre
        noise = 1e-15 * (self.scale + 1)
        root = math.sqrt(noise * self.r)
        # (in R form the centre is sqrt(R^2 - half^2) from the chord: flat near a half circle only)
        self.tol = 1e-6 + (4 * root if case['form'] != 'R' else 4 * noise * self.r / max(abs(self.r * math.cos(self.sweep / 2)), root))
        if not self.full:
            self.tol += 8 * noise * self.r / max(span, 1e-12)
        if case.get('grid'):
            self.tol += 3e-6
        if case.get('rounded'):         # words with 3 decimals: no circle through both ends and centre is exact
            self.tol += 2e-3 * (1 + (0 if self.full else self.r / span))

    def at(self, angle):
        a = self.a0 + self.sign * angle
        return {self.u: self.cu + self.r * math.cos(a), self.v: self.cv + self.r * math.sin(a),
                self.n: self.h0 + (self.dh * angle / self.sweep)}

    def words(self, case):
        """[(letter, value)] of the arc code"""
        out = []
        rel = case['dist'] == 'G91'
        for a in 'XYZ':
            val = self.end[a] - self.start[a] if rel else self.end[a]
            if a in case['omit'] and self.end[a] == self.start[a]:
                continue
            out.append((a, val))
        if not out:
            out.append((self.u, 0.0 if rel else self.end[self.u]))
        if case['form'] == 'R':
            big = self.sweep > math.pi
            out.append(('R', -self.r if big else self.r))
        else:
            for (a, c) in ((self.u, self.cu), (self.v, self.cv)):
                val = c if case['arcdist'] == 'G90.1' else c - self.start[a]
                if OFFSET[a] in case['omit'] and case['arcdist'] == 'G91.1' and val == 0 and a != self.u:
                    continue
                out.append((OFFSET[a], val))
        if case.get('shuffle'):
            out = out[::-1]
        if case.get('rounded'):
            out = [(l, round(v, 3)) for (l, v) in out]
        return out


def make_arc(case, dist=None):
    arc = Arc(case)
    c = dict(case, dist=dist) if dist else case
    cls = pygcode.GCodeArcMoveCCW if case['ccw'] else pygcode.GCodeArcMoveCW
    g = cls(**dict(arc.words(c)))
    axes = case.get('axes', 'XYZ')
    start = Position(axes=set(axes), **arc.start)
    for a in axes:
        if a not in 'XYZ':
            setattr(start, a, 77.0)
    kw = {}
    if case['plane'] != 'G17' or not case['defaults']:
        kw['plane'] = arc.plane()
    if c['dist'] == 'G91':
        kw['dist_mode'] = pygcode.GCodeIncrementalDistanceMode()
    elif not case['defaults']:
        kw['dist_mode'] = pygcode.GCodeAbsoluteDistanceMode()
    if case['arcdist'] == 'G90.1':
        kw['arc_dist_mode'] = pygcode.GCodeAbsoluteArcDistanceMode()
    elif not case['defaults']:
        kw['arc_dist_mode'] = pygcode.GCodeIncrementalArcDistanceMode()
    if case['method'] != 'default':
        kw['method_class'] = METHODS[case['method']]
    if case['err'] != 0.01 or not case['defaults']:
        kw['max_error'] = case['err']
    if case['dp'] != 3 or not case['defaults']:
        kw['decimal_places'] = case['dp']
    return arc, g, start, kw


def arc_codes(case, g, start, kw):
    other = dict((k, v) for (k, v) in kw.items() if k in ('dist_mode', 'method_class', 'decimal_places'))
    return in_turns(case, linearize_arc(g, start, **kw), lambda: linearize_arc(
        pygcode.GCodeArcMoveCCW(X=31.0, Y=17.5, Z=6.0, I=12.0, J=9.0), Position(axes='XYZ', X=7.0, Y=-.5, Z=4.0), max_error=.2, **other))


def follow(codes, start, incremental, kinds=('GCodeLinearMove',)):
    """positions reached by generated codes: [(kind, {axis: value})]; independent of Machine"""
    pos = dict(start)
    out = []
    for g in codes:
        kind = type(g).__name__
        if kind not in kinds:
            raise Violation('generated code %r is a %s' % (str(g), kind))
        for w in g.params.values():
            if w.letter in 'XYZ':
                pos[w.letter] = pos[w.letter] + w.value if incremental else w.value
            elif kind != 'GCodeDwell':
                raise Violation('generated code %r has parameter %s' % (str(g), w.letter))
        out.append((kind, dict(pos), g))
    return out


def gen_arc(rng, i):
    plane = rng.choice(['G17', 'G18', 'G19'])
    r = rng.choice([10 ** rng.uniform(-2, 4), 10 ** rng.uniform(-1, 2), gen.value(rng, 100, neg=False) or 1.0, 1.0, 5.0, 10.0])
    r = max(0.01, min(10000.0, r))
    large = rng.random() < 0.08
    if large:
        r = 10 ** rng.uniform(4, 6)
    if gen.NOVEL_NUMS and rng.random() < 0.1:
        r = max(0.01, min(1e6, abs(rng.choice(gen.NOVEL_NUMS)) + rng.choice([0, 0.5, 1e-3, 1.0, rng.uniform(0, 100)])))
    form = rng.choice(['R', 'IJK', 'IJK'])
    full = form == 'IJK' and rng.random() < 0.12
    k = rng.random()
    if full:
        sweep = TAU
    elif k < 0.25:
        sweep = rng.choice([1, 2, 3]) * math.pi / 2
    elif k < 0.35:
        sweep = math.pi
    elif k < 0.45:
        sweep = rng.choice([math.pi, TAU, math.pi / 2, 3 * math.pi / 2]) - 10 ** rng.uniform(-3, -1)
    elif k < 0.55:
        sweep = 10 ** rng.uniform(-3, 0)
    else:
        sweep = rng.uniform(0.01, TAU - 0.01)
    if large and not full and rng.random() < 0.5:
        sweep = 10 ** rng.uniform(-3, -1)
    sweep = max(1e-3, min(sweep, TAU if full else TAU - 1e-3))
    a0 = rng.choice([rng.uniform(0, TAU), rng.randint(0, 7) * math.pi / 4, rng.randint(0, 3) * math.pi / 2])
    err = rng.choice([0.01, 0.01, 10 ** rng.uniform(-4, 0), r * rng.choice([0.001, 0.01, 0.1, 0.5, 1, 2, 10])])
    # at most some 2000 segments
    err = max(err, 1e-4, r * (sweep / 2000.) ** 2 / 8)
    if form == 'R':
        span = 2 * r * math.sin(min(sweep, TAU - sweep) / 2)
        if span < 1e-3:         # (shorter ones are left to float noise)
            (sweep, err) = (math.pi / 2, r / 10.)
        elif span <= err and rng.random() < .5:
            err = max(span * 0.5, r * (TAU / 4000.) ** 2 / 8, 1e-5)
    dist = rng.choice(['G90', 'G91'])
    dp = rng.choice([3, 3, 4, 5, 2, 6])
    while dist == 'G91' and 10 ** -dp > err / 2:
        dp += 1
    mag = rng.choice([0, 1, 100, 100, 10000])
    c = [0.0 if rng.random() < .2 else rng.uniform(-mag, mag) for _ in range(2)]
    if rng.random() < 0.3:
        c = [round(x, 3) for x in c]
    case = {'plane': plane, 'r': r, 'a0': a0, 'sweep': sweep, 'ccw': rng.random() < .5, 'full': full, 'c': c,
            'h0': rng.choice([0.0, gen.value(rng, 100)]), 'dh': rng.choice([0.0, 0.0, gen.value(rng, 50)]),
            'form': form, 'dist': dist, 'arcdist': rng.choice(['G91.1', 'G91.1', 'G90.1']),
            'method': rng.choice(['inside', 'outside', 'mid', 'default']), 'err': err, 'dp': dp,
            'omit': rng.choice(['', 'XYZ', 'XYZIJK', 'Z', 'XYZIJK']), 'defaults': rng.random() < .4,
            'shuffle': rng.random() < .3, 'axes': rng.choice(['XYZ', 'XYZ', 'XYZABC', 'XYZW'])}
    return case


TRIPLES = [(3, 4, 5), (5, 12, 13), (8, 15, 17), (7, 24, 25), (20, 21, 29), (0, 1, 1), (1, 0, 1)]


def gen_grid_arc(rng, i):
    """arcs written with 3 decimals: both ends on the circle exactly (Pythagorean points)"""
    case = gen_arc(rng, i)
    k = round(rng.choice([0.001, 0.01, 0.1, 1, 2, 0.5, 0.25, 10]) * rng.randint(1, 9), 3)
    (p, q) = (rng.choice(TRIPLES), rng.choice(TRIPLES))
    # put both on one radius: m
    hyp = p[2] * q[2]

    def point(t, other):
        (x, y) = (t[0] * other, t[1] * other)
        if rng.random() < .5:
            (x, y) = (y, x)
        return (x * rng.choice([1, -1]), y * rng.choice([1, -1]))
    s = point(p, q[2])
    e = (-s[0], -s[1]) if rng.random() < 0.3 else point(q, p[2])
    r = round(hyp * k, 6)
    if s == e or not 0.01 <= r <= 10000:
        (s, e, hyp, k, r) = ((3, 4), (-3, -4), 5, 0.1, 0.5)
    a0, a1 = math.atan2(s[1], s[0]), math.atan2(e[1], e[0])
    sweep = ((a1 - a0) if case['ccw'] else (a0 - a1)) % TAU
    if s == (-e[0], -e[1]):
        sweep = math.pi
    c = [round(rng.uniform(-100, 100), 3), round(rng.uniform(-100, 100), 3)]
    (u, v, n, _c) = PLANES[case['plane']]
    h0 = round(case['h0'], 3)
    dh = round(case['dh'], 3)
    start = {u: round(c[0] + s[0] * k, 3), v: round(c[1] + s[1] * k, 3), n: h0}
    end = {u: round(c[0] + e[0] * k, 3), v: round(c[1] + e[1] * k, 3), n: round(h0 + dh, 3)}
    err = max(r * rng.choice([.01, .1, .5]), 1e-4)
    dp = 3
    while 10 ** -dp > err / 2:
        dp += 1
    case.update(r=r, a0=a0, sweep=sweep, c=c, h0=h0, dh=end[n] - h0, full=False, grid=[start, end], err=err, dp=dp)
    return case


def check_path(arc, case, pts, what):
    """pts: positions after each segment"""
    incr = case['dist'] == 'G91'
    half = 0.5 * 10 ** -case['dp'] if incr else 0.0
    rnd = half * math.sqrt(2) + 1e-9 * arc.scale
    tol = arc.tol + rnd
    err = case['err']
    r = arc.r
    atol = min(1.0, 2 * tol / r + 1e-9)
    prev = dict(arc.start)
    prev_t = 0.0

    def polar(p):
        (x, y) = (p[arc.u] - arc.cu, p[arc.v] - arc.cv)
        return x, y, math.hypot(x, y)
    total = 0.0
    n = len(pts)
    worst = out = cut = 0.0
    for (k, p) in enumerate(pts):
        (x0, y0, d0) = polar(prev)
        (x1, y1, d1) = polar(p)
        (dx, dy) = (x1 - x0, y1 - y0)
        l2 = dx * dx + dy * dy
        t = 0.0 if l2 == 0 else max(0.0, min(1.0, -(x0 * dx + y0 * dy) / l2))
        low = math.hypot(x0 + t * dx, y0 + t * dy)
        high = max(d0, d1)
        (out, cut) = (max(out, high - r), max(cut, r - low))
        worst = max(worst, out, cut)
        expect(high - r <= err + tol, '%s: segment %d strays %.9g outside the arc (limit %g)', what, k + 1, high - r, err)
        expect(r - low <= err + tol, '%s: segment %d strays %.9g inside the arc (limit %g)', what, k + 1, r - low, err)
        if case['method'] == 'inside':
            expect(high <= r + tol, '%s: inside method leaves the circle by %.9g (segment %d)', what, high - r, k + 1)
        if case['method'] == 'outside':
            expect(low >= r - tol, '%s: outside method cuts %.9g into the circle (segment %d)', what, r - low, k + 1)
        # direction and sweep
        if d0 > 0.05 * r and d1 > 0.05 * r:
            da = (math.atan2(y1, x1) - math.atan2(y0, x0)) * arc.sign % TAU
            if da > TAU - max(atol, 1e-7):
                da -= TAU
            expect(da <= math.pi + atol, '%s: segment %d turns by %.6f', what, k + 1, da)
        else:
            raise Skip()
        total += da
        # height
        want = arc.h0 + arc.dh * (total / arc.sweep if k + 1 < n else 1.0)
        hol = 1e-6 + half + abs(arc.dh) * (2 * atol / arc.sweep + 1e-9)
        expect(abs(p[arc.n] - want) <= hol, '%s: height after segment %d is %r, expected %r', what, k + 1, p[arc.n], want)
        prev = p
    if case['method'] == 'mid' and n > 2:
        expect(abs(out - cut) <= 2 * tol, '%s: mid method strays %.9g outside and %.9g inside the arc', what, out, cut)
    expect(abs(total - arc.sweep) <= atol + 1e-6, '%s: segments turn by %.9f, arc by %.9f', what, total, arc.sweep)
    for a in 'XYZ':
        expect(abs(pts[-1][a] - arc.end[a]) <= half + 1e-6 + 1e-9 * arc.scale, '%s: ends at %s=%r, expected %r', what, a, pts[-1][a], arc.end[a])
    return worst


def gen_rounded_arc(rng, i):
    """centre-form arcs whose words are rounded to 3 decimals, as any program's are"""
    case = gen_arc(rng, i)
    r = rng.choice([rng.uniform(0.5, 5), rng.uniform(1, 100), rng.uniform(100, 1000)])
    full = rng.random() < .2
    sweep = TAU if full else rng.choice([rng.uniform(.3, TAU - .3), math.pi, math.pi / 2, math.pi * rng.uniform(.99, 1.01)])
    a0 = rng.uniform(0, TAU)
    (u, v, n, _c) = PLANES[case['plane']]
    c = [rng.uniform(-200, 200), rng.uniform(-200, 200)]
    case.update(form='IJK', r=r, a0=a0, sweep=sweep, full=full, c=c, rounded=True, h0=round(case['h0'], 3), dh=round(case['dh'], 3),
                err=max(rng.choice([.01, .02, .1, r * .05]), r * (TAU / 2000.) ** 2 / 8), dp=rng.choice([3, 4, 6]))
    if case['dist'] == 'G91':
        case['dp'] = 4
    arc = Arc(case)
    (start, end) = [dict((a, round(p[a], 3)) for a in 'XYZ') for p in (arc.start, arc.end)]
    case['grid'] = [start, end]
    case['dh'] = end[n] - start[n]
    return case


def do_c16(case, st):
    (arc, g, start, kw) = make_arc(case)
    (text, pos0) = (str(g), dict(start.values))
    what = '%s from %r (%s)' % (text, pos0, case['plane'])
    codes = []
    for c in arc_codes(case, g, start, kw):
        codes.append(c)
        expect(len(codes) <= 100000, '%s: more than 100000 segments', what)
    expect(codes, '%s: no segments', what)
    same((str(g), dict(start.values)), (text, pos0), 'arguments of linearize_arc')
    pts = [p for (_k, p, _g) in follow(codes, arc.start, case['dist'] == 'G91')]
    worst = check_path(arc, case, pts, what)
    st.obs('arcs')
    st.obs('segments', len(pts))
    st.obs('form ' + case['form'])
    st.obs('plane ' + case['plane'])
    st.obs('full circles', int(case['full']))
    st.obs('helical', int(bool(case['dh'])))
    st.obs('half of the error limit used', int(worst > case['err'] / 2))
    st.seen([case[k] for k in ('plane', 'form', 'dist', 'arcdist', 'method', 'r', 'a0', 'sweep')])


def do_c16_method(case, st):
    """a linearisation method used directly"""
    (u, v, n) = [pygcode.utils.Vector3(*a) for a in
                 {'G17': ((1, 0, 0), (0, 1, 0), (0, 0, 1)), 'G18': ((0, 0, 1), (1, 0, 0), (0, 1, 0)),
                  'G19': ((0, 1, 0), (0, 0, 1), (1, 0, 0))}[case['plane']]]
    (r, a0, sweep, c) = (case['r'], case['a0'], case['sweep'], case['c'])
    centre = u * c[0] + v * c[1]

    def at(a):
        return centre + u * (r * math.cos(a)) + v * (r * math.sin(a))
    end = a0 + (-sweep if case['cw'] else sweep)
    (h0, h1) = (n * case['h'][0], n * case['h'][1])
    m = METHODS[case['method']](max_error=case['err'], plane_normal=n, arc_p_start=at(a0), arc_p_end=at(end),
                                arc_p_center=centre, arc_radius=r, arc_angle=sweep if case['cw'] else -sweep,
                                helical_start=h0, helical_end=h1)
    if case['peek']:
        (m.inner_radius, m.outer_radius, m.wedge_count)
    runs = [list(m.iter_vertices()), list(in_turns(case, m.iter_vertices(), lambda: METHODS[case['method']](
        max_error=case['err'], plane_normal=n, arc_p_start=at(a0 + 1), arc_p_end=at(a0 + 2), arc_p_center=centre, arc_radius=r, arc_angle=-1.0,
        helical_start=h1, helical_end=h0).iter_vertices()))]
    same(len(runs[0]), len(runs[1]), 'lines of the second run')
    tol = 1e-9 * (r + abs(c[0]) + abs(c[1])) + 1e-9
    for k in range(len(runs[0])):
        for i in (0, 1):
            expect(abs(runs[0][k][i] - runs[1][k][i]) <= tol, 'second run gives another line %d', k)
    lines = runs[0]
    expect(abs(lines[0][0] - (at(a0) + h0)) <= tol, 'first line starts at %r', lines[0][0])
    expect(abs(lines[-1][1] - (at(end) + h1)) <= tol, 'last line ends at %r', lines[-1][1])
    (low, high, prev) = (float('inf'), 0.0, None)
    for (p, q) in lines:
        if prev is not None:
            expect(abs(prev - p) <= tol, 'lines are not connected')
        prev = q
        (x0, y0) = ((p - centre).dot(u), (p - centre).dot(v))
        (x1, y1) = ((q - centre).dot(u), (q - centre).dot(v))
        (dx, dy) = (x1 - x0, y1 - y0)
        l2 = dx * dx + dy * dy
        t = 0.0 if l2 == 0 else max(0.0, min(1.0, -(x0 * dx + y0 * dy) / l2))
        low = min(low, math.hypot(x0 + t * dx, y0 + t * dy))
        high = max(high, math.hypot(x0, y0), math.hypot(x1, y1))
    lim = min(case['err'], r)
    expect(high - r <= lim + tol and r - low <= lim + tol, 'lines stray %.9g..%.9g from radius %r, limit %r', low, high, r, lim)
    near(m.inner_radius, low, 'inner radius of %r' % case, 1e-6 * r + 1e-9)
    near(m.outer_radius, high, 'outer radius of %r' % case, 1e-6 * r + 1e-9)
    near(abs(m.wedge_angle) * m.wedge_count, sweep, 'wedges of %r' % case, 1e-9)
    st.obs('method runs')
    st.obs('lines', len(lines))
    st.seen(['method', case['method'], case['r'], case['sweep'], case['err']])


def gen_c16_method(rng, i):
    r = 10 ** rng.uniform(-1, 3)
    sweep = rng.choice([rng.uniform(0.6, TAU - 0.01), math.pi, math.pi / 2, TAU])
    return {'method': rng.choice(['inside', 'outside', 'mid']), 'plane': rng.choice(['G17', 'G18', 'G19']), 'r': r,
            'a0': rng.choice([0.0, math.pi / 2, rng.uniform(-4, 4)]), 'sweep': sweep, 'cw': rng.random() < .5,
            'c': [rng.uniform(-50, 50), rng.uniform(-50, 50)], 'err': r * 10 ** rng.uniform(-5, -1.8), 'peek': rng.random() < .5,
            'h': rng.choice([[0.0, 0.0], [rng.uniform(-9, 9), rng.uniform(-9, 9)]])}


def probe_extra_axes():
    g = pygcode.GCodeArcMoveCW(X=10.0, Y=0.0, I=5.0, A=90.0)
    codes = list(linearize_arc(g, Position(axes='XYZA', X=0.0, Y=0.0, Z=0.0, A=0.0)))
    expect(codes and codes[-1].params.get('A') is not None and codes[-1].A == 90.0, 'the A word of the arc is in none of its segments')


def C16():
    return dict(
        probes=[('extra-axes-lost', probe_extra_axes)],
        sections=[Section('arcs', do_c16, gen_arc, quick=4000, thorough=250000),
                  Section('grid', do_c16, gen_grid_arc, quick=2000, thorough=80000),
                  Section('rounded', do_c16, gen_rounded_arc, quick=2000, thorough=80000),
                  Section('methods', do_c16_method, gen_c16_method, quick=2000, thorough=60000)],
        anchors=ANCHORS,
        rule='Arcs are constructed from centre, radius, angles and sweep, written as R or IJK in a random mode, and linearised; the '
             'path is judged against the constructed circle: deviation at the nearest and farthest point of each segment, turn '
             'direction and total, height, end point, side of the method. Distinct arcs are counted.',
        assumptions=['radii 0.01..1000000, at most some 4000 segments',
                     'X Y Z arcs: the words of other axes are lost (recorded finding)',
                     'tolerance 1e-6 plus the float noise of the given numbers, plus half a last decimal in incremental mode',
                     'direction is not judged for segments that pass the centre (error limit near the radius)'],
        deciding=[('arcs', 'full circles'), ('arcs', 'helical'), ('arcs', 'form R'), ('arcs', 'form IJK'),
                  ('arcs', 'half of the error limit used'), ('arcs', 'plane G18'), ('grid', 'arcs'), ('rounded', 'arcs'), ('methods', 'method runs')])


# ----------------------------------------------------------------------- C17
def run_arc(g, start, kw):
    """(codes, error)"""
    codes = []
    try:
        for c in linearize_arc(g, start, **kw):
            codes.append(c)
    except GCodeParameterError as e:
        return codes, e
    return codes, None


def do_c17_bad(case, st):
    cls = pygcode.GCodeArcMoveCCW if case['ccw'] else pygcode.GCodeArcMoveCW
    g = cls(**case['words'])
    start = Position(axes=set('XYZ'), **case['start'])
    kw = dict(plane=PLANES[case['plane']][3](), method_class=METHODS[case['method']], max_error=case['err'])
    if case['dist'] == 'G91':
        kw['dist_mode'] = pygcode.GCodeIncrementalDistanceMode()
    if case['arcdist'] == 'G90.1':
        kw['arc_dist_mode'] = pygcode.GCodeAbsoluteArcDistanceMode()
    (codes, err) = run_arc(g, start, kw)
    what = '%s from %r in %s %s (%s)' % (g, case['start'], case['plane'], case['dist'], case['why'])
    expect(err is not None, '%s was accepted: %d segments', what, len(codes))
    expect(not codes, '%s: %d segments before it was refused', what, len(codes))
    if case['why'] in ('no destination', 'both', 'neither', 'zero R'):
        try:
            g.assert_params()
        except GCodeParameterError:
            pass
        else:
            raise Violation('assert_params of %s (%s) passed' % (g, case['why']))
    st.obs(case['why'])
    st.seen(case)


def gen_c17_bad(rng, i):
    plane = rng.choice(sorted(PLANES))
    (u, v, n, _c) = PLANES[plane]
    dist = rng.choice(['G90', 'G91'])
    start = dict((a, gen.value(rng, 100)) for a in 'XYZ')
    d = [rng.choice([gen.value(rng, 50), gen.value(rng, 5), 1.0]) for _ in range(2)]
    if d == [0, 0]:
        d = [1.0, 0.0]
    half = math.hypot(*d) / 2
    dest = {u: d[0], v: d[1]}
    if dist == 'G90':
        dest = dict((a, start[a] + x) for (a, x) in dest.items())
    if rng.random() < .3:
        dest[n] = gen.value(rng, 20)
    why = rng.choice(['no destination', 'both', 'neither', 'zero R', 'too small', 'too small', 'returns', 'zero IJK', 'unreachable IJK'])
    w = dict(dest)
    arcdist = rng.choice(['G91.1', 'G90.1']) if why not in ('zero IJK', 'unreachable IJK') else 'G91.1'
    if why == 'no destination':
        w = rng.choice([{'R': gen.value(rng, 50) or 1.0}, {OFFSET[u]: 1.5}, {OFFSET[u]: gen.value(rng), OFFSET[v]: 2.0}, {}, {'P': 1.0},
                        {rng.choice('ABCUVW'): 10.0, 'R': 5.0}, {rng.choice('ABCUVW'): gen.value(rng), OFFSET[u]: 1.5}, {'A': 1.0, 'P': 1.0, 'R': 3.0}])
    elif why == 'both':
        w['R'] = rng.choice([half * 2, 0.0, -half])
        for a in rng.choice([[u], [v], [u, v], [n]]):
            w[OFFSET[a]] = rng.choice([0.0, 1.0, gen.value(rng)])
    elif why == 'neither':
        if rng.random() < .3:
            w['P'] = 1.0
    elif why == 'zero R':
        w['R'] = rng.choice([0.0, 0, -0.0])
    elif why == 'too small':
        f = rng.choice([0.5, 0.9, 0.99, 0.999, 0.1, 1e-3, rng.uniform(0, 1), 1.0, 0.9999, 0.99999])
        r = min(half * f, half - 1e-4)
        if r <= 0:
            (w, r) = (dict(((a, start[a] + 10.) if dist == 'G90' else (a, 10.)) for a in (u, v)), 1.0)
        w['R'] = r * rng.choice([1, -1])
    elif why == 'returns':
        for a in (u, v):
            w[a] = start[a] if dist == 'G90' else 0.0
        if rng.random() < .4:
            del w[rng.choice((u, v))]
        w['R'] = (gen.value(rng, 50) or 2.0)
    elif why == 'zero IJK':
        # the centre is the start and the end
        w = dict((a, start[a] if dist == 'G90' else 0.0) for a in (u, v))
        w.update({OFFSET[u]: 0.0, OFFSET[v]: 0.0})
        if rng.random() < .3:
            del w[OFFSET[v]]
    else:
        # centre so far off that no arc of that radius reaches the end
        k = rng.uniform(0, 0.9)
        w[OFFSET[u]], w[OFFSET[v]] = d[0] / 2 * k, d[1] / 2 * k
        # mean of the radii is half the span for a centre between the ends: move the centre to the end instead
        why = 'too small'
        del w[OFFSET[u]], w[OFFSET[v]]
        w['R'] = half * k if half * k <= half - 1e-4 and half * k > 0 else None
        if w['R'] is None:
            w = dict(((a, start[a] + 10.) if dist == 'G90' else (a, 10.)) for a in (u, v))
            w['R'] = 1.0
    return {'words': w, 'start': start, 'plane': plane, 'dist': dist, 'arcdist': arcdist, 'ccw': rng.random() < .5, 'why': why,
            'method': rng.choice(['inside', 'outside', 'mid', 'default']), 'err': rng.choice([0.01, 0.01, 0.001, 0.1])}


def do_c17_good(case, st):
    (arc, g, start, kw) = make_arc(case)
    g.assert_params()
    (codes, err) = run_arc(g, start, kw)
    expect(err is None, '%s from %r (%s %s) was refused: %s', g, dict(start.values), case['plane'], case['dist'], err)
    expect(codes, '%s: no segments', g)
    st.obs('half circles', int(case['sweep'] == math.pi))
    st.obs('accepted')
    st.seen([case[k] for k in ('plane', 'form', 'dist', 'arcdist', 'method', 'r', 'a0', 'sweep')])


def gen_c17_good(rng, i):
    case = (gen_grid_arc if rng.random() < .5 else gen_arc)(rng, i)
    if rng.random() < 0.5 and not case.get('grid'):
        case['sweep'], case['full'] = math.pi, False
        if case['form'] == 'R':
            case['err'] = min(case['err'], case['r'])
    case['err'] = max(case['err'], case['r'] * 0.01) if case['form'] == 'IJK' else case['err']
    return case


def cases_c17(tier):
    """every combination of arc words"""
    out = []
    for plane in sorted(PLANES):
        for k in range(2 ** 7):
            ls = [l for (j, l) in enumerate('XYZIJKR') if k >> j & 1]
            for (j, more) in enumerate(('', 'A', 'B', 'C', 'U', 'V', 'W', 'P', 'ABCUVWP')):
                for dist in ('G90', 'G91'):
                    for ccw in (True, False):
                        if not more or (k + j) % 4 == ccw * 2 + (dist == 'G90') or not set('XYZ') & set(ls):
                            out.append({'letters': ''.join(ls), 'more': more, 'plane': plane, 'dist': dist, 'ccw': ccw})
    return out


def do_c17_letters(case, st):
    """which combinations of letters are refused, whatever their values"""
    cls = pygcode.GCodeArcMoveCCW if case['ccw'] else pygcode.GCodeArcMoveCW
    ls = case['letters'] + case.get('more', '')
    vals = {'X': 3., 'Y': 4., 'Z': 2., 'I': 1.5, 'J': 2., 'K': 1., 'R': 50., 'A': 10., 'B': 20., 'C': -5., 'U': 1., 'V': 2., 'W': 3., 'P': 1.}
    g = cls(**dict((l, vals[l]) for l in ls))
    bad = not set('XYZ') & set(ls) or ('R' in ls) == bool(set('IJK') & set(ls))
    try:
        g.assert_params()
        err = None
    except GCodeParameterError as e:
        err = e
    expect(bool(err) == bad, '%s: assert_params %s', g, 'refused' if err else 'passed')
    (u, v, n, pc) = PLANES[case['plane']]
    if bad:
        kw = {'plane': pc(), 'max_error': 0.1}
        if case['dist'] == 'G91':
            kw['dist_mode'] = pygcode.GCodeIncrementalDistanceMode()
        (codes, err) = run_arc(g, Position(axes='XYZ'), kw)
        expect(err is not None and not codes, '%s in %s was linearised', g, case['plane'])
    st.obs('refused' if bad else 'accepted')
    st.seen(case)


def C17():
    return dict(
        sections=[Section('impossible', do_c17_bad, gen_c17_bad, quick=4000, thorough=150000),
                  Section('possible', do_c17_good, gen_c17_good, quick=4000, thorough=150000),
                  Section('letters', do_c17_letters, cases=cases_c17)],
        anchors=ANCHORS,
        rule='Impossible arcs of every kind listed in the statement must raise before the first segment; valid arcs, half of them half '
             'circles on float and 3-decimal coordinates, must not; all 128 letter combinations are enumerated. Distinct arcs are counted.',
        assumptions=['"too small": by at least 1e-4; closer to the boundary (1e-6) either answer is accepted',
                     'R form with ends closer than the error limit is refused by design and not part of the valid arcs'],
        deciding=[('impossible', w) for w in ('no destination', 'both', 'neither', 'zero R', 'too small', 'returns', 'zero IJK')] +
                 [('possible', 'half circles'), ('letters', 'refused')])


# ----------------------------------------------------------------------- C18
KINDS = ('GCodeRapidMove', 'GCodeLinearMove', 'GCodeDwell')


def canned_case(rng, code=None):
    code = code or rng.choice([81, 82, 83, 73, 85, 89])
    dist = rng.choice(['G90', 'G91'])
    start = dict((a, gen.value(rng, rng.choice([5, 100, 1000]))) for a in 'XYZ')
    if rng.random() < .15:                               # reached by calculation, not written
        start = dict((a, v + rng.choice([0, 1e-3, 1e-3]) * rng.uniform(-1, 1)) for (a, v) in start.items())
    depth = rng.choice([gen.value(rng, 20, neg=False), gen.value(rng, 2, neg=False), 0.001, 0.05, 0.1, 0.15, 0.6]) or 1.0
    # retract level relative to the start
    rel = rng.choice([0.0, gen.value(rng, 20), gen.value(rng, 20), -gen.value(rng, 20, neg=False), gen.value(rng, 1)])
    r = round(start['Z'] + rel, 3)
    z = round(r - depth, 3)
    w = {}
    for a in 'XY':
        if rng.random() < 0.8:
            w[a] = rng.choice([gen.value(rng, 100), gen.value(rng, 5)])
            if dist == 'G90' and rng.random() < .1:
                w[a] = start[a]
    if dist == 'G90':
        w['R'], w['Z'] = r, z
    else:
        w['R'], w['Z'] = round(r - start['Z'], 3), round(z - r, 3)
    if rng.random() < 0.5:
        w['L'] = rng.choice([1, 1, 2, 3, 5, 12]) if rng.random() < .99 else rng.choice([100, 101, 130, 257])
        near = [int(v) for v in gen.NOVEL_NUMS if 2 <= v <= 120]
        if near and rng.random() < .3:
            w['L'] = rng.choice(near) + rng.choice([0, 1, 2])
    if code in (83, 73):
        q = rng.choice([gen.value(rng, 5, neg=False), depth, depth / 2, depth * 2, 0.1, 0.05, 0.5, 0.6, 1.0])
        w['Q'] = max(round(q, 3), round(depth / 150., 3) + 0.001)
        if rng.random() < .1:
            w['Q'] = -w['Q']        # (its magnitude counts)
    elif rng.random() < 0.5:
        w['P'] = rng.choice([gen.value(rng, 5, neg=False), 0.25, 2.0])
    ret = rng.choice(['G98', 'G99'])
    return {'code': code, 'words': w, 'start': start, 'dist': dist, 'ret': ret, 'defaults': rng.random() < .4,
            'axes': rng.choice(['XYZ', 'XYZ', 'XYZABC']), 'shuffle': rng.random() < .5}


def canned_call(case):
    ws = list(case['words'].items())
    if case['shuffle']:
        ws.reverse()
    g = getattr(pygcode, ref.TABLE[('G', float(case['code']))].cls)(**dict(ws))
    start = Position(axes=set(case['axes']), **case['start'])
    kw = {}
    if case['dist'] == 'G91':
        kw['dist_mode'] = pygcode.GCodeIncrementalDistanceMode()
    elif not case['defaults']:
        kw['dist_mode'] = pygcode.GCodeAbsoluteDistanceMode()
    if case['ret'] == 'G99':
        kw['retract_mode'] = pygcode.GCodeCannedCycleReturnToR()
    elif not case['defaults']:
        kw['retract_mode'] = pygcode.GCodeCannedCycleReturnPrevLevel()
    if not case['defaults']:
        kw['plane'] = pygcode.GCodeSelectXYPlane()
    if case['axes'] != 'XYZ' or not case['defaults']:
        kw['axes'] = set(case['axes'])
    return g, start, kw


def expand(g, start, kw, what, limit=200000):
    codes = []
    other = dict((k, v) for (k, v) in kw.items() if k in ('dist_mode', 'axes'))
    for c in in_turns([str(g), repr(start)], simplify_canned_cycle(g, start, **kw), lambda: simplify_canned_cycle(
            pygcode.GCodeDrillingCyclePeck(X=31.0, Y=17.0, R=-3.0, Z=-19.0, Q=1.5, L=2), Position(axes=start.axes, X=1.0, Y=2.0, Z=10.0), **other)):
        codes.append(c)
        expect(len(codes) <= limit, '%s: expansion does not end (%d codes)', what, limit)
    return codes


def holes_of(case):
    """(holes [(x, y)], R level, bottom) in absolute coordinates"""
    (w, s) = (case['words'], case['start'])
    n = w.get('L', 1)
    if case['dist'] == 'G90':
        return [(w.get('X', s['X']), w.get('Y', s['Y']))] * n, w['R'], w['Z']
    r = s['Z'] + w['R']
    return [(s['X'] + k * w.get('X', 0.0), s['Y'] + k * w.get('Y', 0.0)) for k in range(1, n + 1)], r, r + w['Z']


E = 1e-6


def check_drilling(case, steps, what, st):
    (holes, r, bottom) = holes_of(case)
    code, w, s = case['code'], case['words'], case['start']
    final = r if case['ret'] == 'G99' else s['Z']
    pos = dict(s)
    k = -1                 # index of the hole being drilled
    cut = None             # lowest level cut in this hole
    peak = None            # highest level since the last feed down
    dwells = 0
    out_by = None          # how the tool left the bottom

    def close(last):
        """the hole is finished"""
        if k < 0:
            return
        expect(abs(cut - bottom) <= E, '%s: hole %d is drilled to %r, expected %r', what, k + 1, cut, bottom)
        expect(dwells == (1 if code in (82, 89) else 0), '%s: %d dwells in hole %d', what, dwells, k + 1)
        if code in (85, 89):
            expect(out_by == 'feed' or bottom >= r - E, '%s: left hole %d by rapid move', what, k + 1)
        if last:
            expect(abs(pos['Z'] - final) <= E, '%s: level after hole %d is %r, expected %r', what, k + 1, pos['Z'], final)
        st.obs('holes')

    visited = [(s['X'], s['Y'])]
    for (j, (kind, p, g)) in enumerate(steps):
        at = '%s: step %d (%s)' % (what, j + 1, g)
        if kind == 'GCodeDwell':
            expect(k >= 0 or at_hole(pos, holes[0]), '%s: dwell outside a hole', at)
            expect(abs(pos['Z'] - bottom) <= E, '%s: dwell at %r, bottom is %r', at, pos['Z'], bottom)
            p_words = [x.value for x in g.params.values() if x.letter == 'P']
            expect(len(p_words) == 1 and p_words[0] >= 0, '%s: dwell without time', at)
            if 'P' in w:
                expect(abs(p_words[0] - w['P']) <= E, '%s: dwells %r, expected %r', at, p_words[0], w['P'])
            dwells += 1
            st.obs('dwells')
            continue
        side = abs(p['X'] - pos['X']) > E or abs(p['Y'] - pos['Y']) > E
        if side:
            expect(kind == 'GCodeRapidMove', '%s: feeds sideways', at)
            close(False)
            need = r if (case['ret'] == 'G99' and k >= 0) else max(r, s['Z'])
            low = min(pos['Z'], p['Z'])
            expect(low >= need - E, '%s: moves sideways at level %r, expected at least %r', at, low, need)
            visited.append((p['X'], p['Y']))
            cut = None
            st.obs('traverses')
        # a feed move at a new place starts a hole
        again = (dwells or out_by) and same_place(holes, k) and abs(cut - bottom) <= E and \
            not ('Q' in w and abs(p['Z'] - bottom) <= E and abs(w['Q']) < r - bottom - E)
        if kind == 'GCodeLinearMove' and p['Z'] < pos['Z'] - E and (cut is None or again):
            k += 1
            expect(k < len(holes), '%s: more than %d holes', at, len(holes))
            expect(at_hole(p, holes[k]), '%s: hole %d is at X%r Y%r, expected %r', at, k + 1, p['X'], p['Y'], holes[k])
            (cut, peak, dwells, out_by) = (r, None, 0, None)
        if kind == 'GCodeRapidMove' and p['Z'] < pos['Z'] - E:
            floor = r if cut is None else cut
            if cut is None or abs(cut - bottom) > E or not same_place(holes, k):
                expect(p['Z'] >= floor - E, '%s: rapid into uncut material (to %r, cut to %r)', at, p['Z'], floor)
            else:
                # done with this hole: may be the approach of a repeat at the same place
                expect(p['Z'] >= bottom - E, '%s: rapid into uncut material (to %r, cut to %r)', at, p['Z'], bottom)
        if kind == 'GCodeLinearMove':
            expect(not side, '%s: feeds sideways', at)
            if p['Z'] < pos['Z'] - E:
                bite = cut - p['Z']
                if 'Q' in w:
                    expect(bite <= abs(w['Q']) + 2 * E, '%s: bites %r, Q is %r', at, bite, w['Q'])
                    if cut < r - E:
                        expect(peak is not None and peak > cut + E, '%s: no retract before this peck', at)
                        if code == 83:
                            expect(abs(peak - r) <= E, '%s: retracted to %r before this peck, expected %r', at, peak, r)
                        st.obs('pecks')
                expect(p['Z'] >= bottom - E, '%s: drills to %r, bottom is %r', at, p['Z'], bottom)
                cut = min(cut, p['Z'])
                peak = p['Z']
            elif p['Z'] > pos['Z'] + E:
                expect(code in (85, 89), '%s: feeds upwards', at)
                expect(abs(p['Z'] - r) <= E, '%s: feeds out to %r, expected %r', at, p['Z'], r)
                if abs(cut - bottom) <= E:
                    out_by = 'feed'
        elif p['Z'] > pos['Z'] + E:
            if cut is not None and abs(cut - bottom) <= E and out_by is None and pos['Z'] < r - E:
                out_by = 'rapid'
            peak = p['Z'] if peak is None else max(peak, p['Z'])
        pos = p
    close(True)
    same(k + 1, len(holes), '%s: number of holes' % what)
    expect(at_hole(pos, holes[-1]), '%s: ends at X%r Y%r, expected %r', what, pos['X'], pos['Y'], holes[-1])
    expect(abs(pos['Z'] - final) <= E, '%s: ends at level %r, expected %r', what, pos['Z'], final)


def same_place(holes, k):
    return 0 <= k < len(holes) - 1 and abs(holes[k][0] - holes[k + 1][0]) <= E and abs(holes[k][1] - holes[k + 1][1]) <= E


def at_hole(p, hole):
    return abs(p['X'] - hole[0]) <= E and abs(p['Y'] - hole[1]) <= E


def do_c18(case, st):
    (holes, r, bottom) = holes_of(case)
    if case['ret'] == 'G98' and case['start']['Z'] < bottom + 1e-9 and case['start']['Z'] != bottom:
        raise Skip()         # recorded finding
    (g, start, kw) = canned_call(case)
    (text, pos0) = (str(g), dict(start.values))
    what = '%s %s %s from %r' % (case['dist'], case['ret'], text, case['start'])
    codes = expand(g, start, kw, what)
    same((str(g), dict(start.values)), (text, pos0), 'arguments of simplify_canned_cycle')
    steps = follow(codes, case['start'], case['dist'] == 'G91', KINDS)
    check_drilling(case, steps, what, st)
    st.obs('cycle G%d' % case['code'])
    st.obs(case['dist'] + ' ' + case['ret'])
    st.seen(case)


def gen_c18(rng, i):
    case = canned_case(rng)
    (holes, r, bottom) = holes_of(case)
    if case['ret'] == 'G98' and case['start']['Z'] < bottom:
        case['ret'] = 'G99'
    return case


def do_c18_refuse(case, st):
    g = getattr(pygcode, ref.TABLE[('G', float(case['code']))].cls)(**case['words'])
    start = Position(axes=set('XYZ'), **case['start'])
    kw = {}
    if case['plane'] != 'G17':
        kw['plane'] = PLANES[case['plane']][3]()
    if case['dist'] == 'G91':
        kw['dist_mode'] = pygcode.GCodeIncrementalDistanceMode()
    try:
        codes = []
        for c in simplify_canned_cycle(g, start, **kw):
            codes.append(c)
            expect(len(codes) < 50000, '%s (%s): expansion does not end', g, case['why'])
    except (NotImplementedError, GCodeParameterError):
        st.obs(case['why'])
        expect(not any(isinstance(c, pygcode.GCodeLinearMove) for c in codes), '%s (%s) was refused after drilling', g, case['why'])
    else:
        raise Violation('%s in %s (%s) was expanded: %s' % (g, case['plane'], case['why'], [str(c) for c in codes[:8]]))
    st.seen(case)


def gen_c18_refuse(rng, i):
    c = canned_case(rng)
    why = rng.choice(['no R', 'no Z', 'Q zero', 'no Q', 'plane', 'upward', 'threading'])
    plane = 'G17'
    if why == 'no R':
        c['words'].pop('R')
    elif why == 'no Z':
        c['words'].pop('Z')
    elif why in ('Q zero', 'no Q'):
        c['code'] = rng.choice([73, 83])
        c['words'].pop('P', None)
        c['words'].pop('Q', None)
        if why == 'Q zero':
            c['words']['Q'] = rng.choice([0, 0.0])
        if rng.random() < .3:
            c['words'].pop('L', None)
    elif why == 'plane':
        plane = rng.choice(['G18', 'G19'])
    elif why == 'upward':
        up = gen.value(rng, 20, neg=False) + 0.001
        c['words']['Z'] = round((c['words']['R'] if c['dist'] == 'G90' else 0) + up, 3)
    else:
        c['code'] = 76
        c['words'].pop('Q', None)
    if c['code'] == 76:
        c['words'] = dict((k, v) for (k, v) in c['words'].items())
    return {'code': c['code'], 'words': c['words'], 'start': c['start'], 'dist': c['dist'], 'plane': plane, 'why': why}


def probe_below():
    case = {'code': 81, 'words': {'X': 1.0, 'Y': 1.0, 'Z': -1.0, 'R': 1.0}, 'start': {'X': 0.0, 'Y': 0.0, 'Z': -5.0}, 'dist': 'G90',
            'ret': 'G98', 'defaults': True, 'axes': 'XYZ', 'shuffle': False}
    (g, start, kw) = canned_call(case)
    steps = follow(expand(g, start, kw, 'probe'), case['start'], False, KINDS)
    expect(all(p['Z'] >= -1.0 for (kind, p, _g) in steps if kind == 'GCodeRapidMove'), 'rapid plunge below the hole')


def C18():
    return dict(
        sections=[Section('cycles', do_c18, gen_c18, quick=8000, thorough=300000),
                  Section('refusals', do_c18_refuse, gen_c18_refuse, quick=2000, thorough=40000)],
        anchors=ANCHORS,
        rule='Random cycles of all six kinds are expanded and the codes simulated step by step by an independent drilling monitor '
             '(places, levels of traverses, cut depth, bites, retracts, dwells, feed-out, final level). Distinct cycles are counted.',
        assumptions=['3-decimal values, Z not above R, L 1..120, at most 150 pecks per hole',
                     'G98 with a start level below the bottom of the hole is a recorded finding'],
        probes=[('g98-below-hole', probe_below)],
        deciding=[('cycles', 'holes'), ('cycles', 'pecks'), ('cycles', 'dwells'), ('cycles', 'traverses')] +
                 [('cycles', 'cycle G%d' % c) for c in (81, 82, 83, 73, 85, 89)] +
                 [('refusals', w) for w in ('no R', 'no Z', 'Q zero', 'no Q', 'plane', 'upward', 'threading')])


# ----------------------------------------------------------------------- C19
def do_c19(case, st):
    (m, r) = mach.make(case['axes'], case['mode'])
    for (k, op) in enumerate(case['lines']):
        if isinstance(op, list):
            mach.set_cs(m, r, op[1], op[2])
            continue
        what = 'after %r (line %d)' % (op, k + 1)
        try:
            (_w, codes, modal) = ref.parse(op)
            ex = r.effective(codes, modal)
        except ref.RefError:
            ex = []
        canned = [c for c in ex if c.word in ref.CANNED]
        twin = None
        if canned:
            twin = copy.copy(m)
            block = Line(op).block
        (kind, _ex) = mach.step(m, r, op, k % 4)
        mach.check_pos(m, r, what)
        if kind != 'ok' or not canned:
            continue
        st.obs('cycles executed')
        st.obs('plane %g' % r.plane())
        p = canned[0].params
        if r.plane() != 17.0 or p.get('R') is None or p.get('Z') is None or p.get('L', 1) < 1 or \
                (canned[0].word[1] in (73.0, 83.0) and (not p.get('Q') or abs(p['Z'] - p['R']) * p.get('L', 1) > 300 * p['Q'])) or canned[0].word[1] == 76.0 or 'Z' not in r.axes \
                or not set('XY') <= set(r.axes) or any(p.get(a) is not None for a in 'UVW' if a in r.axes):
            continue
        # the twin executes the expansion instead
        n = 0
        for g in sorted(twin.block_modal_gcodes(block)):
            if not isinstance(g, pygcode.GCodeCannedCycle):
                twin.process_gcodes(g)
                continue
            try:
                out = list(simplify_canned_cycle(g, twin.pos, plane=twin.mode.plane_selection, dist_mode=twin.mode.distance,
                                                 retract_mode=twin.mode.canned_cycles_return, axes=twin.axes))
            except NotImplementedError:
                out = None          # drilling upward
                break
            for c in out:
                twin.process_gcodes(c)
                n += 1
        else:
            for (name, a, b) in (('position', twin.pos, m.pos), ('absolute position', twin.abs_pos, m.abs_pos)):
                for ax in r.axes:
                    expect(mach.near(getattr(a, ax), getattr(b, ax)), '%s: %s %s of the expansion is %r, of the cycle %r',
                           what, name, ax, getattr(a, ax), getattr(b, ax))
            st.obs('expansions compared')
            st.obs('moves of expansions', n)
            st.obs('repeated', int(p.get('L', 1) > 1))
            st.obs('modal repeats', int(not any(c.word in ref.CANNED for c in codes)))
            st.seen([op, sorted(r.pos.items()), sorted(str(c.word) for c in r.mode.values() if c)])


def gen_c19(rng, i):
    axes = rng.choice(['XYZ', 'XYZ', 'XYZ', 'XYZABC', 'XYZW', 'XY', 'YZA', 'XYZUVW'])
    mode = rng.choice(prog.MODES)
    w = {'canned': 8, 'bare': 6, 'motion': 1, 'distance': 1, 'retract': 1, 'plane': .7, 'select': .4, 'cs': .4, 'noise': 0, 'any': .3, 'mode': .3}
    return {'axes': axes, 'mode': mode, 'lines': prog.program(rng, axes, mode, weights=w)}


def do_c19_no_r(case, st):
    """G99 asks for R: a cycle without it is refused, and moves nothing"""
    (m, r) = mach.make(case['axes'], case['mode'])
    for (k, op) in enumerate(case['lines']):
        if isinstance(op, list):
            mach.set_cs(m, r, op[1], op[2])
        else:
            mach.step(m, r, op, k % 4)
    m.process_str('G80 G99')
    v = mach.view(m)
    g = getattr(pygcode, ref.TABLE[('G', float(case['code']))].cls)(**dict((l, x) for (l, x) in case['words'].items()))
    for run in (lambda: m.process_gcodes(g), lambda: m.process_str(str(g))):
        try:
            run()
        except GCodeParameterError:
            pass
        else:
            raise Violation('%s was executed under G99' % g)
        for (name, pos) in (('abs', m.abs_pos), ('lo', m.abs_range_min), ('hi', m.abs_range_max)):
            same(dict(pos.values), v[name], '%s after %s was refused' % (name, g))
        st.obs('refused')
    st.seen([case['code'], sorted(case['words'].items())])


def gen_c19_no_r(rng, i):
    case = gen_c19(rng, i)
    case['lines'] = case['lines'][:4]
    code = rng.choice([81, 82, 83, 73, 85, 89])
    ls = [l for l in sorted(ref.TABLE[('G', float(code))].params) if l != 'R']
    case.update(code=code, words=dict((l, rng.randint(1, 3) if l == 'L' else gen.value(rng, 20)) for l in ls if rng.random() < .6))
    return case


def C19():
    return dict(
        sections=[Section('programs', do_c19, gen_c19, quick=2500, thorough=100000),
                  Section('no R', do_c19_no_r, gen_c19_no_r, quick=800, thorough=20000)],
        anchors=ANCHORS + ['src/pygcode/machine.py'],
        rule='Programs rich in canned cycles, modal repeats, plane, distance and retract changes and offsets; after each cycle the '
             'machine is compared with an independent interpreter and with a copy that executed the expansion. Distinct '
             '(block, position, mode) are counted.',
        assumptions=['expansion only in G17 with R, Z (and Q) given, Z not above R, L at least 1'],
        deciding=[('programs', 'expansions compared'), ('programs', 'repeated'), ('programs', 'modal repeats'),
                  ('programs', 'plane 18'), ('programs', 'plane 19'), ('programs', 'plane 17.1'), ('programs', 'plane 18.1'),
                  ('programs', 'plane 19.1'), ('no R', 'refused')])


# ----------------------------------------------------------------------- C20
def drop_repeats(points, start, tol):
    """positions without zero-length moves"""
    out, last = [], start
    for p in points:
        if any(abs(p[a] - last[a]) > tol for a in 'XYZ'):
            out.append(p)
            last = p
    return out


def do_c20_arc(case, st):
    got = {}
    for dist in ('G90', 'G91'):
        (arc, g, start, kw) = make_arc(case, dist)
        codes = list(itertools.islice(arc_codes(case, g, start, kw), 100000))
        got[dist] = [p for (_k, p, _g) in follow(codes, arc.start, dist == 'G91')]
        if dist == 'G91':
            for c in codes:
                for w in c.params.values():
                    expect(abs(w.value - round(w.value, case['dp'])) < 1e-9 + 1e-12 * abs(w.value),
                           '%s: increment %r has more than %d decimals', g, w.value, case['dp'])
    (a, b) = (got['G90'], got['G91'])
    if len(a) != len(b) and abs(len(a) - len(b)) == 1:
        st.obs('different number of segments')     # float noise in the number of wedges
        return
    same(len(b), len(a), '%s: number of moves in incremental mode' % g)
    half = 0.5 * 10 ** -case['dp'] + 1e-6 + 1e-9 * arc.scale + arc.tol
    for (k, (p, q)) in enumerate(zip(a, b)):
        for ax in 'XYZ':
            expect(abs(p[ax] - q[ax]) <= half, '%s: move %d goes to %s=%r in incremental mode, %r in absolute (limit %g)',
                   g, k + 1, ax, q[ax], p[ax], half)
    st.obs('moves compared', len(a))
    st.obs('long', int(len(a) >= 300))
    st.seen([case[k] for k in ('plane', 'form', 'arcdist', 'method', 'r', 'a0', 'sweep')])


def gen_c20_arc(rng, i):
    case = gen_arc(rng, i)
    if rng.random() < 0.25:      # many segments
        case['err'] = max(1e-4, case['r'] * (TAU / rng.choice([500, 1500, 2500])) ** 2 / 8)
    if case['form'] == 'R':
        span = 2 * case['r'] * math.sin(min(case['sweep'], TAU - case['sweep']) / 2)
        if span < 1e-3:
            case['sweep'] = 2.0
    while 10 ** -case['dp'] > case['err'] / 2:
        case['dp'] += 1
    return case


def do_c20_canned(case, st):
    (holes, r, bottom) = holes_of(case)
    w = dict(case['words'])
    n = w.get('L', 1)
    alt = dict(case)
    s = case['start']
    if case['dist'] == 'G90':
        w['R'], w['Z'] = r - s['Z'], bottom - r
        for a in 'XY':
            if a in w:
                w[a] = w[a] - s[a]
        if n > 1:
            w['L'] = 1
            case = dict(case, words=dict(case['words'], L=1))
        alt.update(dist='G91', words=w)
    else:
        if n > 1:
            w['L'] = 1
            case = dict(case, words=dict(case['words'], L=1))
        w['R'], w['Z'] = r, bottom
        for a in 'XY':
            if a in w:
                w[a] = s[a] + w[a]
        alt.update(dist='G90', words=w)
    paths = []
    for c in (case, alt):
        (g, start, kw) = canned_call(c)
        steps = follow(expand(g, start, kw, str(g)), s, c['dist'] == 'G91', KINDS)
        out, last = [], s
        for (kind, p, g2) in steps:
            if kind == 'GCodeDwell':
                out.append((kind, [round(x.value, 6) for x in g2.params.values()], None))
                st.obs('dwells in place')
            elif any(abs(p[a] - last[a]) > 2e-6 for a in 'XYZ'):
                out.append((kind, None, p))
                last = p
        paths.append(out)
    (a, b) = paths
    what = '%s %s from %r' % (case['dist'], g, s)
    same([x[:2] for x in b], [x[:2] for x in a], '%s: sequence of codes in the other distance mode' % what)
    for (k, (x, y)) in enumerate(zip(a, b)):
        if x[2]:
            for ax in 'XYZ':
                expect(abs(x[2][ax] - y[2][ax]) <= 1e-5, '%s: step %d goes to %s=%r, in the other distance mode to %r',
                       what, k + 1, ax, x[2][ax], y[2][ax])
    st.obs('cycles')
    st.obs('moves', len(a))
    st.seen(case)


def do_c20_multi(case, st):
    """repeats in incremental mode against single cycles in absolute mode"""
    (holes, r, bottom) = holes_of(case)
    (g, start, kw) = canned_call(case)
    inc = [x for x in follow(expand(g, start, kw, str(g)), case['start'], True, KINDS)]
    want, pos = [], dict(case['start'])
    for (x, y) in holes:
        w = dict(case['words'], X=x, Y=y, R=r, Z=bottom)
        w.pop('L', None)
        c = dict(case, dist='G90', words=w, start=dict(pos))
        (g1, s1, kw1) = canned_call(c)
        part = follow(expand(g1, s1, kw1, str(g1)), pos, False, KINDS)
        want += part
        pos = dict(part[-1][1])

    def clean(steps):
        out, last = [], case['start']
        for (kind, p, g2) in steps:
            if kind == 'GCodeDwell':
                out.append((kind, None))
            elif any(abs(p[a] - last[a]) > 2e-6 for a in 'XYZ'):
                out.append((kind, p))
                last = p
        return out
    if case['ret'] == 'G98' or r >= case['start']['Z']:
        (a, b) = (clean(want), clean(inc))
        same([x[0] for x in b], [x[0] for x in a], '%s: sequence' % g)
        for (k, (x, y)) in enumerate(zip(a, b)):
            if x[1]:
                for ax in 'XYZ':
                    expect(abs(x[1][ax] - y[1][ax]) <= 1e-5, '%s from %r: step %d goes to %s=%r, as single cycles to %r',
                           g, case['start'], k + 1, ax, y[1][ax], x[1][ax])
        st.obs('repeats', len(holes))
    for ax in 'XYZ':
        expect(abs(inc[-1][1][ax] - want[-1][1][ax]) <= 1e-5, '%s from %r: ends at %s=%r, as single cycles at %r',
               g, case['start'], ax, inc[-1][1][ax], want[-1][1][ax])
    st.obs('long', int(len(inc) >= 300))
    st.seen(case)


def gen_c20_canned(rng, i):
    case = gen_c18(rng, i)
    case['words'].pop('L', None)
    return case


def gen_c20_multi(rng, i):
    case = canned_case(rng)
    while case['dist'] != 'G91':
        case = canned_case(rng)
    (holes, r, bottom) = holes_of(case)
    if case['ret'] == 'G98' and case['start']['Z'] < bottom:
        case['ret'] = 'G99'
    case['words']['L'] = rng.choice([2, 3, 5, 20, 60])
    if 'Q' in case['words'] and case['words']['L'] >= 20:
        case['words']['Q'] = max(abs(case['words']['Q']), 0.5, round((r - bottom) / 20., 3))
    case['words'].setdefault('X', 0.001)
    return case


def C20():
    return dict(
        sections=[Section('arcs', do_c20_arc, gen_c20_arc, quick=2000, thorough=80000),
                  Section('cycles', do_c20_canned, gen_c20_canned, quick=3000, thorough=100000),
                  Section('repeated cycles', do_c20_multi, gen_c20_multi, quick=1000, thorough=30000)],
        anchors=ANCHORS,
        rule='The same arc or cycle is generated in absolute and in incremental mode; positions after each move (zero-length moves '
             'dropped) and the places of dwells are compared; long arcs and repeated cycles show accumulation. Distinct cases are counted.',
        assumptions=['limit: half a last decimal for arcs at every vertex; canned cycles with 3-decimal values'],
        deciding=[('arcs', 'moves compared'), ('arcs', 'long'), ('cycles', 'cycles'), ('cycles', 'dwells in place'),
                  ('repeated cycles', 'repeats'), ('repeated cycles', 'long')])


# ----------------------------------------------------------------------- C29
def vec(v):
    return Vector3(*[float(x) for x in v])


def norm(v):
    return math.sqrt(sum(x * x for x in v))


def unit(v):
    n = norm(v)
    return [x / n for x in v]


def dot(a, b):
    return sum(x * y for (x, y) in zip(a, b))


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def close(got, want, what, tol=1e-6):
    g = [got.x, got.y, got.z]
    expect(all(abs(x - y) <= tol for (x, y) in zip(g, want)), '%s: %r, expected %r', what, g, list(want))


def rigid(q, what):
    """the rotation keeps lengths and handedness"""
    e = [q * Vector3(1., 0., 0.), q * Vector3(0., 1., 0.), q * Vector3(0., 0., 1.)]
    e = [[v.x, v.y, v.z] for v in e]
    for (i, j) in itertools.combinations_with_replacement(range(3), 2):
        expect(abs(dot(e[i], e[j]) - (1 if i == j else 0)) <= 1e-6, '%s is no rotation', what)
    close(vec(cross(e[0], e[1])), e[2], '%s: handedness' % what)


def do_c29(case, st):
    (a, b) = (case['a'], case['b'])
    (va, vb) = (vec(a), vec(b))
    q = quat2align(va, vb)
    what = 'quat2align(%r, %r)' % (a, b)
    close((q * va.normalized()), unit(b), what)
    rigid(q, what)
    q = quat2align(vec(unit(a)), vec(unit(b)), normalize=False)
    close(q * vec(unit(a)), unit(b), what + ' of unit vectors')
    same(([va.x, va.y, va.z], [vb.x, vb.y, vb.z]), ([float(x) for x in a], [float(x) for x in b]), 'arguments')
    c = abs(dot(unit(a), unit(b)))
    st.obs('alignments')
    st.obs('parallel', int(c > 1 - 1e-14 and dot(a, b) > 0))
    st.obs('opposite', int(c > 1 - 1e-14 and dot(a, b) < 0))
    # projection
    p = plane_projection(va, vb)
    n = unit(b)
    d = dot(a, n)
    want = [x - d * y for (x, y) in zip(a, n)]
    tol = 1e-9 * (1 + norm(a))
    close(p, want, 'projection of %r onto the plane of %r' % (a, b), tol)
    expect(abs(dot([p.x, p.y, p.z], n)) <= tol, 'projection of %r has a normal component', a)
    p2 = plane_projection(p, vb)
    close(p2, [p.x, p.y, p.z], 'projection repeated', tol)
    st.seen([a, b])


def do_c29_frames(case, st):
    (o1, o2, a1, a2) = (case[k] for k in ('o1', 'o2', 'a1', 'a2'))
    q = quat2coord_system(vec(o1), vec(o2), vec(a1), vec(a2))
    what = 'quat2coord_system(%r, %r, %r, %r)' % (o1, o2, a1, a2)
    close(q * vec(unit(o1)), unit(a1), what + ' first axis')
    close(q * vec(unit(o2)), unit(a2), what + ' second axis')
    close(q * vec(cross(unit(o1), unit(o2))), cross(unit(a1), unit(a2)), what + ' third axis')
    rigid(q, what)
    st.obs('frames')
    st.obs('degenerate', int(abs(abs(dot(unit(o1), unit(a1))) - 1) < 1e-12))
    st.seen(case)


def rnd_vec(rng):
    k = rng.random()
    if k < 0.35:
        v = [rng.choice([0, 1, -1]) for _ in range(3)]
    elif k < 0.5:
        v = [rng.choice([0, 1, -1, 1e-7, -1e-7, 1e-10, 1e-4]) for _ in range(3)]
    elif k < 0.6:
        v = [rng.randint(-5, 5) for _ in range(3)]
    else:
        v = [rng.gauss(0, 1) for _ in range(3)]
    if norm(v) < 1e-3:
        v = [0, 0, rng.choice([1, -1])]
    s = rng.choice([1, 1, 10 ** rng.uniform(-3, 4)])
    return [x * s for x in v]


def gen_c29(rng, i):
    a = rnd_vec(rng)
    k = rng.random()
    if k < 0.15:
        b = [x * rng.choice([1, 2.5]) for x in a] if rng.random() < .5 else list(a)
    elif k < 0.35:
        s = rng.choice([-1, -3.0])
        b = [x * s for x in a]
    elif k < 0.5:
        s = rng.choice([1, -1])
        e = 10 ** rng.uniform(-10, -2) * norm(a)
        b = [s * x + rng.uniform(-e, e) for x in a]
    else:
        b = rnd_vec(rng)
    return {'a': a, 'b': b}


def gen_frame(rng):
    while True:
        (a, b) = (unit(rnd_vec(rng)), unit(rnd_vec(rng)))
        c = cross(a, b)
        if norm(c) > 0.05:
            return a, unit(cross(unit(c), a))


def gen_c29_frames(rng, i):
    (o1, o2) = gen_frame(rng)
    (a1, a2) = gen_frame(rng)
    k = rng.random()
    if k < 0.5:
        # degenerate relations between the frames
        o3 = cross(o1, o2)
        axes = [o1, o2, o3]
        rng.shuffle(axes)
        a1 = [x * rng.choice([1, -1]) for x in [0]] and [x for x in axes[0]]
        if rng.random() < .5:
            a1 = [-x for x in a1]
        a2 = axes[1]
        if rng.random() < .5:
            a2 = [-x for x in a2]
    s = [rng.choice([1, 1, 3.5, 0.2]) for _ in range(4)]
    return {'o1': [x * s[0] for x in o1], 'o2': [x * s[1] for x in o2], 'a1': [x * s[2] for x in a1], 'a2': [x * s[3] for x in a2]}


def cases_c29(tier):
    """all right-angled frames onto all others, all axis pairs, the three planes"""
    dirs = [[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1]]
    frames = [(a, b) for a in dirs for b in dirs if dot(a, b) == 0]
    return [{'o1': f[0], 'o2': f[1], 'a1': g[0], 'a2': g[1]} for f in frames for g in frames]


def do_c29_planes(case, st):
    (u, v, n, cls) = PLANES[case['plane']]
    e = {'X': [1, 0, 0], 'Y': [0, 1, 0], 'Z': [0, 0, 1]}
    inst = cls()
    for c in (cls, inst):
        rigid(c.quat, '%s.quat' % cls.__name__)
        close(c.quat * Vector3(1., 0., 0.), e[u], '%s: image of X' % cls.__name__)
        close(c.quat * Vector3(0., 1., 0.), e[v], '%s: image of Y' % cls.__name__)
        close(c.quat * Vector3(0., 0., 1.), e[n], '%s: image of Z' % cls.__name__)
        close(c.normal, e[n], '%s: normal' % cls.__name__)
        for x in ([1., 2., 0.], [-3., .5, 0.], case['p']):
            p = c.quat * vec(x)
            b = c.quat.conjugated() * p
            close(b, x, '%s: there and back' % cls.__name__, 1e-6 * (1 + norm(x)))
            want = [0, 0, 0]
            for (axis, val) in zip((u, v, n), x):
                want['XYZ'.index(axis)] += val
            close(p, want, '%s: image of %r' % (cls.__name__, x), 1e-6 * (1 + norm(x)))
    same((inst.normal_axis, set(inst.plane_axes)), (n, {u, v}), '%s: axes' % cls.__name__)
    g = Block(case['plane']).gcodes[0]
    expect(isinstance(g, cls), '%s is %r', case['plane'], g)
    st.obs('planes')
    st.seen(case)


def C29():
    return dict(
        sections=[Section('alignments', do_c29, gen_c29, quick=10000, thorough=400000),
                  Section('frames', do_c29_frames, gen_c29_frames, quick=6000, thorough=200000),
                  Section('right-angled frames', do_c29_frames, cases=cases_c29),
                  Section('planes', do_c29_planes,
                          lambda rng, i: {'plane': rng.choice(sorted(PLANES)), 'p': [rng.uniform(-100, 100), rng.uniform(-100, 100), 0.]},
                          quick=60, thorough=600)],
        anchors=['src/pygcode/utils.py'],
        rule='Random, parallel, opposite and nearly parallel pairs of vectors, and pairs of frames (all 576 right-angled ones '
             'enumerated); images of the axes, lengths, handedness and projections are compared with plain vector arithmetic.',
        assumptions=['tolerance 1e-6; vectors with length 1e-3 to 1e4'],
        deciding=[('alignments', 'parallel'), ('alignments', 'opposite'), ('frames', 'degenerate'), ('right-angled frames', 'frames'),
                  ('planes', 'planes')])


CHECKS = dict(C16=C16, C17=C17, C18=C18, C19=C19, C20=C20, C29=C29)
