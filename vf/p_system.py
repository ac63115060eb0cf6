"""C31-C35: reproducibility, threads, memory and work, written text, queries"""
import copy
import gc
import itertools
import json
import os
import random
import re
import subprocess
import sys
import threading
import time

import pygcode
from pygcode import Block, GCode, Line, Machine, Word
from pygcode.exceptions import GCodeParameterError, GCodeWordStrError, MachineInvalidAxis, MachineInvalidState
from pygcode.machine import Position, UNIT_IMPERIAL
from pygcode.transform import linearize_arc, simplify_canned_cycle
from pygcode.utils import Vector3, omit_redundant_modes, plane_projection, quat2align, quat2coord_system
from pygcode.words import str2word, text2words, words2dict

from . import core, digest, gen, mach, p_geom, p_tools, prog, ref
from .core import Section, Skip, Violation, expect, same

SRC = 'src/pygcode/'
ALL = [SRC + f for f in ('words.py', 'gcodes.py', 'machine.py', 'block.py', 'line.py', 'comment.py', 'transform.py', 'utils.py')]


# ------------------------------------------------------------------ workloads
def some_case(rng, kinds=('program', 'program', 'arc', 'cycle', 'script', 'lists')):
    kind = rng.choice(kinds)
    if kind == 'arc':
        case = (p_geom.gen_arc if rng.random() < .6 else p_geom.gen_grid_arc)(rng, 0)
        case['err'] = max(case['err'], case['r'] * .002)
    elif kind == 'cycle':
        case = p_geom.canned_case(rng)
        case['words'].update(L=min(case['words'].get('L', 1), 5)) if 'L' in case['words'] else None
    elif kind == 'script':
        if rng.random() < .6:
            c = p_tools.gen_c23(rng, 0) if rng.random() < .7 else p_tools.gen_c24_final(rng, 0)
            case = {'name': 'pygcode-norm', 'args': p_tools.norm_args(c) + c.get('final', []) + [None], 'lines': c['lines']}
        else:
            c = p_tools.gen_c25(rng, 0)
            arg = ','.join(x[3] for x in c['first']) + ':' + ','.join(x[3] for x in c['last'])
            case = {'name': 'pygcode-crop', 'args': [None, arg if not arg.startswith('-') else '2:'], 'lines': c['lines']}
    else:
        (axes, mode) = prog.setup(rng)
        lines = [op for op in prog.program(rng, axes, mode, n=rng.choice([4, 10, 20]), weights={'any': 3, 'bad': 1, 'canned': 1.5})
                 if isinstance(op, str)]
        lines = [t + rng.choice(['', '', '', ' (note)', ' ; note', '(a) (b)', ' %m']) for t in lines]
        case = {'axes': axes, 'mode': mode, 'lines': lines}
    case['kind'] = kind
    return case


# ----------------------------------------------------------------------- C31
def gen_c31(rng, i):
    return {'cases': [some_case(rng) for _ in range(16)], 'hash': [rng.randint(0, 10 ** 6) for _ in range(2)], 'shuffle': rng.random()}


def in_process(cases, order, hash_seed):
    env = dict(os.environ, PYTHONHASHSEED=str(hash_seed), PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run([sys.executable, os.path.join(core.HERE, 'vf', 'digest.py'), core.HERE], input=json.dumps(
        {'cases': cases, 'order': order}).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=300)
    if p.returncode:
        raise RuntimeError('digest process: %s' % p.stderr.decode()[-500:])
    return json.loads(p.stdout.decode())


def first_difference(a, b):
    if isinstance(a, list) and isinstance(b, list):
        for (x, y) in zip(a, b):
            if x != y:
                return first_difference(x, y)
        return '%d and %d items' % (len(a), len(b))
    return '%r and %r' % (a, b)


def do_c31(case, st):
    cases = case['cases']
    n = len(cases)
    order = list(range(n))
    random.Random(case['shuffle']).shuffle(order)
    runs = [json.loads(json.dumps([digest.digest(c) for c in cases])),
            in_process(cases, list(range(n)), case['hash'][0]), in_process(cases, order, case['hash'][1])]
    names = ['this process', 'a process with hash seed %d' % case['hash'][0],
             'a process with hash seed %d and the cases in the order %r' % (case['hash'][1], order)]
    again = json.loads(json.dumps([digest.digest(cases[i]) for i in reversed(range(n))]))[::-1]
    runs.append(again)
    names.append('this process, a second time')
    for k in range(n):
        for (run, name) in zip(runs[1:], names[1:]):
            if run[k] != runs[0][k]:
                raise Violation('%s of %r differs between this process and %s: %s' % (
                    cases[k]['kind'], cases[k].get('lines', cases[k].get('words', cases[k])), name, first_difference(runs[0][k], run[k])))
        st.obs('compared ' + cases[k]['kind'])
        st.seen(cases[k])
    st.obs('processes', 2)


def C31():
    return dict(
        sections=[Section('processes', do_c31, gen_c31, quick=32, thorough=1500, chunk=2)],
        anchors=ALL + ['scripts/pygcode-norm', 'scripts/pygcode-crop'],
        rule='Batches of programs, arcs, cycles, code lists and script runs are executed in this process (twice, in opposite order) and in '
             'two processes with other hash seeds (one in a random order); everything shown (text of lines, words, codes, modes, positions, '
             'generated moves, script output, error messages) is compared literally. Distinct cases are counted.',
        deciding=[('processes', 'compared ' + k) for k in ('program', 'arc', 'cycle', 'script', 'lists')])


# ----------------------------------------------------------------------- C32
class Scheduler(object):
    """Provokes thread switches inside the library and records them (sys.monitoring, lines of pygcode)"""
    TOOL = 4

    def __init__(self, seed, p, naps=()):
        self.rng = random.Random(seed)
        # number of different places a thread has come to -> library lines of the others to wait for
        self.naps = dict((int(at), int(n)) for (at, n) in naps)
        self.places = {}
        self.p = p
        self.last = None
        self.switches = []
        self.events = 0
        self.napped = 0

    def __enter__(self):
        mon = sys.monitoring
        prefix = os.path.join(core.SRC, 'pygcode') + os.sep
        rnd, p, ident = self.rng.random, self.p, threading.get_ident

        def line(code, lineno):
            if not code.co_filename.startswith(prefix):
                return mon.DISABLE
            self.events += 1
            me = ident()
            if me != self.last:
                self.last = me
                self.switches.append((os.path.basename(code.co_filename), lineno))
            if rnd() < p:
                time.sleep(0)
            if self.naps:
                been = self.places.setdefault(me, set())
                if (code, lineno) in been:
                    return
                been.add((code, lineno))
                nap = self.naps.pop(len(been), None)
                if nap:
                    until, still = self.events + nap, 0
                    while self.events < until and still < 40:      # (or no other thread is going)
                        before = self.events
                        time.sleep(5e-4)
                        still = still + 1 if self.events == before else 0
                    self.napped += 1
        self.old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        mon.use_tool_id(self.TOOL, 'verif-threads')
        mon.register_callback(self.TOOL, mon.events.LINE, line)
        mon.set_events(self.TOOL, mon.events.LINE)
        return self

    def __exit__(self, *exc):
        mon = sys.monitoring
        mon.set_events(self.TOOL, 0)
        mon.register_callback(self.TOOL, mon.events.LINE, None)
        mon.free_tool_id(self.TOOL)
        sys.setswitchinterval(self.old)
        return False


def alone(fn):
    """(result, number of library lines) of fn without other threads"""
    with Scheduler(0, 0) as s:
        res = fn()
    return res, s.events


def together(jobs, seed, p, lines, naps=()):
    """run the jobs (functions; about this many library lines in all) in one thread each, started at once: (results, scheduler)"""
    out = [None] * len(jobs)
    barrier = threading.Barrier(len(jobs))

    def run(k):
        barrier.wait()
        try:
            out[k] = ('ok', jobs[k]())
        except Exception as e:
            out[k] = ('error', '%s: %s' % (type(e).__name__, e))
    ts = [threading.Thread(target=run, args=(k,), daemon=True) for k in range(len(jobs))]
    with Scheduler(seed, min(p, 8000. / max(1, lines)), naps) as s:
        for t in ts:
            t.start()
        seen, still = 0, 0
        while any(t.is_alive() for t in ts):
            for t in ts:
                t.join(5. / len(ts))
            expect(s.events <= 100 * lines + 10 ** 6, 'threads do not end: %d library lines so far, %d when run one by one', s.events, lines)
            still = still + 1 if s.events == seen else 0
            expect(still < 60, 'threads stand still')
            seen = s.events
    return out, s


def gen_c32(rng, i):
    kinds = ('program', 'program', 'arc', 'cycle', 'lists')
    jobs = [[some_case(rng, kinds) for _ in range(rng.choice([1, 2, 3]))] for _ in range(rng.choice([2, 3, 4, 6]))]
    if rng.random() < .3:
        jobs[1] = jobs[0]
    return {'jobs': jobs, 'seed': rng.randint(0, 10 ** 9), 'p': rng.choice([.002, .02, .1, .5]), 'naps': some_naps(rng)}


def do_c32(case, st):
    jobs = case['jobs']
    (want, lines) = alone(lambda: [[digest.digest(c) for c in job] for job in jobs])
    for attempt in range(2):
        (got, s) = together([lambda job=job: [digest.digest(c) for c in job] for job in jobs], case['seed'] + attempt, case['p'], lines, case['naps'])
        for (k, job) in enumerate(jobs):
            (kind, res) = got[k]
            expect(kind == 'ok', 'thread %d of %d ended with %s', k, len(jobs), res)
            for (c, a, b) in zip(job, want[k], res):
                if a != b:
                    raise Violation('%s %r beside %d other threads differs: %s' % (
                        c['kind'], c.get('lines', c.get('words', c)), len(jobs) - 1, first_difference(a, b)))
        st.obs('thread switches inside the library', len(s.switches))
        st.obs('interleaved runs', int(len(s.switches) > 2 * len(jobs)))
        st.seen([s.switches])
    st.obs('threads', len(jobs))


def gen_c32_first(rng, i):
    texts = []
    for _ in range(rng.choice([2, 3, 4, 8])):
        t = rng.choice([lambda: gen.layout(rng, gen.block_words(rng)), lambda: 'G%d X1' % rng.randint(0, 3), lambda: 'M%d' % rng.randint(3, 9),
                        lambda: 'F100 S20 T3'])()
        texts.append(t)
    return {'texts': texts, 'seed': rng.randint(0, 10 ** 9), 'p': rng.choice([.001, .005, .02, .1]), 'times': rng.choice([1, 20, 60]),
            'naps': some_naps(rng, 160)}


def some_naps(rng, most=250):
    """threads that stop for long somewhere, while others go on"""
    return [[rng.randint(1, most), int(10 ** rng.uniform(2.5, 4))] for _ in range(rng.choice([0, 1, 4, 8, 12]))]


FIRST = '''
import json, sys
sys.path.insert(0, sys.argv[1])
from vf import core
core.setup_import()
import pygcode
case = json.load(sys.stdin)
from vf import p_system
print(json.dumps(p_system.first_parse(case)))
'''


def first_parse(case):
    """in a process of its own, in which nothing was parsed yet"""
    def job(text, times=1):
        res = []
        for _ in range(times):
            line = Line(text)
            res.append([[type(g).__name__ for g in line.gcodes], str(line)])
        bad = [r for r in res if r != res[0]]
        if bad:
            raise Violation('%r was read as %r and as %r' % (text, res[0], bad[0]))
        return res[0]
    (got, s) = together([lambda t=t: job(t, case['times']) for t in case['texts']], case['seed'], case['p'], 20000, case['naps'])
    after = [job(t) for t in case['texts']]
    return {'got': got, 'after': after, 'switches': s.switches, 'napped': s.napped, 'places': max([len(v) for v in s.places.values()] or [0])}


def do_c32_first(case, st):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run([sys.executable, '-c', FIRST, core.HERE], input=json.dumps(case).encode(), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, env=env, timeout=300)
    if p.returncode:
        raise RuntimeError('first parse process: %s' % p.stderr.decode()[-500:])
    d = json.loads(p.stdout.decode())
    for (t, (kind, res), after) in zip(case['texts'], d['got'], d['after']):
        expect(kind == 'ok', 'first parse of %r in one of %d threads: %s', t, len(case['texts']), res)
        want = [ref.info(c.word).cls for c in ref.parse(t)[1]]
        same(res[0], want, 'first parse of %r in one of %d threads' % (t, len(case['texts'])))
        same(after[0], want, 'a later parse of %r' % t)
        same(res[1], after[1], 'text of %r' % t)
    st.obs('first parses', len(case['texts']))
    st.obs('thread switches inside the library', len(d['switches']))
    st.obs('threads held up', d['napped'])
    st.seen(d['switches'])


def gen_c32_class(rng, i):
    words = [(l, v if l != 'L' else '2') for (l, v) in gen.block_words(rng, k=2)]
    return {'mode': rng.choice(prog.MODES), 'axes': rng.choice(prog.AXES_SETS), 'threads': rng.choice([2, 3, 4, 6]), 'text': gen.layout(rng, words),
            'seed': rng.randint(0, 10 ** 9), 'p': rng.choice([.005, .02, .1, .3]), 'naps': some_naps(rng)}


def do_c32_class(case, st):
    """the first machines of a class, made at the same time"""
    def fresh():
        return type('SharedMachine', (Machine,), {
            'axes': set(case['axes']), 'MODE_CLASS': type('SharedMode', (pygcode.Mode,), {'default_mode': case['mode']})})

    def job(cls):
        m = cls()
        first = str(m.mode)
        err = mach.real_run(m, case['text'], 1)
        return [first, str(m.mode), type(err).__name__, sorted(m.pos.values.items()), sorted(copy.copy(m).mode.modal_groups) != []]
    (want, lines) = alone(lambda: job(fresh()))
    cls = fresh()
    (got, s) = together([lambda: job(cls)] * case['threads'], case['seed'], case['p'], lines * case['threads'], case['naps'])
    for (k, (kind, res)) in enumerate(got):
        expect(kind == 'ok', 'thread %d of %d making a machine with mode %r ended with %s', k, len(got), case['mode'], res)
        same(res, want, 'machine with mode %r of thread %d of %d' % (case['mode'], k, len(got)))
    same(job(cls), want, 'a later machine with mode %r' % case['mode'])
    st.obs('machines', len(got))
    st.obs('thread switches inside the library', len(s.switches))
    st.seen([s.switches])


def C32():
    return dict(
        sections=[Section('shared classes', do_c32_class, gen_c32_class, quick=160, thorough=10000, chunk=5, cpu=600),
                  Section('programs', do_c32, gen_c32, quick=160, thorough=6000, chunk=5, cpu=600),
                  Section('first parse', do_c32_first, gen_c32_first, quick=320, thorough=1500, chunk=3, cpu=600)],
        anchors=ALL,
        rule='2 to 6 threads parse, execute, linearise and expand at the same time (first parse of a process included) while a scheduler '
             'in the library (a callback on every line, releasing the interpreter lock at random) provokes and records the switches; '
             'each result is compared with the one obtained alone. Distinct switch sequences are counted.',
        deciding=[('programs', 'interleaved runs'), ('first parse', 'first parses'), ('shared classes', 'machines')])


# ----------------------------------------------------------------------- C33
class Work(object):
    """counts the steps (lines, loop iterations, calls) executed inside it, in the library and what it calls"""
    TOOL = 5
    count = 0

    def __enter__(self):
        mon = sys.monitoring
        aside = (os.path.dirname(os.path.abspath(__file__)) + os.sep, os.path.dirname(re.__file__) + os.sep, '<frozen')
        self.count = 0
        self.events = [mon.events.LINE, mon.events.JUMP, mon.events.PY_RESUME, mon.events.PY_START]

        def step(code, *_a):
            if code.co_filename.startswith(aside):      # (what the library calls counts, too: vectors, copying ...)
                return mon.DISABLE
            self.count += 1
        mon.use_tool_id(self.TOOL, 'verif-work')
        for e in self.events:
            mon.register_callback(self.TOOL, e, step)
        mon.set_events(self.TOOL, sum(self.events))
        return self

    def __exit__(self, *exc):
        mon = sys.monitoring
        mon.set_events(self.TOOL, 0)
        for e in self.events:
            mon.register_callback(self.TOOL, e, None)
        mon.free_tool_id(self.TOOL)
        return False


def work(fn):
    with Work() as w:
        res = fn()
    return w.count, res


def reachable(obj):
    """number of objects held by a machine (classes, functions and modules aside)"""
    seen, todo, n = set(), [obj], 0
    skip = (type, type(reachable), type(sys), type(len), type(Line.__init__))
    while todo:
        x = todo.pop()
        if id(x) in seen or isinstance(x, skip):
            continue
        seen.add(id(x))
        n += 1
        todo.extend(gc.get_referents(x))
    return n


def gen_c33_machine(rng, i):
    (axes, mode) = prog.setup(rng)
    lines = [op for op in prog.program(rng, axes, mode, n=rng.choice([10, 25]), weights={'canned': 1.5, 'any': 3, 'bad': .3, 'select': .5})]
    return {'axes': axes, 'mode': mode, 'lines': [t for t in lines if isinstance(t, str)], 'times': rng.choice([30, 60])}


def do_c33_machine(case, st):
    """the same loop again and again on one machine"""
    (m, _r) = mach.make(case['axes'], case['mode'])

    def loop():
        for t in case['lines']:
            mach.real_run(m, t, 1)
    loop()
    sizes, costs = [], []
    for k in range(case['times']):
        (cost, _x) = work(loop)
        costs.append(cost)
        if k in (1, case['times'] - 1):
            sizes.append(reachable(m))
    limit = 1.2 * max(costs[:3]) + 200
    expect(costs[-1] <= limit, 'the loop %r takes %d steps the third time and %d the %dth time', case['lines'], max(costs[:3]), costs[-1],
           case['times'])
    expect(sizes[1] <= sizes[0] + 60, 'a machine holds %d objects after 3 and %d after %d runs of %r', sizes[0], sizes[1], case['times'],
           case['lines'])
    st.obs('loops', case['times'])
    st.obs('steps', sum(costs))
    st.seen(case)


def linear(small, large, factor, what, slack=400):
    expect(large <= 1.3 * factor * small + slack, '%s: %d steps for a %d-fold size of what takes %d', what, large, factor, small)


def gen_c33_size(rng, i):
    return {'what': rng.choice(['arc', 'cycle', 'pecks', 'omit', 'split', 'comment', 'position', 'line']), 'seed': rng.randint(0, 10 ** 9)}


def do_c33_size(case, st):
    """work grows in proportion to the output"""
    rng = random.Random(case['seed'])
    k = case['what']
    if k == 'arc':
        g = pygcode.GCodeArcMoveCW(X=100.0, Y=rng.uniform(0, 50), R=rng.uniform(90, 200))
        start = Position(axes=set('XYZ'))
        kw = dict(method_class=p_geom.METHODS[rng.choice(['inside', 'outside', 'mid'])])
        if rng.random() < .5:
            kw['dist_mode'] = pygcode.GCodeIncrementalDistanceMode()
        e = rng.choice([.1, .5])
        (a, n1) = work(lambda: sum(1 for _ in linearize_arc(g, start, max_error=e, **kw)))
        (b, n2) = work(lambda: sum(1 for _ in linearize_arc(g, start, max_error=e / 900., **kw)))
        expect(n2 > n1, '%s: %d segments at precision %g, %d at %g', g, n1, e, n2, e / 900)
        linear(a, b, n2 / float(n1), 'linearising %s to %d and %d segments' % (g, n1, n2))
    elif k in ('cycle', 'pecks'):
        cls = getattr(pygcode, ref.TABLE[('G', rng.choice([81., 82., 83., 73., 85., 89.]) if k == 'cycle' else rng.choice([83., 73.]))].cls)
        kw = {'dist_mode': pygcode.GCodeIncrementalDistanceMode()} if rng.random() < .5 else {}
        q = {'Q': 5.0} if 'Q' in cls.param_letters else {}
        if k == 'cycle':
            (g1, g2, f) = (cls(X=1.0, Y=2.0, Z=-3.0, R=2.0, L=10, **q), cls(X=1.0, Y=2.0, Z=-3.0, R=2.0, L=200, **q), 20)
        else:
            (g1, g2, f) = (cls(X=1.0, Y=2.0, Z=-30.0, R=2.0, Q=3.0), cls(X=1.0, Y=2.0, Z=-30.0, R=2.0, Q=.15), 20)
        start = Position(axes=set('XYZ'), Z=5.0)
        (a, n1) = work(lambda: sum(1 for _ in simplify_canned_cycle(g1, start, **kw)))
        (b, n2) = work(lambda: sum(1 for _ in simplify_canned_cycle(g2, start, **kw)))
        linear(a, b, f, 'expanding %s and %s (%d and %d codes)' % (g1, g2, n1, n2))
    elif k in ('omit', 'split'):
        gs = [rng.choice([pygcode.GCodeRapidMove, pygcode.GCodeLinearMove])(X=float(j)) for j in range(1000)]
        fn = (lambda part: list(omit_redundant_modes(part))) if k == 'omit' else (lambda part: pygcode.split_gcodes(part, pygcode.GCodeStopSpindle,
                                                                                                         sort_list=rng.random() < 0))
        (a, _x) = work(lambda: fn(gs[:50]))
        (b, _x) = work(lambda: fn(gs))
        linear(a, b, 20, '%s of 50 and 1000 codes' % k)
    elif k == 'comment':
        c = ''.join(rng.choice('abc ;.G1X-0') for _ in range(100)).strip() or 'x'
        o = rng.choice(['G1 X1 (%s)', 'G1 X1 ;%s', '(%s) G1'])
        (a, _x) = work(lambda: Line(o % c))
        (b, _x) = work(lambda: Line(o % (c * 50)))
        linear(a, b, 50, 'comment of %d and %d characters' % (len(c), 50 * len(c)))
    elif k == 'position':
        m = Machine()
        m.process_str('G1 X1')
        (a, _x) = work(lambda: [m.move_to(X=float(j)) for j in range(20)])
        (b, _x) = work(lambda: [m.move_to(X=float(j)) for j in range(400)])
        linear(a, b, 20, '20 and 400 moves')
    else:
        words = ['G1', 'F100', 'S200', 'M3', 'M8', 'G90', 'G17', 'G54', 'T3', 'G40', 'G49', 'G94', 'G97', 'G61', 'G98', 'N10']
        rng.shuffle(words)
        (a, _x) = work(lambda: Line(' '.join(words[:4])))
        (b, _x) = work(lambda: Line(' '.join(words)))
        linear(a, b, 16, 'blocks of 4 and 16 codes')          # (up to quadratic: every code is compared with each other)
    st.obs(k)
    st.obs('steps', a + b)
    st.seen(case)


def gen_c33_memory(rng, i):
    return {'seed': rng.randint(0, 10 ** 9), 'lines': 500, 'phases': 7}


def do_c33_memory(case, st):
    """nothing is held once it is dropped (whole process; lines, machines and generators of many phases)"""
    rng = random.Random(case['seed'])

    def phase():
        (axes, mode) = ('XYZABC', prog.MODES[0])
        (m, _r) = mach.make(axes, mode)
        for k in range(case['lines']):
            t = 'N%d G%d X%.3f Y%.3f Z%.3f F%.1f (note %d)' % (rng.randint(0, 10 ** 6), k % 2, rng.uniform(-999, 999), rng.uniform(-999, 999),
                                                              rng.uniform(-999, 999), rng.uniform(1, 999), rng.randint(0, 10 ** 9))
            line = Line(t)
            m.process_block(line.block)
            (str(line), m.pos, repr(m.mode), copy.copy(m) if k % 20 == 0 else None)
            if k % 50 == 0:
                g = pygcode.GCodeArcMoveCW(X=m.pos.X + rng.uniform(1, 9), R=rng.uniform(10, 99))
                list(linearize_arc(g, m.pos, max_error=.01))
                list(simplify_canned_cycle(pygcode.GCodeDrillingCycle(X=rng.uniform(0, 9), Y=rng.uniform(0, 9), Z=-rng.uniform(1, 9), R=1.0, L=3),
                                           Position(axes=set('XYZ'), Z=5.0)))
                it = linearize_arc(g, m.pos, max_error=.01)       # a generator dropped half way
                next(it)
                try:
                    Line(t + ' G0')
                except AssertionError:
                    pass
                try:
                    m.process_str('G12 Q%d' % rng.randint(0, 10 ** 6))
                except MachineInvalidState:
                    pass
    levels = []
    for k in range(case['phases']):
        phase()
        gc.collect()
        levels.append((sys.getallocatedblocks(), len(gc.get_objects())))
    growth = [levels[k + 1][0] - levels[k][0] for k in range(3, case['phases'] - 1)]
    expect(min(growth) < case['lines'] * .5, 'each %d lines processed and dropped leave %s blocks of memory behind', case['lines'], growth)
    st.obs('lines', case['lines'] * case['phases'])
    st.obs('phases', case['phases'])
    st.seen(case)


KEPT = ['arcs', 'cycles', 'omission', 'splitting', 'positions', 'copies', 'words', 'refused lines', 'codes', 'rotations', 'lines', 'queries',
        'machines', 'refused codes']


def cases_c33_kept(tier):
    base = int(os.environ.get('VERIF_SEED', '1') or 1)
    return [{'what': k, 'seed': base * 1000 + s, 'n': 400, 'phases': 6} for s in range(1 if tier == 'quick' else 20) for k in KEPT]


def activity(what, rng):
    """(a function that) does one thing of a kind with new numbers and drops everything"""
    u = lambda a=1.0, b=99.0: rng.uniform(a, b)
    XYZ = set('XYZ')
    inc = pygcode.GCodeIncrementalDistanceMode()
    m = Machine()
    m.process_str('G1 X1')

    def refusing(fn):
        try:
            fn()
        except (GCodeWordStrError, GCodeParameterError, MachineInvalidState, AssertionError, MachineInvalidAxis, NotImplementedError, AttributeError):
            return
        raise Violation('not refused')

    def arcs():
        k = rng.random()
        g = (pygcode.GCodeArcMoveCW if k < .5 else pygcode.GCodeArcMoveCCW)(X=u(), R=u(100, 300))
        kw = dict(method_class=p_geom.METHODS[rng.choice(['inside', 'outside', 'mid'])], max_error=u(.01, .5),
                  plane=rng.choice([pygcode.GCodeSelectXYPlane, pygcode.GCodeSelectZXPlane])())
        if rng.random() < .5:
            kw['dist_mode'] = inc
        it = linearize_arc(g, Position(axes=XYZ, Z=u()), **kw)
        if rng.random() < .5:
            next(it)
        else:
            list(it)

    def cycles():
        cls = getattr(pygcode, ref.TABLE[('G', rng.choice([81., 82., 83., 73., 85., 89.]))].cls)
        q = {'Q': u(2, 5)} if 'Q' in cls.param_letters else {}
        kw = {'dist_mode': inc} if rng.random() < .5 else {}
        it = simplify_canned_cycle(cls(X=u(), Y=u(), Z=-u(1, 9), R=u(1, 3), L=rng.randint(1, 3), **q), Position(axes=XYZ, Z=u(1, 9)), **kw)
        if rng.random() < .5:
            next(it)
        else:
            list(it)

    def omission():
        gs = [rng.choice([pygcode.GCodeRapidMove, pygcode.GCodeLinearMove])(X=u()) for _ in range(5)] + [pygcode.GCodeFeedRate(Word('F', u()))]
        it = omit_redundant_modes(gs)
        if rng.random() < .5:
            next(it)
        else:
            [str(g) for g in it]

    def splitting():
        gs = [pygcode.GCodeLinearMove(X=u()), pygcode.GCodeStopSpindle(), pygcode.GCodeFeedRate(Word('F', u()))]
        pygcode.split_gcodes(gs, pygcode.GCodeStopSpindle, sort_list=rng.random() < .5)

    def positions():
        (a, b) = (Position(axes=XYZ, X=u(), Y=u()), Position(axes=XYZ, X=u(), Z=u()))
        (a + b, a - b, a * u(), a / u(), a == b, Position.min(a, b), Position.max(a, b), copy.copy(a), copy.deepcopy(b), a.words, a.vector, repr(b))
        a.unit = 0
        (a == b, a.values)

    def copies():
        m.process_str('X%.3f F%.3f' % (u(), u()))
        (copy.copy(m), copy.copy(m.mode), copy.copy(m.state), copy.copy(m.pos), copy.deepcopy(m.mode.motion), copy.copy(m.state.coord_sys))

    def words():
        t = 'X%.3f' % u()
        (w, v) = (Word(t), str2word('Y%.3f' % u()))
        (w == t, w < v, hash(w), str(w), repr(v), words2dict([w, v]), {w: v}, copy.deepcopy(w), list(text2words('Z%.3f A%.3f' % (u(), u()))), w.description)
        w.value = u()

    def refused_lines():
        n = u()
        for t in ('G1 G0 X%.3f', 'X%.3f #', 'G1 X%.3f X3', 'G1 X%.3f Y', 'G81 X%.3f Q5 Q6 G83'):
            refusing(lambda: Line(t % n))

    def codes():
        g = pygcode.GCodeArcMoveCW(X=u(), I=u())
        g.Y = u()
        g.X = u()
        (str(g), repr(g), g == copy.deepcopy(g), g.modal_copy(), g.get_param_dict(), g.K, g < pygcode.GCodeDwell(P=u()), g.description)
        pygcode.words2gcodes([Word('G', 1), Word('X', u()), Word('F', u())])
        pygcode.text2gcodes('G1 X%.3f' % u())

    def rotations():
        (a, b) = (Vector3(u(), u(), u()), Vector3(u(), u(), u()))
        (quat2align(a, b), plane_projection(a, b), quat2coord_system(a, a.cross(b), b, b.cross(a)))

    def lines():
        l = Line('N%d G1 X%.3f (note %.6f) %%m%.6f' % (rng.randint(0, 10 ** 8), u(), u(), u()))
        (str(l), l.text, l.block.text, l.comment and l.comment.text, l.macro, l.block.X, l.block.Q, len(l.block), bool(l.block), repr(l.comment))
        Block('G1 X%.3f ' % u(), verify=False)

    def queries():
        b = Line('X%.3f F%.3f' % (u(), u())).block
        (m.block_modal_gcodes(b), m.modal_gcode(b.modal_params), m.abs2work(Position(axes=XYZ, X=u())), m.work2abs(Position(axes=XYZ, X=u())),
         repr(m.mode), m.mode.gcodes, repr(m.state), m.pos.X)
        m.clean_block(b)

    def machines():
        o = Machine()
        o.process_str('G1 X%.3f F%.3f' % (u(), u()))
        o.process_str('G55')
        o.state.coord_systems[2].offset.X = u()
        o.move_to(X=u(), rapid=True)
        pygcode.NullMachine().process_str('G1 X%.3f' % u())

    def refused_codes():
        refusing(lambda: pygcode.GCodeLinearMove(X=u(), K=u()))
        refusing(lambda: m.process_str('G12 Q%.3f' % u()))
        refusing(lambda: m.process_str('G1 X%.3f Q%.3f' % (u(), u())))
        refusing(lambda: list(linearize_arc(pygcode.GCodeArcMoveCW(X=u(50), R=u(1, 2)), Position(axes=XYZ))))
        refusing(lambda: list(simplify_canned_cycle(pygcode.GCodeDrillingCyclePeck(X=u(), Z=-u(), R=u()), Position(axes=XYZ))))
        refusing(lambda: Position(axes='XY') - Position(axes='XYZ', X=u()))
        refusing(lambda: Position(axes='XY').Z)
        refusing(lambda: pygcode.GCodeLinearMove(X=u()).Q)

    return locals()[what.replace(' ', '_')]


def do_c33_kept(case, st):
    """one activity again and again: nothing is kept of each time"""
    fn = activity(case['what'], random.Random(case['seed']))
    levels = []
    for k in range(case['phases']):
        for _ in range(case['n']):
            fn()
        gc.collect()
        levels.append((sys.getallocatedblocks(), len(gc.get_objects())))
    growth = [levels[k + 1][0] - levels[k][0] for k in range(2, case['phases'] - 1)]
    expect(min(growth) < case['n'] * .5, '%s: each %d times leave %s blocks of memory behind', case['what'], case['n'], growth)
    st.obs(case['what'])
    st.obs('times', case['n'] * case['phases'])
    st.seen(case)


def C33():
    return dict(
        sections=[Section('loops', do_c33_machine, gen_c33_machine, quick=64, thorough=3000),
                  Section('sizes', do_c33_size, gen_c33_size, quick=300, thorough=10000),
                  Section('kept', do_c33_kept, cases=cases_c33_kept, isolate=True, chunk=1),
                  Section('memory', do_c33_memory, gen_c33_memory, quick=8, thorough=60, isolate=True, chunk=1)],
        anchors=ALL,
        rule='A counter of executed library lines (deterministic, no clock) compares the work of early and late repetitions of a program on '
             'one machine, and of small and large inputs; the objects held by the machine and the memory blocks held by the process are '
             'counted over phases of distinct lines. Distinct cases are counted.',
        deciding=[('loops', 'steps'), ('memory', 'phases')] + [('kept', k) for k in KEPT] + [('sizes', k) for k in ('arc', 'cycle', 'pecks', 'omit', 'split', 'line')])


# ----------------------------------------------------------------------- C34
TOPIC = dict(A='A axis', B='B axis', C='C axis', D='cutter compensation', E='threading', F='eed', G='reparatory', H='tool length', I='X axis',
             J='Y axis', K='Z axis', L='oop count', M='iscellaneous', N='umber', O='rogram name', P='arameter', Q='eck', R='adius', S='peed',
             T='ool', U='X axis', V='Y axis', W='Z axis', X='X axis', Y='Y axis', Z='Z axis')


def gen_c34(rng, i):
    from .p_text import gen_c03
    blanks = rng.random() < .3
    c = gen_c03(rng, i, within=not blanks)
    parts = c['parts']
    if blanks:                 # further blanks anywhere between words
        parts = [(k, t if k != 'code' else rng.choice(['', ' ', '\t']) + t.rstrip() + rng.choice([' ', '   ', '\t ', ' \t'])) for (k, t) in parts]
    return {'parts': parts, 'eol': c['eol'], 'limit': ''.join(l for l in ref.LETTERS if rng.random() < .5),
            'other': rng.choice(['GG', 'x', 'XY', 'foo', 'g', '_', 'words_', 'X1'])}


def do_c34(case, st):
    text, code = '', ''
    for (k, t) in case['parts']:
        text += {'b': '(%s)', 's': '; %s'}.get(k, '%s') % t
        code += t if k == 'code' else ''
    text += case['eol']
    want = ref.tokenize(code)
    line = Line(text)
    for attempt in range(2):
        same(line.text, text, 'text of the line')
        expect(line.gcodes is line.block.gcodes, 'codes of line %r are not those of its block', text)
        b = line.block
        views = [b]
        if code.strip() and not any(k == 'm' for (k, _t) in case['parts']):
            views.append(Block(code))
        for b in views:
            what = 'block of %r' % text
            same([(w.letter, w.value) for w in b.words], want, 'words of the %s' % what)
            same(bool(b), bool(want), 'truth of the %s' % what)
            same(len(b), len(b.gcodes) + bool(b.modal_params), 'length of the %s' % what)
            t = b.text
            if want and not any(l == 'O' for (l, _v) in want):
                same(ref.tokenize(t), want, 'words in the text %r of the %s' % (t, what))
                same(t, ' '.join(code.split()), 'text of the %s' % what)
            for l in ref.LETTERS:
                first = [w for w in b.words if w.letter == l][:1]
                got = getattr(b, l)
                expect((got is first[0]) if first else (got is None), '%s: attribute %s is %r, expected %r', what, l, got, first)
            try:
                getattr(b, case['other'])
            except AttributeError:
                pass
            else:
                raise Violation('%s has an attribute %r' % (what, case['other']))
            for (limit, letters) in ((None, ref.LETTERS), (case['limit'], case['limit']), (list(case['limit']), case['limit']), ('', '')):
                d = words2dict(b.words, limit) if limit is not None else words2dict(b.words)
                same(sorted(d), sorted(set(l for (l, _v) in want if l in letters)), 'letters of words2dict(%r, %r)' % (b.words, limit))
                for (l, v) in d.items():
                    expect((l, v) in want, 'words2dict(%r): %s is %r', b.words, l, v)
        for w in line.block.words:
            d = w.description
            expect(d.startswith(w.letter + ': ') and TOPIC[w.letter] in d, 'description of %r: %r', w, d)
        for g in line.gcodes:
            same(g.description, type(g).__doc__, 'description of %r' % g)
            expect(type(g).__name__ in repr(g) and str(g.word) in repr(g), 'repr of %s is %r', g, repr(g))
    if len(want) == 1:
        w = str2word(code)
        same((w.letter, w.value), want[0], 'str2word(%r)' % code)
        st.obs('single words')
    elif not want:
        expect(str2word(code) is None, 'str2word(%r) is %r', code, str2word(code))
    else:
        try:
            w = str2word(code)
        except GCodeWordStrError:
            st.obs('several words refused')
        else:
            raise Violation('str2word(%r) is %r' % (code, w))
    st.obs('lines')
    st.seen(text)


def cases_c34_pairs(tier):
    value = dict((l, '2.5') for l in ref.LETTERS)
    value.update(L='3', N='10', T='07', G='1', M='8', O='name')
    return [{'pair': [a + value[a], b + value[b]], 'sep': sep} for a in ref.LETTERS if a != 'O' for b in ref.LETTERS for sep in ('', ' ')]


def do_c34_pairs(case, st):
    """one word, and two"""
    for t in case['pair']:
        w = str2word(t)
        same([(w.letter, w.value)], ref.tokenize(t), 'str2word(%r)' % t)
        expect(Word(t[0], w.value) == t and not (Word(t[0], w.value) != t), '%r differs from its text', w)
    t = case['sep'].join(case['pair'])
    try:
        w = str2word(t)
    except GCodeWordStrError:
        st.obs('refused')
    else:
        raise Violation('str2word(%r) is %r' % (t, w))
    st.seen(t)


def gen_c34_built(rng, i):
    from .p_text import pval
    codes = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        w = rng.choice(list(ref.TABLE))
        ps = [l for l in sorted(ref.TABLE[w].params) if rng.random() < .5]
        codes.append([list(w), [[l, pval(rng, l)] for l in ps], [[l, pval(rng, l)] for l in ps if rng.random() < .5]])
    return {'codes': codes, 'comment': rng.choice([None, 'a note', 'G1 X1; %d']), 'semi': rng.random() < .5,
            'macro': rng.choice([None, None, '%m', '%']), 'modal': [['X', 1.5], ['Y', -2.0]][:rng.choice([0, 0, 1, 2])], 'seed': rng.random()}


def do_c34_built(case, st):
    """lines put together from parts, and edited, show their content"""
    from pygcode.comment import CommentBrackets, CommentSemicolon
    line = Line()
    same((line.block, line.comment, line.macro), (None, None, None), 'parts of a new line')
    same((str(line), line.text), ('', ''), 'text of a new line')
    b = Block()
    same((b.words, b.gcodes, b.modal_params, str(b), b.text, len(b), bool(b)), ([], [], [], '', '', 0, False), 'parts of a new block')
    for (w, ps, _e) in case['codes']:
        g = getattr(pygcode, ref.TABLE[tuple(w)].cls)(Word(*w), *[Word(l, v) for (l, v) in ps])
        b.gcodes.append(g)
        b.words.extend([g.word] + [g.params[l] for (l, _v) in ps])
    b.modal_params = [Word(l, v) for (l, v) in case['modal']]
    b.words.extend(b.modal_params)
    line.block = b
    text = case['comment']
    if text is not None:
        line.comment = (CommentSemicolon if case['semi'] else CommentBrackets)(text)
    line.macro = case['macro']

    def shown(values):
        parts, flat = [], []
        for ((w, ps, _e), vs) in zip(case['codes'], values):
            flat.append([tuple(w), sorted(vs.items())])
        flat_modal = [tuple(x) for x in case['modal']]
        out = str(line)
        same(line.text, out, 'text of the built line')
        rest = out
        if case['macro']:
            expect(rest.endswith(case['macro']), 'macro missing in %r', out)
            rest = rest[:-len(case['macro'])].rstrip(' ')
        if text is not None:
            tail = ('; %s' if case['semi'] else '(%s)') % text
            expect(rest.endswith(tail), 'comment %r missing in %r', text, out)
            rest = rest[:-len(tail)].rstrip(' ')
        same(rest, str(b), 'code in %r' % out)
        same(b.text, rest, 'text of the block')
        got = ref.tokenize(rest)
        k = 0
        for ((w, vs), g) in zip(flat, b.gcodes):
            n = 1 + len(vs)
            same(got[k][0], w[0], 'word %d of %r' % (k, rest))
            expect(abs(got[k][1] - w[1]) < 1e-6, 'word %d of %r is %r, expected %r', k, rest, got[k], w)
            here = sorted(got[k + 1:k + n])
            same([l for (l, _v) in here], [l for (l, _v) in vs], 'letters of %s in %r' % (w, rest))
            for ((l, v), (_l, want)) in zip(here, vs):
                expect(v == want or abs(v - want) <= .0005 + 1e-9, '%s of %s in %r is %r, expected %r', l, w, rest, v, want)
            k += n
        same([(l, round(v, 3)) for (l, v) in got[k:]], flat_modal, 'unassigned words in %r' % rest)
        same(len(b), len(flat) + bool(flat_modal), 'length of %r' % rest)
        same(bool(b), bool(flat or flat_modal), 'truth of %r' % rest)
    values = [dict((l, v) for (l, v) in ps) for (_w, ps, _e) in case['codes']]
    shown(values)
    for (k, (_w, ps, edits)) in enumerate(case['codes']):
        for (l, v) in edits:
            setattr(b.gcodes[k], l, v)
            values[k][l] = v
            st.obs('edits')
    shown(values)
    for (w, vs) in zip(b.words, [x for (c, d) in zip(case['codes'], values) for x in [None] + [d[l] for (l, _v) in c[1]]]):
        if vs is not None:
            same(w.value, vs, 'word %r of the block after editing its code' % w)
    rng = random.Random(case['seed'])

    def attributes():
        for l in ref.LETTERS:
            first = [w for w in b.words if w.letter == l][:1]
            got = getattr(b, l)
            expect((got is first[0]) if first else (got is None), 'words %s: attribute %s is %r, expected %r', b.words, l, got, first)
        same(bool(b), bool(b.words), 'truth of a block of words %s' % b.words)
    attributes()
    for _ in range(3):                    # the block has other words from now on
        k = rng.choice(['append', 'insert', 'remove', 'replace', 'letter'])
        w = Word(rng.choice('XYZFSPIJ'), float(rng.randrange(9)))
        if k == 'append':
            b.words.append(w)
        elif k == 'insert':
            b.words.insert(0, w)
        elif k == 'remove' and b.words:
            b.words.pop(rng.randrange(len(b.words)))
        elif k == 'replace':
            b.words = [w] + b.words[1:]
        elif k == 'letter' and b.words:
            b.words[rng.randrange(len(b.words))] = w
        attributes()
        st.obs('words edited')
    st.obs('built lines')
    st.seen([case['codes'], case['modal'], text, case['macro']])


def C34():
    return dict(
        sections=[Section('lines', do_c34, gen_c34, quick=16000, thorough=500000),
                  Section('pairs', do_c34_pairs, cases=cases_c34_pairs),
                  Section('built', do_c34_built, gen_c34_built, quick=8000, thorough=200000)],
        anchors=[SRC + f for f in ('line.py', 'block.py', 'words.py', 'gcodes.py')],
        rule='Lines of code, comments and macros in any layout: every view of the line, its block and its words (texts, attributes, '
             'truth, length, dictionaries, descriptions) is compared with an independent tokenizer, twice. Lines put together from parts '
             'and edited show their content. Distinct texts are counted.',
        deciding=[('lines', 'lines'), ('lines', 'single words'), ('lines', 'several words refused'), ('built', 'edits'), ('built', 'words edited')])


# ----------------------------------------------------------------------- C35
QUERIES = ['pos', 'repr', 'mode', 'modestr', 'gcodes', 'work', 'abs', 'modal', 'effective', 'copy', 'deepcopy', 'range', 'coord', 'groups',
           'sorted', 'linearize', 'canned', 'omit', 'blockstr', 'eq', 'edit pos', 'edit codes']


def gen_c35(rng, i):
    (axes, mode) = prog.setup(rng)
    ops = prog.program(rng, axes, mode, n=rng.choice([4, 10, 20]), weights={'any': 4, 'bad': 1, 'canned': 2, 'cs': .5, 'bare': 3})
    return {'axes': axes, 'mode': mode, 'lines': ops, 'q': [[rng.choice(QUERIES) for _ in range(rng.choice([0, 1, 3, 6]))] for _ in ops]}


def ask(m, block, q, axes):
    """one query"""
    if q == 'pos':
        for p in (m.pos, m.abs_pos):
            (p.values, p.vector, [str(w) for w in p.words], p.X if 'X' in axes else None, p.unit)
    elif q == 'repr':
        (repr(m.pos), repr(m.mode), repr(m.state), repr(m.state.coord_sys), [repr(g) for g in block.gcodes], repr(block.words))
    elif q == 'mode':
        for name in ref.GROUPS:
            getattr(m.mode, name)
    elif q == 'modestr':
        str(m.mode)
    elif q == 'gcodes':
        m.mode.gcodes
    elif q == 'work':
        m.work2abs(m.pos)
        m.work2abs(Position(axes=set(axes)))
    elif q == 'abs':
        m.abs2work(m.abs_pos)
    elif q == 'modal':
        m.modal_gcode(block.modal_params, block.gcodes)
    elif q == 'effective':
        m.block_modal_gcodes(block)
    elif q == 'copy':
        copy.copy(m), copy.copy(m.mode), copy.copy(m.state), copy.copy(m.pos)
    elif q == 'deepcopy':
        copy.deepcopy(block)
    elif q == 'range':
        (m.abs_range_min.values, m.abs_range_max.values)
    elif q == 'coord':
        (m.state.coord_sys.offset.values, m.state.coord_systems[3].offset.values, m.state.offset.values)
    elif q == 'groups':
        [g.modal_copy() for g in m.mode.gcodes]
        [g.get_param_dict() for g in m.mode.gcodes + block.gcodes]
    elif q == 'sorted':
        sorted(block.gcodes)
        sorted(m.mode.gcodes)
    elif q in ('linearize', 'canned') and (set('XYZ') - set(axes) or (m.mode.plane_selection and m.mode.plane_selection.word.value not in (17, 18, 19))):
        pass
    elif q == 'linearize':
        for g in m.block_modal_gcodes(block):
            if isinstance(g, pygcode.GCodeArcMove):
                list(itertools.islice(linearize_arc(g, m.pos, m.mode.plane_selection, max_error=1.0), 500))
    elif q == 'canned':
        for g in m.block_modal_gcodes(block):
            if isinstance(g, pygcode.GCodeCannedCycle):
                list(itertools.islice(simplify_canned_cycle(g, m.pos, m.mode.plane_selection, m.mode.distance, m.mode.canned_cycles_return,
                                                            axes=m.axes), 500))    # (pecks may be tiny)
    elif q == 'omit':
        [str(g) for g in omit_redundant_modes(m.block_modal_gcodes(block))]
    elif q == 'blockstr':
        (str(block), block.text, len(block), bool(block), block.X, [w.description for w in block.words])
    elif q == 'eq':
        (m.pos == m.pos, m.pos != m.abs_pos, [a == b for a in block.gcodes for b in m.mode.gcodes])
    elif q == 'edit pos':                  # what is handed out may be changed
        for p in (m.pos, m.abs2work(m.abs_pos), m.work2abs(m.pos)):
            p.update(**dict((a, 4321.0) for a in axes))
            p.unit = UNIT_IMPERIAL
        v = m.pos.values
        v.clear()
    elif q == 'edit codes':                # the resulting modal code is not the machine's own, and the list not the block's
        mg = m.modal_gcode(block.modal_params, block.gcodes)
        if mg is not None:
            for l in list(mg.params):
                setattr(mg, l, 77)
        lst = m.block_modal_gcodes(block)
        lst.reverse()
        del lst[:]
        (got, other) = (m.mode.gcodes, m.mode.gcodes)
        kept = list(other)
        got.append(None)
        expect(len(other) == len(kept) and len(m.mode.gcodes) == len(kept), 'editing the list of modal codes changes another one')
        del got[:]
        expect(all(x is y for (x, y) in zip(other, kept)) and len(other) == len(kept), 'emptying the list of modal codes changes another one')


class Executed(object):
    """logs the codes executed by machines"""
    def __enter__(self):
        self.orig = GCode._process_mode
        self.log = []

        def logged(g, machine, orig=self.orig):
            self.log.append((id(machine), [g.word.letter, g.word.value, sorted((w.letter, w.value) for w in g.params.values())]))
            return orig(g, machine)
        GCode._process_mode = logged
        return self

    def __exit__(self, *exc):
        GCode._process_mode = self.orig
        return False


def do_c35(case, st):
    (a, _r) = mach.make(case['axes'], case['mode'])       # is asked
    (b, _r) = mach.make(case['axes'], case['mode'])       # is not
    ref_m = _r
    for (k, (op, qs)) in enumerate(zip(case['lines'], case['q'])):
        what = 'line %d %r' % (k + 1, op)
        if isinstance(op, list):
            for m in (a, b):
                mach.set_cs(m, ref_m, op[1], op[2])
            continue
        try:
            block = Line(op).block
        except (GCodeParameterError, AssertionError):
            st.obs('lines refused')
            continue
        before = (mach.view(a), digest_block(block))
        for q in qs:
            for attempt in range(2):
                try:
                    ask(a, block, q, case['axes'])
                except (MachineInvalidState, GCodeParameterError, AssertionError, NotImplementedError):
                    st.obs('queries refused')
                same(digest_block(block), before[1], '%s: the block after %s' % (what, q))
                mach.check_view(a, before[0], '%s: asking for %s' % (what, q))
                st.obs('queries')
        plan, err = None, None
        try:
            plan = [[g.word.letter, g.word.value, sorted((w.letter, w.value) for w in g.params.values())] for g in a.block_modal_gcodes(block)]
        except Exception as e:
            err = e
        with Executed() as ex:
            e1 = mach.real_run(a, op, k % 4)
            e2 = mach.real_run(b, op, k % 4)
        same(type(e1), type(e2), '%s: outcome with and without queries %r before' % (what, qs))
        if e1 is None and err is None:
            if ex.log:
                same([c for (i, c) in ex.log if i == id(a)], plan, '%s: codes executed, as planned' % what)
                st.obs('plans executed')
        else:
            expect((e1 is None) == (err is None), '%s: planning gives %r, executing %r', what, err, e1)
        mach.check_view(a, mach.view(b), '%s: with and without queries %r before' % (what, qs))
        st.obs('blocks')
        st.seen([op, qs, str(a.mode)])


def digest_block(block):
    return (str(block), block.text, [(w.letter, w.value) for w in block.words], [(w.letter, w.value) for w in block.modal_params],
            [(id(g), str(g), sorted((l, w.value) for (l, w) in g.params.items())) for g in block.gcodes])


def C35():
    return dict(
        sections=[Section('programs', do_c35, gen_c35, quick=1500, thorough=60000)],
        anchors=[SRC + f for f in ('machine.py', 'gcodes.py', 'block.py', 'transform.py', 'utils.py')],
        rule='Two machines run the same program; one is asked things before every block (positions, modes, plans, copies, expansions, also '
             'with what it hands out being changed). The full state of machine and block is compared after every query, both machines after '
             'every block, and a log of executed codes with the plan. Distinct (block, queries, mode) are counted.',
        deciding=[('programs', 'queries'), ('programs', 'plans executed')])


CHECKS = dict(C31=C31, C32=C32, C33=C33, C34=C34, C35=C35)
