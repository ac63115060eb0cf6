"""Engine of the checks: seeded workloads in forked workers, monitors, replay, evidence.

A check is a list of Sections.  A section makes cases (JSON values; from a seeded
random stream or an exhaustive enumeration) and runs a monitor over each one: the
monitor drives the real code from /repo and raises Violation when the observed
behaviour is not the one the property allows.
"""
import ast
import hashlib
import json
import os
import random
import resource
import signal
import sys
import time
import zlib
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
EVIDENCE = os.path.join(HERE, 'evidence')
REPLAYS = os.path.join(EVIDENCE, 'replay')
CPU_LIMIT = 30.0          # seconds of CPU one case may take


class Violation(Exception):
    """The monitor observed behaviour the property does not allow"""


class Skip(Exception):
    """The case left the domain of the property"""


class CaseTimeout(BaseException):
    pass


def expect(cond, fmt, *args):
    if not cond:
        raise Violation(fmt % args if args else fmt)


def in_turns(case, items, other):
    """the items of a generator; in some cases another one (of other()) is advanced after each of the first ones"""
    if zlib.crc32(repr(case).encode()) % 3:
        for x in items:
            yield x
        return
    decoy = iter(other())
    next(decoy, None)
    for (k, x) in enumerate(items):
        yield x
        if k < 60 and next(decoy, None) is None:
            decoy = iter(other())
            next(decoy, None)


def same(got, want, what):
    if got != want:
        raise Violation('%s: got %r, expected %r' % (what, got, want))


def near(got, want, what, tol=1e-6):
    if not (got is not None and abs(got - want) <= tol + 1e-9 * max(abs(got), abs(want))):
        raise Violation('%s: got %r, expected %r' % (what, got, want))


class Stats(object):
    """What the monitors of one worker saw"""
    def __init__(self):
        self.counts = {}
        self.keys = set()
        self.samples = []
        self.evaluations = 0

    def obs(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def seen(self, key):
        """record a distinct, non-trivial observation"""
        if not isinstance(key, str):
            key = json.dumps(key, sort_keys=True, default=str)
        self.keys.add(hashlib.blake2b(key.encode('utf-8', 'replace'), digest_size=8).hexdigest())


class Section(object):
    def __init__(self, name, check, gen=None, cases=None, quick=100, thorough=1000,
                 isolate=False, chunk=None, shrink=None, cpu=None):
        self.name, self.check, self.gen, self.cases = name, check, gen, cases
        self.n = {'quick': quick, 'thorough': thorough}
        self.isolate = isolate
        self.chunk = chunk
        self.shrink = shrink
        self.cpu = cpu or CPU_LIMIT


# ------------------------------------------------------------ instrumentation
class LineCoverage(object):
    """Lines of the library that this run executed (sys.monitoring, first hit only)"""
    TOOL = 3

    def __init__(self):
        self.hits = set()
        self.on = hasattr(sys, 'monitoring')

    def start(self):
        if not self.on:
            return
        mon = sys.monitoring
        prefix = os.path.join(SRC, 'pygcode') + os.sep
        scripts = os.path.join(REPO, 'scripts') + os.sep

        def line(code, lineno):
            if code.co_filename.startswith(prefix) or code.co_filename.startswith(scripts):
                self.hits.add((os.path.relpath(code.co_filename, REPO), lineno))
            return mon.DISABLE
        try:
            mon.use_tool_id(self.TOOL, 'verif')
        except ValueError:
            mon.free_tool_id(self.TOOL)
            mon.use_tool_id(self.TOOL, 'verif')
        mon.register_callback(self.TOOL, mon.events.LINE, line)
        mon.set_events(self.TOOL, mon.events.LINE)


def _on_cpu_limit(_sig, _frame):
    raise CaseTimeout()


class cpu_limit(object):
    def __init__(self, seconds=CPU_LIMIT):
        self.seconds = seconds

    def __enter__(self):
        signal.signal(signal.SIGVTALRM, _on_cpu_limit)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.seconds, 1.0)

    def __exit__(self, *exc):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        return False


def run_case(section, case, stats):
    """-> None or message of the violation"""
    try:
        with cpu_limit(section.cpu):
            section.check(case, stats)
    except CaseTimeout:
        return 'did not finish within %g s of CPU time' % section.cpu
    except Violation as e:
        return str(e)
    except Skip:
        stats.obs('skipped')
    except (KeyboardInterrupt, SystemExit) as e:
        return 'unexpected %s: %s' % (type(e).__name__, e)
    except BaseException as e:       # anything unexpected out of the real code
        tb = traceback.extract_tb(e.__traceback__)
        where = ' < '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-4:]))
        return 'unexpected %s: %s (%s)' % (type(e).__name__, str(e)[:400], where)
    return None


# ------------------------------------------------------------------- workers
def _worker(sections, jobs, seed, prop, tier, deadline, wfd):
    """Runs its jobs [(section index, chunk index, [cases] | count)]; result JSON to wfd"""
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass
    cov = LineCoverage()
    cov.start()
    res = {'violations': [], 'sections': {}, 'cut': 0}
    for (si, ci, todo) in jobs:
        sec = sections[si]
        st = Stats()
        rng = random.Random('%s/%s/%s/%s' % (seed, prop, sec.name, ci))
        t0 = time.time()
        cases = todo if isinstance(todo, list) else None
        count = len(cases) if cases is not None else todo
        for i in range(count):
            if time.time() > deadline and st.evaluations >= 5:
                res['cut'] += count - i
                break
            case = cases[i] if cases is not None else sec.gen(rng, i)
            st.evaluations += 1
            msg = run_isolated(sec, case, st, cov) if sec.isolate else run_case(sec, case, st)
            if len(st.samples) < 2 and (i % 7 == 0):
                st.samples.append(case)
            if msg:
                res['violations'].append({'section': sec.name, 'case': case, 'message': msg,
                                          'seed': seed, 'chunk': ci, 'index': i, 'tier': tier})
                break
        res['sections'].setdefault(sec.name, []).append({
            'evaluations': st.evaluations, 'counts': st.counts, 'keys': sorted(st.keys),
            'samples': st.samples, 'wall': time.time() - t0})
        if res['violations']:
            break
    res['lines'] = sorted(cov.hits)
    with os.fdopen(wfd, 'w') as fh:
        json.dump(res, fh, default=str)


def run_isolated(sec, case, st, cov=None):
    """Each case in a process of its own (class registries, caches)"""
    (r, w) = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            sub = Stats()
            msg = run_case(sec, case, sub)
            with os.fdopen(w, 'w') as fh:
                json.dump({'msg': msg, 'counts': sub.counts, 'keys': sorted(sub.keys),
                           'lines': sorted(cov.hits) if cov else []}, fh)
        except BaseException:
            traceback.print_exc()
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r) as fh:
        text = fh.read()
    os.waitpid(pid, 0)
    if not text:
        return 'the process running this case died'
    d = json.loads(text)
    for (k, v) in d['counts'].items():
        st.obs(k, v)
    st.keys.update(d['keys'])
    if cov:
        cov.hits.update((f, l) for (f, l) in d['lines'])
    return d['msg']


def executable_lines(path):
    lines = set()
    try:
        code = compile(open(path).read(), path, 'exec')
    except (OSError, SyntaxError):
        return lines
    todo = [code]
    while todo:
        c = todo.pop()
        lines.update(l for (_a, _b, l) in c.co_lines() if l)
        todo += [k for k in c.co_consts if hasattr(k, 'co_code')]
    return lines


def workers():
    if os.environ.get('VERIF_WORKERS'):
        return int(os.environ['VERIF_WORKERS'])
    try:
        return max(2, min(8, len(os.sched_getaffinity(0))))
    except AttributeError:
        return 4


def run_check(prop, sections, tier, seed, anchors, rule, assumptions=(), probes=(), deciding=()):
    """Run all sections; returns exit code"""
    t0 = time.time()
    nw = workers()
    deadline = t0 + (420 if tier == 'quick' else 3 * 3600)
    jobs = []
    for (si, sec) in enumerate(sections):
        if sec.cases is not None:
            allc = list(sec.cases(tier))
            k = max(1, min(4 * nw, len(allc) // 50 or 1))
            size = (len(allc) + k - 1) // k
            for c in range(k):
                part = allc[c * size:(c + 1) * size]
                if part:
                    jobs.append((si, c, part))
        else:
            n = max(1, int(sec.n[tier] * float(os.environ.get('VERIF_SCALE') or 1)))
            size = sec.chunk or max(1, min(400, (n + 15) // 16))
            c = 0
            while n > 0:
                jobs.append((si, c, min(size, n)))
                n -= size
                c += 1
    random.Random(0).shuffle(jobs)
    procs = []
    for w in range(nw):
        mine = jobs[w::nw]
        if not mine:
            continue
        (r, wfd) = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                _worker(sections, mine, seed, prop, tier, deadline, wfd)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                os._exit(code)
        os.close(wfd)
        procs.append((pid, r))
    results, errors = [], 0
    for (pid, r) in procs:
        with os.fdopen(r) as fh:
            text = fh.read()
        (_p, status) = os.waitpid(pid, 0)
        if status or not text:
            errors += 1
        else:
            results.append(json.loads(text))

    per, keys, samples, lines, violations, cut = {}, set(), [], set(), [], 0
    for res in results:
        cut += res['cut']
        violations += res['violations']
        lines.update((f, l) for (f, l) in res['lines'])
        for (name, runs) in res['sections'].items():
            s = per.setdefault(name, {'evaluations': 0, 'observed': {}, 'cpu_wall_s': 0.0})
            for run in runs:
                s['evaluations'] += run['evaluations']
                s['cpu_wall_s'] = round(s['cpu_wall_s'] + run['wall'], 2)
                for (k, v) in run['counts'].items():
                    s['observed'][k] = s['observed'].get(k, 0) + v
                keys.update(run['keys'])
                if run['samples'] and len(samples) < 12:
                    samples.append({'section': name, 'case': run['samples'][0]})

    known = known_findings()
    (probe_out, probe_viol) = run_probes(prop, probes, known)
    violations += probe_viol

    coverage_lines = {}
    for f in anchors:
        ex = executable_lines(os.path.join(REPO, f))
        hit = set(l for (g, l) in lines if g == f)
        coverage_lines[f] = '%d of %d lines' % (len(hit & ex), len(ex))
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(s['evaluations'] for s in per.values()),
            'distinct_nontrivial': len(keys),
            'rule': rule,
            'samples': [json.loads(json.dumps(x, default=str)[:20000]) if len(json.dumps(x, default=str)) < 4000
                        else {'section': x['section'], 'case': json.dumps(x['case'], default=str)[:2000]}
                        for x in samples],
            'sections': per,
            'lines_executed_at_run_time': coverage_lines,
            'cases_cut_by_deadline': cut,
            'known_finding_probes': probe_out,
        },
        'assumptions': list(assumptions),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, prop + '.json'), 'w') as fh:
        json.dump(evidence, fh, indent=1, sort_keys=True)
        fh.write('\n')

    for line in probe_out:
        print(line)
    print('%s %s seed=%s: %d evaluations, %d distinct, %.1f s' % (
        prop, tier, seed, evidence['coverage']['evaluations'], len(keys), evidence['wall_s']))
    if violations:
        os.makedirs(REPLAYS, exist_ok=True)
        for (i, v) in enumerate(violations[:5]):
            v = dict(v, property=prop)
            sec = [s for s in sections if s.name == v['section']]
            if sec:
                v = shrink(sec[0], v)
            path = os.path.join(REPLAYS, '%s-%d.json' % (prop, i))
            with open(path, 'w') as fh:
                json.dump(v, fh, indent=1, default=str)
            print('  [%s] %s' % (v['section'], v['message'][:600]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errors:
        print('ERROR: %d worker(s) gave no result' % errors)
        return 3
    dead = [name for name in (s.name for s in sections) if not per.get(name, {}).get('evaluations')]
    for (name, counter) in deciding:
        if not per.get(name, {}).get('observed', {}).get(counter):
            dead.append('%s/%s' % (name, counter))
    if dead:
        print('ERROR: monitors never reached: %s' % dead)
        return 3
    return 0


def shrink(sec, v, budget=20.0):
    """Greedy removal of list elements of the case while it still fails (in a fork)"""
    case = v['case']
    if not isinstance(case, dict) or not isinstance(case.get('lines'), list):
        return v
    run = run_isolated if sec.isolate else run_case
    (r, w) = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            t0 = time.time()
            best, msg = case, run(sec, case, Stats())
            if msg:
                i = 0
                while i < len(best['lines']) and time.time() - t0 < budget:
                    trial = dict(best, lines=best['lines'][:i] + best['lines'][i + 1:])
                    m = run(sec, trial, Stats())
                    if m and not m.startswith('unexpected') or (m and msg.startswith('unexpected')):
                        best, msg = trial, m
                    else:
                        i += 1
            with os.fdopen(w, 'w') as fh:
                json.dump({'case': best, 'message': msg}, fh, default=str)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as fh:
        text = fh.read()
    os.waitpid(pid, 0)
    try:
        d = json.loads(text)
        if d['message']:
            return dict(v, case=d['case'], message=d['message'])
    except ValueError:
        pass
    return v


def replay(prop, sections, path):
    v = json.load(open(path))
    sec = [s for s in sections if s.name == v['section']]
    if not sec:
        print('unknown section %r' % v['section'])
        return 2
    sec = sec[0]
    msg = run_isolated(sec, v['case'], Stats())
    if not msg and sec.gen and 'chunk' in v:
        # depends on history: repeat the chunk up to this case
        rng = random.Random('%s/%s/%s/%s' % (v['seed'], prop, sec.name, v['chunk']))
        for i in range(v['index'] + 1):
            msg = run_case(sec, sec.gen(rng, i), Stats())
            if msg:
                break
    if msg:
        print('  [%s] %s' % (sec.name, msg))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('not reproduced')
    return 0


# ------------------------------------------------------------ known findings
def known_findings():
    """{(property, key): text}"""
    out = {}
    with open(os.path.join(HERE, 'KNOWN_FINDINGS.txt')) as fh:
        for line in fh:
            if line.startswith('finding:'):
                f = line.split(None, 3)
                out[(f[1].split('=')[1], f[2].split('=')[1])] = f[3].strip()
    return out


def run_probes(prop, probes, known):
    """probes: [(key, function raising Violation while the defect is there)]"""
    out, viol = [], []
    for (key, fn) in probes:
        sec = Section('probe-' + key, lambda case, st, fn=fn: fn())
        msg = run_isolated(sec, {'probe': key}, Stats())
        if msg is None:
            continue
        if (prop, key) in known:
            out.append('KNOWN-FINDING: property=%s %s' % (prop, known[(prop, key)]))
        else:
            viol.append({'section': sec.name, 'case': {'probe': key}, 'message': msg})
    return out, viol


# ------------------------------------------------ constants of the code (dictionary)
def harvest():
    """numbers and strings in the current library: a fuzzing dictionary"""
    nums, strs = set(), set()
    paths = []
    for (root, dirs, files) in os.walk(os.path.join(SRC, 'pygcode')):
        paths += [os.path.join(root, f) for f in files if f.endswith('.py')]
    paths += [os.path.join(REPO, 'scripts', f) for f in ('pygcode-norm', 'pygcode-crop')]
    for p in sorted(paths):
        try:
            tree = ast.parse(open(p).read())
        except (OSError, SyntaxError):
            continue
        for node in ast.walk(tree):
            if isinstance(node, ast.Constant):
                v = node.value
                if isinstance(v, (int, float)) and not isinstance(v, bool) and abs(v) < 1e12:
                    nums.add(float(v))
                elif isinstance(v, str) and 0 < len(v) <= 12 and v.isprintable():
                    strs.add(v)
    return nums, strs


def novel():
    (nums, strs) = harvest()
    try:
        base = json.load(open(os.path.join(HERE, 'vf', 'base_consts.json')))
    except (OSError, ValueError):
        return [], []
    return sorted(nums - set(base['nums'])), sorted(strs - set(base['strs']))


def setup_import():
    sys.dont_write_bytecode = True
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    import pygcode
    got = os.path.realpath(os.path.dirname(pygcode.__file__))
    if got != os.path.realpath(os.path.join(SRC, 'pygcode')):
        raise RuntimeError('pygcode imported from %s' % got)
