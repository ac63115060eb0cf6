"""What the library shows of a batch of cases, as text (run in processes of their own by C31)"""
import json
import sys

if __name__ == '__main__':
    sys.path.insert(0, sys.argv[1])
    from vf import core
    core.setup_import()

import pygcode                                                        # noqa: E402
from pygcode import Line                                              # noqa: E402
from pygcode.transform import linearize_arc, simplify_canned_cycle    # noqa: E402
from pygcode.utils import omit_redundant_modes                        # noqa: E402


def outcome(fn):
    try:
        return fn()
    except Exception as e:
        return '%s: %s' % (type(e).__name__, e)


def codes(gen):
    out = []
    try:
        for g in gen:
            out.append(str(g))
    except Exception as e:
        out.append('%s: %s' % (type(e).__name__, e))
    return out


def program(case):
    from . import mach
    (m, _r) = mach.make(case['axes'], case['mode'])
    out = [str(m.mode)]
    for text in case['lines']:
        def one():
            line = Line(text)
            shown = [str(line), str(line.block), str(line.comment), str(line.macro), [str(w) for w in line.block.words],
                     [str(g) for g in line.gcodes], [str(w) for w in line.block.modal_params], [str(g) for g in sorted(line.gcodes)],
                     repr(line.gcodes), [g.description for g in line.gcodes]]
            b = m.block_modal_gcodes(line.block)
            shown.append([str(g) for g in b])
            shown.append([str(g) for g in omit_redundant_modes(line.gcodes)])
            m.process_block(line.block)
            return shown
        out.append(outcome(one))
        out.append([str(m.mode), [str(g) for g in m.mode.gcodes], [str(w) for w in m.pos.words], repr(m.pos), repr(m.abs_pos),
                    repr(m.abs_range_min), repr(m.abs_range_max), repr(m.state), repr(m.mode)])
    return out


def arc(case):
    from . import p_geom
    (_a, g, start, kw) = p_geom.make_arc(case)
    return [str(g), repr(g), codes(linearize_arc(g, start, **kw))]


def cycle(case):
    from . import p_geom
    (g, start, kw) = p_geom.canned_call(case)
    return [str(g), repr(g), codes(simplify_canned_cycle(g, start, **kw))]


def script(case):
    from . import p_tools
    (out, _err, end) = p_tools.run_script(case['name'], case['args'], '\n'.join(case['lines']) + '\n')
    return [out, repr(end) if isinstance(end, int) else type(end).__name__]


def lists(case):
    """codes of several blocks together: splitting, omitting, listing"""
    gs = []
    for t in case['lines']:
        got = outcome(lambda: Line(t).gcodes)
        if isinstance(got, list):
            gs += got
    out = [[str(g) for g in sorted(gs)], [str(g) for g in omit_redundant_modes(gs)]]
    for cls in (pygcode.GCodeMotion, pygcode.GCodeStartSpindle, pygcode.GCodeFeedRate):
        out.append([[str(g) for g in part] for part in pygcode.split_gcodes(list(gs), cls)])
    return out


KINDS = {'program': program, 'arc': arc, 'cycle': cycle, 'script': script, 'lists': lists}


def digest(case):
    return outcome(lambda: KINDS[case['kind']](case))


def main():
    data = json.load(sys.stdin)
    out = [None] * len(data['cases'])
    for i in data['order']:
        out[i] = digest(data['cases'][i])
    json.dump(out, sys.stdout)


if __name__ == '__main__':
    import vf.digest
    vf.digest.main()
