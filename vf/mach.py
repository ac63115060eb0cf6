"""Driving the real Machine in lockstep with vf.ref.RefMachine"""
import copy

import pygcode
from pygcode import Line, Machine, Mode
from pygcode.machine import CoordinateSystem, Position
from pygcode.exceptions import GCodeParameterError, MachineInvalidState

from . import ref
from .core import Skip, Violation, expect, same

TOL = 1e-6


def make(axes='XYZ', mode=ref.DEFAULT_MODE, ignore_invalid=False):
    """(real machine, reference machine)"""
    attrs = {'axes': set(axes), 'ignore_invalid_modal': ignore_invalid}
    if mode != ref.DEFAULT_MODE:
        attrs['MODE_CLASS'] = type('TestMode', (Mode,), {'default_mode': mode})
    cls = type('TestMachine', (Machine,), attrs)
    r = ref.RefMachine(axes, mode)
    r.ignore_invalid = ignore_invalid
    return cls(), r


def near(a, b, tol=TOL):
    return a is not None and abs(a - b) <= tol + 1e-11 * (abs(a) + abs(b))


def values(position, axes, what):
    v = position.values
    expect(set(position.axes) == set(axes), '%s: axes are %r, machine has %r', what, sorted(position.axes), axes)
    expect(set(v) == set(axes), '%s: values of axes %r, machine has %r', what, sorted(v), axes)
    for a in axes:
        expect(getattr(position, a) == v[a], '%s: attribute %s is %r, value is %r', what, a, getattr(position, a), v[a])
    return v


def check_pos(m, r, what, tol=TOL):
    for (name, got, want) in (('position', m.pos, r.pos), ('absolute position', m.abs_pos, r.abs)):
        v = values(got, r.axes, what)
        for a in r.axes:
            if not near(v[a], want[a], tol):
                raise Violation('%s: %s %s is %r, expected %r' % (what, name, a, v[a], want[a]))


def check_range(m, r, what, tol=TOL):
    for (name, got, want) in (('lowest', m.abs_range_min, r.lo), ('highest', m.abs_range_max, r.hi)):
        v = values(got, r.axes, what)
        for a in r.axes:
            if not near(v[a], want[a], tol):
                raise Violation('%s: %s %s is %r, expected %r' % (what, name, a, v[a], want[a]))


def mode_of(m):
    """{group name: (letter, value, {param: value})} of a real machine"""
    out = {}
    for name in ref.GROUPS:
        g = getattr(m.mode, name)
        if g is not None:
            out[name] = (g.word.letter, g.word.value, dict((w.letter, w.value) for w in g.params.values()))
    return out


def ref_mode(r):
    return dict((ref.GROUP_NAME[k], (c.word[0], c.word[1], dict(c.params))) for (k, c) in r.mode.items() if c)


def check_mode(m, r, what, params=True):
    (got, want) = (mode_of(m), ref_mode(r))
    for name in ref.GROUPS:
        (a, b) = (got.get(name), want.get(name))
        if (a and a[:2]) != (b and b[:2]):
            raise Violation('%s: %s mode is %r, expected %r' % (what, name, a and a[:2], b and b[:2]))
        if params and a and a[2] != b[2]:
            raise Violation('%s: parameters of %s mode %s%s are %r, expected %r' % (what, name, a[0], a[1], a[2], b[2]))
    want_cur = r.cur
    same(m.state.cur_coord_sys, want_cur, '%s: selected coordinate system' % what)


def view(m):
    """complete, comparable state of a real machine"""
    return {
        'pos': dict(m.pos.values), 'abs': dict(m.abs_pos.values),
        'lo': dict(m.abs_range_min.values), 'hi': dict(m.abs_range_max.values),
        'mode': mode_of(m), 'cur': m.state.cur_coord_sys,
        'cs': dict((i, dict(cs.offset.values)) for (i, cs) in m.state.coord_systems.items()),
        'offset': dict(m.state.offset.values),
    }


def check_view(m, before, what):
    now = view(m)
    for k in before:
        if now[k] != before[k]:
            raise Violation('%s: %s changed from %r to %r' % (what, k, before[k], now[k]))


def ref_run(r, text):
    """('ok', executed codes) or ('state'|'param'|'conflict'|'word', None); r changes only if ok"""
    try:
        return ('ok', r.run_text(text))
    except ref.RefError as e:
        return (e.kind, None)


ERRORS = {'state': MachineInvalidState, 'param': GCodeParameterError, 'conflict': AssertionError}


def real_run(m, text, how=0):
    """run a block by one of the public ways; returns exception or None"""
    try:
        if how == 0:
            m.process_str(text)
        elif how == 1:
            m.process_block(Line(text).block)
        elif how == 2:
            b = Line(text).block
            m.process_gcodes(*b.gcodes, modal_params=b.modal_params)
        else:
            b = Line(text).block
            m.process_gcodes(*m.block_modal_gcodes(b))
    except Exception as e:
        return e
    return None


def watched(case, k):
    """is the machine looked at after operation k? (what is put off until it is asked for must be right, too)"""
    w = case.get('watch', 1)
    return w == 1 or k + 1 == len(case['lines']) or (k * 7919 + 5) % 100 < 100 * w


def step(m, r, text, how=0, what=None, watch=True):
    """Run one block on both; the outcome must agree, and a refused block changes nothing"""
    what = what or repr(text)
    before = view(m) if watch else None
    (kind, ex) = ref_run(r, text)
    if kind == 'undefined':
        raise Skip()
    err = real_run(m, text, how)
    if kind == 'ok':
        if err is not None:
            raise Violation('%s: refused with %s: %s' % (what, type(err).__name__, err))
    else:
        if err is None:
            raise Violation('%s: executed, expected %s' % (what, ERRORS[kind].__name__))
        if not isinstance(err, ERRORS[kind]):
            raise Violation('%s: raised %s (%s), expected %s' % (what, type(err).__name__, err, ERRORS[kind].__name__))
        if watch:
            check_view(m, before, 'refused block %s' % what)
    return kind, ex


def set_cs(m, r, i, offsets, how=None):
    """change the offsets of coordinate system i (0: the temporary offset)"""
    if how and how != 'update':
        p = Position(axes=set(r.axes), **dict(r.temp if i == 0 else r.cs[i]))
        if how == 'state':
            m.state = copy.copy(m.state)
        elif i == 0:
            m.state.offset = p
        elif how == 'offset':
            m.state.coord_systems[i].offset = p
        else:
            c = CoordinateSystem(axes=set(r.axes))
            c.offset = p
            m.state.coord_systems[i] = c
    o = m.state.offset if i == 0 else m.state.coord_systems[i].offset
    t = r.temp if i == 0 else r.cs[i]
    for (a, v) in offsets.items():
        if a in r.axes:
            if how != 'update':
                setattr(o, a, v)
            t[a] = v
    if how == 'update':
        o.update(**dict((a, v) for (a, v) in offsets.items() if a in r.axes))
