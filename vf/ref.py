"""Independent reference for the LinuxCNC/RS274 subset pygcode documents.

Nothing here imports pygcode.  It is written from the LinuxCNC tables quoted in
the library's documentation: word grammar, code dictionary, modal groups, order
of execution, word-to-code grouping and a small machine interpreter.
"""
from collections import OrderedDict


class RefError(Exception):
    """The reference says this text / block / program step is invalid."""
    def __init__(self, kind, msg=''):
        Exception.__init__(self, '%s %s' % (kind, msg))
        self.kind = kind


# --------------------------------------------------------------------- words
FLOAT, CODE, INT, TEXT, TOOL = 'float', 'code', 'int', 'text', 'tool'
KIND = dict((c, FLOAT) for c in 'ABCDEFHIJKPQRSUVWXYZ')
KIND.update(G=CODE, M=CODE, L=INT, N=INT, O=TEXT, T=TOOL)
LETTERS = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
_D = '0123456789'


def tokenize(text):
    """text of a block (no comments) -> [(letter, value)] or RefError('word')"""
    s = text.strip(' \t\r\n\f\v')
    i, n, out, first = 0, len(s), [], True
    if s[:1] == '/' and len(s) > 1:
        i = 1
    while i < n:
        c = s[i]
        if c in ' \t':
            i += 1
            continue
        up = c.upper()
        if up not in KIND or not c.isascii():
            raise RefError('word', 'junk %r at %d' % (c, i))
        i += 1
        kind = KIND[up]
        if kind == TEXT:
            val = s[i:].strip()
            if not val:
                raise RefError('word', 'no value for O')
            out.append((up, val))
            return out
        while i < n and s[i] in ' \t':
            i += 1
        j = i
        if kind == FLOAT and j < n and s[j] == '-':
            j += 1
        k = j
        while k < n and s[k] in _D:
            k += 1
        digits = k - j
        if kind == FLOAT:
            if k < n and s[k] == '.':
                m = k + 1
                while m < n and s[m] in _D:
                    m += 1
                if digits or m > k + 1:
                    digits += m - k - 1
                    k = m
            if not (digits or (k > j)):
                raise RefError('word', 'no value for %s' % up)
        elif kind == CODE:
            if digits and k + 1 < n and s[k] == '.' and s[k + 1] in _D:
                k += 2
        if k == j:
            raise RefError('word', 'no value for %s' % up)
        txt = s[i:k]
        if kind in (FLOAT, CODE):
            out.append((up, float(txt)))
        elif kind == INT:
            out.append((up, int(txt)))
        else:
            out.append((up, txt))
        i = k
    return out


# --------------------------------------------------------------------- codes
AX = 'XYZABCUVW'
GROUPS = {
    'motion': 1, 'plane_selection': 2, 'distance': 3, 'arc_ijk_distance': 4,
    'feed_rate_mode': 5, 'units': 6, 'cutter_diameter_comp': 7,
    'tool_length_offset': 8, 'canned_cycles_return': 10, 'coordinate_system': 12,
    'control_mode': 13, 'spindle_speed_mode': 14, 'lathe_diameter': 15,
    'stopping': 104, 'spindle': 107, 'coolant': 108, 'override_switches': 109,
    'user_defined': 110, 'feed_rate': 201, 'spindle_speed': 202, 'tool': 203,
}
GROUP_NAME = dict((v, k) for (k, v) in GROUPS.items())


class Info(object):
    __slots__ = ('cls', 'group', 'params', 'order', 'sticky', 'word')

    def __init__(self, word, cls, group, params, order, sticky):
        self.word, self.cls, self.group = word, cls, group
        self.params, self.order, self.sticky = params, order, sticky


TABLE = OrderedDict()
_T = '''
G0    GCodeRapidMove             motion @ 242
G1    GCodeLinearMove            motion @ 242
G2    GCodeArcMoveCW             motion @IJKRP 242
G3    GCodeArcMoveCCW            motion @IJKRP 242
G4    GCodeDwell                 - P 140
G5    GCodeCublcSpline           motion @IJPQ 242
G5.1  GCodeQuadraticSpline       motion @IJ 242
G5.2  GCodeNURBS                 motion @PL 242
G5.3  GCodeNURBSEnd              motion @PL 242
G38.2,38.3,38.4,38.5 GCodeStraightProbe motion @ 242
G33   GCodeSpindleSyncMotion     motion @K 242
G33.1 GCodeRigidTapping          motion @K 242
G80   GCodeCancelCannedCycle     - . 241
G81   GCodeDrillingCycle         motion XYZUVWRLP 242 XYZUVWRP
G82   GCodeDrillingCycleDwell    motion XYZUVWRLP 242 XYZUVWRP
G83   GCodeDrillingCyclePeck     motion XYZUVWRLQ 242 XYZUVWRQ
G73   GCodeDrillingCycleChipBreaking motion XYZUVWRLQ 242 XYZUVWRQ
G85   GCodeBoringCycleFeedOut    motion XYZUVWRLP 242 XYZUVWRP
G89   GCodeBoringCycleDwellFeedOut motion XYZUVWRLP 242 XYZUVWRP
G76   GCodeThreadingCycle        motion XYZUVWPIJRKQHLE 242
G90   GCodeAbsoluteDistanceMode  distance . 210
G91   GCodeIncrementalDistanceMode distance . 210
G90.1 GCodeAbsoluteArcDistanceMode arc_ijk_distance . 210
G91.1 GCodeIncrementalArcDistanceMode arc_ijk_distance . 210
G7    GCodeLatheDiameterMode     lathe_diameter . 210
G8    GCodeLatheRadiusMode       lathe_diameter . 210
G93   GCodeInverseTimeMode       feed_rate_mode . 30
G94   GCodeUnitsPerMinuteMode    feed_rate_mode . 30
G95   GCodeUnitsPerRevolution    feed_rate_mode . 30
M3    GCodeStartSpindleCW        spindle . 90
M4    GCodeStartSpindleCCW       spindle . 90
M5    GCodeStopSpindle           spindle . 90
M19   GCodeOrientSpindle         - . 90
G96   GCodeSpindleConstantSurfaceSpeedMode spindle_speed_mode D 90 D
G97   GCodeSpindleRPMMode        spindle_speed_mode D 90 D
M7    GCodeCoolantMistOn         coolant . 110
M8    GCodeCoolantFloodOn        coolant . 110
M9    GCodeCoolantOff            coolant . 110
G43   GCodeToolLengthOffset      tool_length_offset H 180 H
G43.1 GCodeDynamicToolLengthOffset tool_length_offset . 180
G43.2 GCodeAddToolLengthOffset   tool_length_offset H 180 H
G49   GCodeCancelToolLengthOffset tool_length_offset . 180
M0    GCodePauseProgram          stopping . 250
M1    GCodePauseProgramOptional  stopping . 250
M2    GCodeEndProgram            stopping . 250
M30   GCodeEndProgramPalletShuttle stopping . 250
M60   GCodePalletChangePause     stopping . 250
G20   GCodeUseInches             units . 160
G21   GCodeUseMillimeters        units . 160
G17   GCodeSelectXYPlane         plane_selection . 150
G18   GCodeSelectZXPlane         plane_selection . 150
G19   GCodeSelectYZPlane         plane_selection . 150
G17.1 GCodeSelectUVPlane         plane_selection . 150
G18.1 GCodeSelectWUPlane         plane_selection . 150
G19.1 GCodeSelectVWPlane         plane_selection . 150
G40   GCodeCutterRadiusCompOff   cutter_diameter_comp . 170
G41   GCodeCutterCompLeft        cutter_diameter_comp D 170 D
G42   GCodeCutterCompRight       cutter_diameter_comp D 170 D
G41.1 GCodeDynamicCutterCompLeft cutter_diameter_comp DL 170 DL
G42.1 GCodeDynamicCutterCompRight cutter_diameter_comp DL 170 DL
G61   GCodeExactPathMode         control_mode . 200
G61.1 GCodeExactStopMode         control_mode . 200
G64   GCodePathBlendingMode      control_mode PQ 200 PQ
G98   GCodeCannedCycleReturnPrevLevel canned_cycles_return . 220
G99   GCodeCannedCycleReturnToR  canned_cycles_return . 220
M48   GCodeSpeedAndFeedOverrideOn override_switches . 120
M49   GCodeSpeedAndFeedOverrideOff override_switches . 120
M50   GCodeFeedOverride          - P 120
M51   GCodeSpindleSpeedOverride  - P 120
M52   GCodeAdaptiveFeed          - P 120
M53   GCodeFeedStop              - P 120
G54   GCodeSelectCoordinateSystem1 coordinate_system . 190
G55   GCodeSelectCoordinateSystem2 coordinate_system . 190
G56   GCodeSelectCoordinateSystem3 coordinate_system . 190
G57   GCodeSelectCoordinateSystem4 coordinate_system . 190
G58   GCodeSelectCoordinateSystem5 coordinate_system . 190
G59   GCodeSelectCoordinateSystem6 coordinate_system . 190
G59.1 GCodeSelectCoordinateSystem7 coordinate_system . 190
G59.2 GCodeSelectCoordinateSystem8 coordinate_system . 190
G59.3 GCodeSelectCoordinateSystem9 coordinate_system . 190
M62   GCodeDigitalOutputOnSyncd  - P 70
M63   GCodeDigitalOutputOffSyncd - P 70
M64   GCodeDigitalOutputOn       - P 70
M65   GCodeDigitalOutputOff      - P 70
M66   GCodeWaitOnInput           - PELQ 70
M67   GCodeAnalogOutputSyncd     - T 70
M68   GCodeAnalogOutputImmediate - T 70
M6    GCodeToolChange            - T 80
M61   GCodeToolSetCurrent        - Q 80
G10   GCodeSet                   - LPQRABCXYZ 230
G28,30     GCodeGotoPredefinedPosition - @ 230
G28.1,30.1 GCodeSetPredefinedPosition - . 230
G53   GCodeMoveInMachineCoords   - . 240
G92   GCodeCoordSystemOffset     - @ 230
G92.1,92.2 GCodeResetCoordSystemOffset - . 230
G92.3 GCodeRestoreCoordSystemOffset - . 230
'''
for _l in _T.strip().splitlines():
    _f = _l.split()
    _p = '' if _f[3] == '.' else _f[3].replace('@', AX)
    for _n in _f[0][1:].split(','):
        _w = (_f[0][0], float(_n))
        TABLE[_w] = Info(_w, _f[1], GROUPS.get(_f[2]), frozenset(_p), int(_f[4]),
                         frozenset(_f[5]) if len(_f) > 5 else frozenset())
_LET = {
    'N': Info(None, 'GCodeLineNumber', None, frozenset(), 0, frozenset()),
    'O': Info(None, 'GCodeProgramName', None, frozenset(), 1, frozenset()),
    'F': Info(None, 'GCodeFeedRate', 201, frozenset(), 40, frozenset()),
    'S': Info(None, 'GCodeSpindleSpeed', 202, frozenset(), 50, frozenset()),
    'T': Info(None, 'GCodeSelectTool', 203, frozenset(), 60, frozenset()),
}
CANNED = frozenset(('G', float(x)) for x in (81, 82, 83, 73, 85, 89, 76))
MOTION = 1
CANCEL = ('G', 80.0)


def info(word):
    (letter, value) = word
    if letter in _LET:
        return _LET[letter]
    if letter in 'GM':
        return TABLE.get((letter, float(value)))
    return None


class Code(object):
    __slots__ = ('word', 'params', 'info')

    def __init__(self, word, params=None):
        self.word, self.info = word, info(word)
        self.params = OrderedDict(params or {})

    def key(self):
        return (self.word, tuple(sorted(self.params.items())))

    def __repr__(self):
        return '%s%s{%s}' % (self.word[0], self.word[1], ' '.join('%s%s' % p for p in sorted(self.params.items())))


def group(words):
    """[(letter, value)] -> ([Code], [unassigned words]) or RefError('param')"""
    n = len(words)
    infos = [info(w) for w in words]
    is_code = [False] * n
    owner = [None] * n
    for i in range(n):
        near = None
        for j in range(i - 1, -1, -1):
            if is_code[j] and words[i][0] in infos[j].params:
                near = j
                break
        if near is not None:
            owner[i] = near
        elif infos[i] is not None:
            is_code[i] = True
    for i in range(n):
        if not is_code[i] and owner[i] is None:
            for j in range(i + 1, n):
                if is_code[j] and words[i][0] in infos[j].params:
                    owner[i] = j
                    break
    codes, at = [], {}
    for i in range(n):
        if is_code[i]:
            at[i] = Code(words[i])
            codes.append(at[i])
    modal = []
    for i in range(n):
        if is_code[i]:
            continue
        if owner[i] is None:
            modal.append(words[i])
        else:
            p = at[owner[i]].params
            if words[i][0] in p:
                raise RefError('param', 'parameter %s twice' % words[i][0])
            p[words[i][0]] = words[i][1]
    return codes, modal


def conflicts(codes):
    seen, groups = set(), set()
    for c in codes:
        if c.word in seen:
            return True
        seen.add(c.word)
        if c.info.group is not None:
            if c.info.group in groups:
                return True
            groups.add(c.info.group)
    return False


def parse(text):
    words = tokenize(text)
    codes, modal = group(words)
    if conflicts(codes):
        raise RefError('conflict')
    return words, codes, modal


# ------------------------------------------------------------------- machine
DEFAULT_MODE = 'G0 G17 G90 G91.1 G94 G21 G40 G49 G54 G61 G97 M5 M9 F0 S0 T0'
NORMAL = {17.0: 'Z', 18.0: 'Y', 19.0: 'X', 17.1: 'W', 18.1: 'V', 19.1: 'U'}


class RefMachine(object):
    """Interpreter of blocks: abs position per axis, offsets, modal groups, extents"""
    ignore_invalid = False

    def __init__(self, axes='XYZ', default_mode=DEFAULT_MODE):
        self.axes = axes
        self.abs = dict((a, 0.0) for a in axes)
        self.mode = {}                       # group id -> Code with sticky params
        self.cs = dict((i, dict((a, 0.0) for a in axes)) for i in range(1, 10))
        self.cur = 1
        self.temp = dict((a, 0.0) for a in axes)
        for c in parse(default_mode)[1] if default_mode else []:
            self._set_mode(c)
        self.lo = dict(self.abs)
        self.hi = dict(self.abs)
        self.moves = []                      # events of the last step: (code word, abs after)

    def clone(self):
        o = RefMachine.__new__(RefMachine)
        o.axes, o.cur, o.ignore_invalid = self.axes, self.cur, self.ignore_invalid
        o.abs, o.temp, o.lo, o.hi = dict(self.abs), dict(self.temp), dict(self.lo), dict(self.hi)
        o.cs = dict((k, dict(v)) for (k, v) in self.cs.items())
        o.mode = dict((k, Code(v.word, v.params) if v else None) for (k, v) in self.mode.items())
        o.moves = []
        return o

    def offset(self, a):
        return self.cs[self.cur][a] + self.temp[a]

    @property
    def pos(self):
        return dict((a, self.abs[a] - self.offset(a)) for a in self.axes)

    def _set_mode(self, code):
        g = code.info.group
        if g is None:
            return
        self.mode[g] = Code(code.word, ((l, v) for (l, v) in code.params.items() if l in code.info.sticky))
        if g == GROUPS['coordinate_system']:
            self.cur = {54.0: 1, 55.0: 2, 56.0: 3, 57.0: 4, 58.0: 5, 59.0: 6, 59.1: 7, 59.2: 8, 59.3: 9}[code.word[1]]

    def incremental(self):
        d = self.mode.get(GROUPS['distance'])
        return bool(d) and d.word == ('G', 91.0)

    def plane(self):
        p = self.mode.get(GROUPS['plane_selection'])
        return p.word[1] if p else 17.0

    def to_r(self):
        p = self.mode.get(GROUPS['canned_cycles_return'])
        return bool(p) and p.word == ('G', 99.0)

    def _move(self, coords):
        for (a, v) in coords.items():
            if a not in self.axes:
                continue
            if self.incremental():
                self.abs[a] = self.abs[a] + v
            else:
                self.abs[a] = v + self.offset(a)
        for a in self.axes:
            self.lo[a] = min(self.lo[a], self.abs[a])
            self.hi[a] = max(self.hi[a], self.abs[a])

    def modal_code(self, codes, modal):
        """Code executed for the unassigned words, None, or RefError('state'|'param')"""
        if not modal:
            return None
        m = self.mode.get(MOTION)
        if m is None or any(c.info.group == MOTION or c.word == CANCEL for c in codes):
            if not self.ignore_invalid:
                raise RefError('state', 'unassigned %r' % (modal,))
            return None
        bad = [w for w in modal if w[0] not in m.info.params]
        if bad and not self.ignore_invalid:
            raise RefError('state', 'unassigned %r' % (bad,))
        good = [w for w in modal if w[0] in m.info.params]
        if len(set(w[0] for w in good)) < len(good):
            raise RefError('param', 'repeated bare coordinates')
        params = OrderedDict(m.params)
        for (l, v) in good:
            params[l] = v
        return Code(m.word, params)

    def effective(self, codes, modal):
        mc = self.modal_code(codes, modal)
        out = list(codes) + ([mc] if mc else [])
        return sorted(out, key=lambda c: c.info.order)

    def run(self, codes, modal):
        """Execute a block; returns the executed codes in order"""
        ex = self.effective(codes, modal)
        self._defined(ex)
        self.moves = []
        for c in ex:
            self._exec(c)
        return ex

    def _defined(self, ex):
        """Canned cycles whose effect the documentation leaves open: RefError('undefined')"""
        (plane, to_r) = (self.plane(), self.to_r())
        for c in ex:
            if c.info.group == GROUPS['plane_selection']:
                plane = c.word[1]
            elif c.info.group == GROUPS['canned_cycles_return']:
                to_r = (c.word == ('G', 99.0))
            elif c.word in CANNED:
                if plane not in NORMAL or (to_r and 'R' not in c.params) or c.params.get('L', 1) > 1000:
                    raise RefError('undefined')

    def _exec(self, c):
        self._set_mode(c)
        if c.word == CANCEL:
            self.mode[MOTION] = None
        elif c.word in CANNED:
            normal = NORMAL.get(self.plane())
            coords = dict((l, v) for (l, v) in c.params.items() if l in AX)
            coords.pop(normal, None)
            if self.to_r():
                self._move(dict(coords, **{normal: c.params['R']}))
            else:
                self._move(coords)
            for _ in range(max(1, c.params.get('L', 1) or 1) - 1):
                self._move(coords)
            self.moves.append((c, dict(self.abs)))
        elif c.info.group == MOTION:
            self._move(dict((l, v) for (l, v) in c.params.items() if l in AX))
            self.moves.append((c, dict(self.abs)))

    def run_text(self, text):
        (_w, codes, modal) = parse(text)
        return self.run(codes, modal)
