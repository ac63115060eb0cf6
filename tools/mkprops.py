#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property list)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {'files': files,
                    'mechanism': [{'name': n, 'where': w} for (n, w) in mech],
                    'observe_at': observe, 'hook_needed': None,
                    **({'state': state} if state else {})},
    })
S = 'src/pygcode/'
W, G, M, T, B, L, C, U = [S + x + '.py' for x in ('words', 'gcodes', 'machine', 'transform', 'block', 'line', 'comment', 'utils')]
D = S + 'dialects/linuxcnc.py'

prop('C01', 'Block text is split into exactly the words written',
 'Every block text written in the LinuxCNC word grammar (letter, optional spaces, number; any letter case, any spacing between words, leading zeros, bare decimal points, negative values) is split into exactly the words written: same count, same order, same letters (upper-cased) and numerically exact values. A letter without a valid value, or text that belongs to no word, raises GCodeWordStrError instead of being dropped or altered. Splitting is stateless: the result does not depend on what was parsed before, and changing returned words does not change later results.',
 ['inputs', 'histories'], 'all printable-ASCII block texts, built from the grammar or corrupted, and all sequences of such parses in one process',
 'Two hand-written blocks are tokenised in the tests and the regexes are tried on ~20 strings; the grammar (26 letters x 5 value kinds x layout x magnitude) is unbounded, and corrupted text is not tried at all.',
 [W, D], [('text2words', W), ('WORD_MAP value_regex', D)], ['pygcode.text2words', 'pygcode.str2word', 'pygcode.Block.words'])

prop('C02', 'A word survives being written and read back',
 'The text form of any word, when parsed, yields one word of the same letter whose value equals the original to the documented 3 decimal places (exactly for integer, code and text words), for every magnitude, and never contains exponent notation. Rendering is canonical: rendering the re-parsed word gives the same text, and codes below 10 are zero-padded.',
 ['inputs'], 'all word letters and all finite values up to 1e12 in magnitude, as numbers or numeric text',
 'The tests render no coordinates above 999 and never compare a re-parsed value with the original; the domain is all numbers.',
 [W, D], [('Word.value_str', W), ('clean_value functions', D)], ['str(pygcode.Word)', 'pygcode.str2word'])

prop('C03', 'Comments and macros never leak into code and are never lost',
 'For every line mixing code with bracket comments (anywhere, any number), a trailing semicolon comment and a trailing %-macro, the executable content is exactly the line with the comments and macro removed, so nothing inside a comment is ever executed and no code is swallowed by a comment. The comment text (several comments joined by ". ") and the macro text are preserved. A line without comments or macro reports none.',
 ['inputs'], 'all single lines composed of code segments, bracket comments, at most one semicolon comment and at most one macro, with printable text without brackets inside comments (including ; and G-code look-alikes, and % inside bracket comments)',
 'Six fixed lines are tested; comment bodies holding code-like text, "%" or ";" and mixtures of both styles are not.',
 [L, C], [('Line.line_regex', L), ('split_line', C)], ['pygcode.Line.block/.comment/.macro', 'pygcode.split_line'])

prop('C04', 'Re-rendering a parsed line preserves its meaning',
 'Printing a parsed line and parsing the result gives the same G-codes (same codes, same parameters to 3 decimals, same order), the same modal parameters, the same comment (up to surrounding blanks) and the same macro. Printing is idempotent: a printed line re-parses and prints to itself.',
 ['inputs'], 'all parseable lines over the supported codes, any word order, with coordinates of any magnitude, comments and macros',
 'No test ever re-parses printed output; the property ranges over every combination of codes, parameter order and values.',
 [L, B, G, W], [('Line.__str__/Block.__str__/GCode.__str__', L), ('words2gcodes', G)], ['str(pygcode.Line)', 'str(pygcode.Block)'])

prop('C05', 'Grouping words into G-codes conserves every word',
 'Every word of a block ends up in exactly one place: as a code, as a parameter of exactly one code that accepts its letter, or in the list of modal (unassigned) parameters; values are unchanged. A word is left unassigned only if no code in the block accepts its letter, a parameter word is bound to the nearest preceding code accepting it (or, if none precedes it, to a following one), and codes keep their written order. Giving one code the same parameter letter twice raises GCodeParameterError.',
 ['inputs'], 'all word lists over the supported codes and all letters, in any order',
 'One block with two codes is tested; the space is all multisets and orders of ~130 codes with 26 letters.',
 [G], [('words2gcodes', G), ('GCode.add_parameter', G)], ['pygcode.words2gcodes', 'pygcode.text2gcodes', 'pygcode.Block.gcodes/.modal_params'])

prop('C06', 'Conflicting codes in one block are always rejected',
 'A block is rejected with an AssertionError exactly when it repeats a code or holds two codes of the same modal group, whatever their order, spacing and the other words between them; every other block of supported codes with non-repeated parameters is accepted. With verification switched off the same block is accepted and yields the same codes.',
 ['inputs'], 'all blocks of 1..8 supported codes with parameters (exhaustively: every ordered pair of codes)',
 'No test builds a conflicting block at all.',
 [B, G], [('Block._assert_gcodes', B), ('modal_group', G)], ['pygcode.Block(text)', 'pygcode.Block(text, verify=False)'])

prop('C07', 'The code dictionary is the documented LinuxCNC one',
 'Each documented word (G0..G99.3, M0..M199, F, S, T, N, O) is recognised as its documented code, in its documented modal group, and binds exactly its documented parameter letters; every other G or M number is recognised as nothing, and a machine refuses a line containing it with MachineInvalidState. Each code object built from its class without arguments carries a word that maps back to that same class.',
 ['inputs', 'configurations'], 'exhaustively all G and M numbers from 0 to 199.9 in steps of 0.1, times all 26 parameter letters',
 'The modal-group table test has a regex that matches greedily and checks groups only, not classes, letters or unsupported numbers.',
 [G], [('word_key/word_matches/param_letters/modal_group', G), ('build_maps, word_gcode_class', G)], ['pygcode.text2gcodes', 'pygcode.words2gcodes', 'pygcode.Machine.process_str'])

prop('C08', 'Codes of a block execute in the canonical order',
 'Whatever order the codes of a block are written in, the machine executes them in the LinuxCNC order of execution (feed mode, F, S, T, I/O, tool change, spindle, coolant, overrides, user, dwell, plane, units, cutter compensation, tool length, coordinate system, path mode, distance mode, retract mode, reference/offset codes, cancel cycle, motion, stop). Hence every permutation of a block that keeps parameters with their code leaves the machine in the same state, and a mode set in a block already applies to the motion of that block.',
 ['inputs'], 'all blocks of non-conflicting supported codes and all permutations of their codes (exhaustively: every pair of codes)',
 'Split tests look at two blocks; the order of ~130 codes and its effect on machine state under permutation is untested.',
 [G, M], [('exec_order', G), ('Machine.process_gcodes sort', M)], ['sorted(block.gcodes)', 'GCode.process call order via user-defined machine', 'pygcode.Machine.pos/.mode'])

prop('C09', 'The machine position follows the program',
 'After every block of any program, the machine position equals the one obtained by following the block sequence by hand: absolute coordinates replace only the axes given, incremental coordinates add to them, in whichever distance mode is active at that block, for rapid, linear, arc, spline and probe motion, with explicit or modal motion words, on every axis the machine has. Codes that are not motion never move the machine, and axes the machine does not have never appear or matter.',
 ['inputs', 'histories', 'configurations'], 'all programs (histories of blocks) over motion, mode and non-motion codes, on machines with any axis set, in one unit system',
 'Tests run six fixed 4-line programs on the default XYZ machine.',
 [M, G], [('Machine.move_to/pos', M), ('GCodeMotion._process', G)], ['pygcode.Machine.pos', 'pygcode.Machine.process_block/process_str/process_gcodes'],
 [{'name': 'abs_pos', 'meaning': 'absolute position of the machine', 'where': M}])

prop('C10', 'Modal state is the last code of each group, and persists',
 'After any program the active code of every modal group is the last one executed in that group (default modes before that), unaffected by codes of other groups, by non-modal codes, or by rejected blocks. Cancelling the canned cycle leaves no motion mode unless the same block sets one. Canned cycles keep their sticky parameters while they are the active motion (other motion codes keep none), compensation, tool-length, path-blending and constant-surface-speed modes keep theirs, and re-issuing bare coordinates re-executes the active motion with them.',
 ['inputs', 'histories'], 'all programs over all supported codes',
 'Modes are never inspected by the tests after a program, only indirectly through positions.',
 [M, G], [('Mode.set_mode', M), ('GCode.modal_copy', G), ('Machine.modal_gcode', M)], ['pygcode.Machine.mode.<group>', 'str(machine.mode)', 'pygcode.Machine.block_modal_gcodes'])

prop('C11', 'Unassignable words are refused and leave the machine untouched',
 'A block holding words that no code of the block nor the active motion mode accepts, bare coordinates while no motion mode is active, leftover words beside an explicit motion code, or an unsupported G/M number, is refused by the machine with MachineInvalidState (repeated bare coordinates with GCodeParameterError) before anything is executed: position, modes, offsets and travel extents stay as they were. A machine told to ignore invalid modal words executes the block as if those words were absent.',
 ['inputs', 'histories'], 'all blocks with unassignable words, at any point of any program',
 'No test exercises a refusal by the machine.',
 [M], [('Machine.modal_gcode', M), ('Machine.clean_block', M)], ['pygcode.Machine.process_block', 'pygcode.Machine.clean_block'])

prop('C12', 'Coordinate systems shift coordinates, never the machine',
 'Selecting any of the nine coordinate systems never changes the absolute position; the reported work position is the absolute position minus the selected system\'s offset minus the temporary offset, and programmed absolute coordinates are reached exactly in work coordinates. Converting work to absolute coordinates and back is the identity for every offset configuration. Changing the offset of a system that is not selected has no effect until it is selected.',
 ['inputs', 'histories', 'configurations'], 'all offset tables, all select/move/offset histories, all axis sets',
 'No test sets an offset or selects a coordinate system.',
 [M, G], [('Machine.abs2work/work2abs', M), ('State.coord_sys', M)], ['pygcode.Machine.pos/.abs_pos', 'pygcode.Machine.abs2work/.work2abs', 'pygcode.Machine.state'])

prop('C13', 'Travel extents bound exactly the positions reached',
 'At every point of a program the recorded travel extents are, per axis, exactly the minimum and maximum of the absolute positions the machine has been at since it was created (its starting origin included). They never shrink, and are not affected by codes that do not move the machine.',
 ['inputs', 'histories'], 'all programs, offsets and axis sets',
 'Extents are never read by a test; pygcode-norm and pygcode-crop use them as the safe height.',
 [M], [('Machine._update_abs_range', M), ('Position.min/max', M)], ['pygcode.Machine.abs_range_min/.abs_range_max'])

prop('C14', 'Copies are faithful and independent',
 'A copy of a machine, state, mode, position or coordinate system equals the original at that moment (position, extents, modes, all coordinate systems, selected system, offsets) and, given the same further program, behaves identically; processing with or changing either one never affects the other. Words, codes, blocks, lines and positions can be deep-copied, and editing codes after a machine has processed them does not change that machine.',
 ['inputs', 'histories'], 'all machine histories, any interleaving of programs run on original and copies',
 'No test copies anything, although pygcode-crop copies the machine at every line.',
 [M, G, B], [('Machine/State/Mode/Position/CoordinateSystem.__copy__', M), ('GCode.modal_copy', G)], ['copy.copy', 'copy.deepcopy', 'pygcode.Machine'])

prop('C15', 'Positions obey coordinate arithmetic, axis and unit rules',
 'Positions over the same axes behave as vectors (addition, subtraction, scaling, division, equality, negative and zero cases), results and read-outs are new objects and operands are untouched; combining different axis sets as documented, or naming or setting an axis that is not there, raises MachineInvalidAxis. Changing a position\'s unit multiplies every axis by 25.4 or its inverse, keeps the physical location, and positions in different units compare, and give per-axis min/max, by physical location on the same axes.',
 ['inputs', 'histories'], 'all axis subsets, values, units and operation sequences',
 'A handful of fixed sums on XYZ are tested; units are never changed in a test.',
 [M], [('Position operators, unit, _cmp', M)], ['pygcode.Position'])

prop('C16', 'Linearised arcs stay within the error bound and end exactly',
 'For every valid G2/G3 arc (radius or centre form, absolute or incremental distances and centres, any of the three planes, helical, up to and including full circles) and each of the inside, outside and mid methods, the straight segments start at the current position, end at the programmed end point, sweep the true arc in its true direction and stay within the requested maximum error of it (plus output rounding in incremental mode), advancing linearly along the plane normal. The inside method never leaves the circle outward and the outside method never cuts inside it, and the mid method strays equally to both sides; the radii an arc method reports are those its segments touch.',
 ['inputs', 'configurations'], 'all arcs consistent to 1e-6 (in radius form with end points further apart than the error limit), radii 0.01..10000, all sweep angles, planes, methods, modes and error limits',
 'linearize_arc has no test at all.',
 [T, G, U], [('linearize_arc, ArcLinearize*', T), ('GCodePlaneSelect.quat/normal', G)], ['pygcode.transform.linearize_arc'])

prop('C17', 'Impossible arcs are refused',
 'Arcs without a destination, with both or neither of radius and centre, with zero radius, with a radius too small to reach the end point, or in radius form returning to the start point, raise GCodeParameterError and produce no motion; valid arcs, including exact half circles, are never refused.',
 ['inputs'], 'all combinations of arc words and values around the validity boundary',
 'No test exercises arc validation (which on the pinned tree dies with NameError).',
 [T, G], [('GCodeArcMove.assert_params', G), ('linearize_arc', T)], ['pygcode.transform.linearize_arc', 'GCodeArcMove.assert_params'])

prop('C18', 'Expanded canned cycles drill the programmed holes safely',
 'Expanding a drilling or boring cycle yields rapid, linear and dwell codes that visit each of the L hole positions in order, traverse between holes no lower than both the start level and the retract level allow, feed (never rapid) into uncut material exactly to the programmed depth, take pecks no deeper than Q with the documented retracts, dwell and feed out where the cycle says so, and finish at the level given by the return mode. Expansion always ends, and cycles that cannot be expanded are refused.',
 ['inputs', 'configurations'], 'all G81/G82/G83/G73/G85/G89 parameter sets with Z below R, L >= 1, both distance modes, both return modes, any start position not below the hole; values with up to 3 decimals',
 'simplify_canned_cycle has no test at all.',
 [T, G], [('simplify_canned_cycle', T), ('_gcodes_abs2rel', G)], ['pygcode.transform.simplify_canned_cycle'])

prop('C19', 'Executing a canned cycle equals executing its expansion',
 'A machine that executes a canned cycle ends at the same position as one that executes the expansion of that cycle from the same state, in absolute and incremental distance mode, for any repeat count and either return mode; the canned cycle moves the axis normal to the active plane only as the return mode says, in every plane.',
 ['inputs', 'histories', 'configurations'], 'all canned cycle blocks and modal repeats, planes G17/G18/G19 (expansion: G17), offsets, L >= 1',
 'Three fixed canned lines in one plane are tested; expansion and execution are never compared.',
 [G, T, M], [('GCodeCannedCycle._process', G), ('simplify_canned_cycle', T)], ['pygcode.Machine.pos', 'pygcode.transform.simplify_canned_cycle'])

prop('C20', 'Generated code traces the same path in both distance modes',
 'The moves generated for an arc or canned cycle in incremental mode, executed from the start position, visit the same absolute positions (zero-length moves aside) as those generated in absolute mode for the same geometry, and rounding errors do not accumulate along the sequence. Non-motion codes in the generated sequence pass through unchanged and in place.',
 ['inputs', 'configurations'], 'all arcs, and canned cycles with values of up to 3 decimals, all start positions, sequences up to thousands of segments',
 'One fixed 7-move list is converted in a test; accumulation needs long sequences.',
 [T, G], [('linearize_arc incremental branch', T), ('_gcodes_abs2rel', G)], ['pygcode.transform.linearize_arc', 'pygcode.transform.simplify_canned_cycle'])

prop('C21', 'Omitting redundant motion words changes no meaning',
 'Printing a code sequence after redundant motion words were omitted, and executing the printed lines, gives the same sequence of executed codes, positions and final modes as the original sequence. A word is omitted exactly when the code repeats the active motion code, never for other groups, and the given codes are not modified.',
 ['inputs', 'histories'], 'all code sequences over motion and non-motion codes, including cancels, dwells and arcs, in absolute mode',
 'One 6-line list is tested and only by looking for leading blanks.',
 [U, G], [('omit_redundant_modes', U), ('GCode.__str__ whitespace prefix', G)], ['pygcode.utils.omit_redundant_modes'])

prop('C22', 'Splitting codes is a partition around the first match',
 'Splitting a code list by a code class gives three lists whose concatenation is the given list (in execution order by default, in given order when sorting is off), the middle one holding exactly the first instance of that class or nothing, with no instance of the class in the first list; without a match everything is in the first list. The given list is not modified.',
 ['inputs'], 'all code lists up to 12 codes and all code classes, sorted or not',
 'Two fixed lists and one class are tested.',
 [G], [('split_gcodes', G)], ['pygcode.split_gcodes'])

prop('C23', 'pygcode-norm output runs the same program',
 'For every valid input program and every combination of formatting options, executing the output of pygcode-norm performs the same motions (kind, end point, arc and cycle parameters to 3 decimals) under the same feed, speed, tool, spindle, coolant, plane, unit and coordinate settings, in the same order, as executing the input. With arc linearisation or canned expansion on, each arc or selected cycle is replaced by linear or rapid moves that end where it ended and satisfy the arc error or hole geometry, and everything else is unchanged.',
 ['programs', 'configurations'], 'all programs over the supported codes (outside recorded findings) x all option combinations',
 'The scripts are only started with --help.',
 ['scripts/pygcode-norm', M, T, U], [('write/split_and_process/main loop', 'scripts/pygcode-norm')], ['scripts/pygcode-norm stdout'])

prop('C24', 'pygcode-norm options deliver what they say',
 'With --singles every output line holds at most one command; with --full every line with parameters names its code; --rm_comments leaves no comment, --rm_blanks no empty line, --rm_whitespace no blank inside a block, --rm_gcodes none of the listed codes, --rm_invalid_modal no unassignable words and no refusal; arc and canned-cycle options apply the method given for each direction, the precision given, and expand only the cycles listed; unless removed by option, comments and macros are all still there, and without options blank lines too. The finalising options end the program with exactly the requested spindle stop, safe-height, planar-origin and zero-height moves in absolute mode, the safe height being the given one or the highest level reached.',
 ['programs', 'configurations'], 'all programs x all option combinations',
 'No script test exists.',
 ['scripts/pygcode-norm'], [('write, argument handling, finalising section', 'scripts/pygcode-norm')], ['scripts/pygcode-norm stdout'])

prop('C25', 'pygcode-crop keeps the right lines and restores the state',
 'The output of pygcode-crop is, after a preamble, exactly the lines from the first line satisfying all "from" conditions up to, not including, the first line from there on satisfying all "to" conditions (line numbers count from 1, positions are those after the line; if the first kept line itself satisfies them, nothing is kept). Executing preamble and kept lines from any start performs the same cutting motions, from the same position and under the same modes, as the original program performs on those lines, and the preamble raises to the highest level reached before moving sideways and moves down last.',
 ['programs', 'configurations'], 'all programs over linear, rapid and arc motion and modes, all range expressions over n, x, y, z, a, b, c with every comparison operator',
 'The script is only started with --help.',
 ['scripts/pygcode-crop', M], [('range_type, cropping loop', 'scripts/pygcode-crop'), ('Machine.__copy__', M)], ['scripts/pygcode-crop stdout'])

prop('C26', 'User-defined codes are first-class',
 'A code class added by the user (fixed word or matching rule, own parameters, modal group, execution order and processing) before the first parse is recognised in text, binds its parameters, takes its place in the execution order, its modal group and its effect on the machine, and disturbs no built-in code. Two classes claiming the same fixed word are refused, at every parse.',
 ['configurations', 'programs'], 'all sets of user classes over unused words, letters and groups',
 'The documented extension mechanism has no test.',
 [G, M], [('build_maps, _subclasses', G), ('GCode.process', G)], ['pygcode.GCode subclassing', 'pygcode.Block', 'pygcode.Machine'])

prop('C27', 'Any text line is accepted or refused cleanly, without side effects',
 'Any single line of printable text either parses or raises one of the documented errors (word/parameter/block-format error, or AssertionError for conflicting codes), in bounded time; parsing is deterministic and stateless. Running a parsed block on a machine does not change the block: it prints the same and gives the same result when run on another machine in the same state.',
 ['inputs', 'histories', 'programs'], 'all printable-ASCII lines up to 400 characters (random, mutated from real files, adversarial repetitions)',
 'Only well-formed sample files are parsed; arbitrary text, re-processing and history dependence are not.',
 [L, B, W, G, M], [('Line, Block, text2words, words2gcodes', L), ('Machine.process_block', M)], ['pygcode.Line', 'pygcode.Machine.process_block'])

prop('C28', 'Code objects are consistent however they are built and edited',
 'A code built from text, from words or from keyword parameters is the same code: equal, with the same text, the same parameter attributes and the same parameter dictionary. Setting a parameter attribute is reflected in all of these and in the rendered text; an accepted but unset parameter reads as None, and a letter the code does not accept is refused as parameter and is no attribute. Equality and ordering of words are consistent (equal words hash equally and compare equal to their text; ordering is total by letter then value).',
 ['inputs', 'histories'], 'all supported code classes x accepted and non-accepted letters x values x edit sequences',
 'Tests read two attributes of one code.',
 [G, W], [('GCode.__init__/__getattr__/__setattr__/get_param_dict', G), ('Word comparison operators', W)], ['pygcode.GCode*', 'pygcode.Word'])

prop('C29', 'Frame rotations and projections are geometrically exact',
 'The rotation aligning one direction with another maps the first onto the second for every pair of directions (parallel and opposite included); the rotation between two right-handed frames maps both axes of the first onto those of the second; projecting onto a plane removes exactly the normal component and is idempotent. Each of the three plane selections carries a rotation that maps the XY plane onto its plane with its normal as the image of Z.',
 ['inputs'], 'all non-zero vectors and perpendicular pairs, including degenerate alignments',
 'No test calls the geometry helpers; degenerate alignments have measure zero in any sample.',
 [U, G], [('quat2align, quat2coord_system, plane_projection', U), ('GCodePlaneSelect.quat', G)], ['pygcode.utils', 'GCodeSelect*Plane.quat/.normal'])

prop('C30', 'The printed machine mode re-establishes the mode',
 'Printing the mode of a machine and executing that text on a machine without any mode gives a machine in the same mode, and that line is accepted as one block. A new machine starts in its declared default mode at the origin.',
 ['histories', 'configurations'], 'all modes reachable by programs over the supported codes (outside recorded findings), all default-mode texts',
 'The printed mode, which pygcode-crop writes into its output, is never parsed by a test.',
 [M, G], [('Mode.__str__/Mode.__init__', M)], ['str(machine.mode)', 'pygcode.NullMachine', 'Mode.default_mode'])

prop('C31', 'Output depends on the input alone',
 'What the library shows for an input (parsed words and codes, texts, machine positions and modes, generated arc segments and canned-cycle moves, and the text written by the two scripts) is a function of that input and the options: the same in every process, for every hash seed, in whatever order and however often inputs are treated in one process.',
 ['inputs', 'histories', 'configurations'], 'all programs, arcs, cycles and script runs; all hash seeds; all orders and repetitions of them in one process',
 'Tests run each input once, in one order and one process, under a fixed hash seed.',
 [W, B, L, G, M, T, U], [('global word map, class maps', G), ('sets of axes and words', M)], ['two processes compared', 'pygcode-norm/pygcode-crop stdout'])

prop('C32', 'Independent objects may be used from several threads',
 'Threads that parse, execute, linearise and expand with objects of their own get the results they would get alone, however their execution is interleaved, also when they make the first use of the library in the process.',
 ['schedules', 'inputs'], 'all interleavings (at source-line granularity) of 2 to 8 threads treating any inputs',
 'Tests have one thread; a race needs a switch at a particular line.',
 [G, M, W, T], [('build_maps', G), ('module-level caches and class attributes', M)], ['pygcode.Line', 'pygcode.Machine', 'pygcode.transform'],
 [{'name': '_gcode_word_map', 'meaning': 'word to class map built on first use', 'where': G}])

prop('C33', 'Work is proportional to the program, and nothing is retained',
 'Processing a program again and again on one machine costs the same every time and leaves the machine the same size; linearisation, canned-cycle expansion, omission of modes, splitting and parsing cost in proportion to what they read and write; lines, machines and generators that were dropped leave no memory behind.',
 ['inputs', 'histories'], 'all programs repeated any number of times; arcs, cycles, code lists and comments of any size',
 'Tests treat short inputs once; growth shows only over long histories.',
 [W, B, L, G, M, T, U], [('Machine.process_gcodes, Mode.set_mode', M), ('linearize_arc, simplify_canned_cycle', T)], ['executed lines counted', 'objects held by a machine', 'memory blocks of the process'])

prop('C34', 'Lines, blocks and words show what was written',
 'A line gives back the text it was made from; the text of its block holds exactly the written words with single blanks between them. A word letter asked of a block as attribute gives the first word of that letter or None, other names are no attributes; a block is true when it has words, and its length is its codes plus one for unassigned words. A single word reads as that word, several are refused, none is None; the dictionary of words holds exactly the letters asked for. Lines put together from parts, and codes edited afterwards, show their present content wherever it is read.',
 ['inputs', 'histories'], 'all parseable lines in any layout, and all lines built from codes, words, comments and macros and edited',
 'Tests read the words of a handful of blocks; the views of a line are otherwise unread.',
 [L, B, W, G], [('Line.text, Block.text, Block.__getattr__/__len__/__bool__', B), ('str2word, words2dict', W)], ['pygcode.Line', 'pygcode.Block', 'pygcode.words'])

prop('C35', 'Asking a machine changes nothing and foretells what executes',
 'Reading anything from a machine, its mode, state, positions or a block (values, texts, copies, conversions, the codes a block would execute, the moves an arc or cycle would make), and changing what such a read hands out as result, leaves machine and block as they were; the program continues exactly as if nothing had been asked. The codes a machine announces for a block are the codes it executes, in that order, and it announces none exactly when it refuses the block.',
 ['inputs', 'histories'], 'all programs on machines with any axes and default modes, with any queries between any blocks',
 'Tests never compare a machine before and after a query.',
 [M, G, B, T, U], [('Machine.modal_gcode/block_modal_gcodes/abs2work/work2abs/pos', M), ('Position.vector/values', M)], ['pygcode.Machine', 'pygcode.Machine.block_modal_gcodes', 'pygcode.Position'])

prop('C36', 'A dialect decides how words are read and written wherever it is chosen',
 'A dialect gives each word letter a value class, a pattern of its text and a printed form. Text, blocks and words read under a dialect, whether named for that call or chosen with dialects.set_default(), have exactly the letters of that dialect, values read by its patterns, and print in its form; a letter it lacks is refused (and is no attribute of a block). Setting the default changes what get_default() returns and what is read from then on, not what was read before; several dialects used side by side do not affect each other.',
 ['inputs', 'histories'], 'all dialects defined by word maps, all texts under them, all orders of default changes and named uses',
 'Tests use the built-in dialect only.',
 [D, W, B], [('dialects.get_default/set_default', 'src/pygcode/dialects/__init__.py'), ('Word, text2words', W), ('Block.__init__', B)], ['pygcode.dialects', 'pygcode.words', 'pygcode.Block'])

prop('C37', 'The scripts stop at a line they cannot treat, and say so',
 'When pygcode-norm or pygcode-crop comes to a line which cannot be read, or which the machine cannot execute, it ends with a failing status and a message after printing exactly what the lines before call for: the bad line is not passed over and nothing that follows it is printed. Unintelligible options are refused with nothing printed. File and standard input give the same output; the input file and its folder are left as they were.',
 ['inputs', 'configurations'], 'all programs with a line that cannot be read or executed, all options of both scripts',
 'No test runs a script on a bad program.',
 ['scripts/pygcode-norm', 'scripts/pygcode-crop', M, W, B], [('main loop', 'scripts/pygcode-norm'), ('main loop', 'scripts/pygcode-crop')], ['scripts/pygcode-norm', 'scripts/pygcode-crop'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as fh:
    for p in P:
        fh.write(json.dumps(p) + '\n')
print(len(P))
