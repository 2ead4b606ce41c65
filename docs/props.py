PROPS = []


def P(**k):
    PROPS.append(k)


P(id='C01', title='Inputs are never modified behind the caller\'s back',
  statement='No public routine changes the contents of the arrays, dictionaries, lists, containers or objects that its caller '
            'passes in, except the arguments its interface declares to be updated in place. When a routine offers a choice between '
            'working in place and on a copy, the copy mode leaves the input, including everything nested inside it, untouched.',
  over=['inputs', 'configurations', 'histories'],
  forall='every public function and method, every argument, every setting of in-place/copy switches, every value',
  why='A test compares the result of one call and only rarely re-reads its inputs; aliasing bugs show up on the second use of an '
      'object, for particular dtypes, shapes or option settings the tests do not sample.',
  files=['hera_cal/abscal.py', 'hera_cal/utils.py', 'hera_cal/redcal.py', 'hera_cal/apply_cal.py', 'hera_cal/vis_clean.py',
         'hera_cal/datacontainer.py', 'hera_cal/io.py', 'hera_cal/lstbin.py', 'hera_cal/lst_stack'],
  mech=[('defensive copies (deepcopy, .copy(), np.array) before in-place arithmetic', 'throughout hera_cal'),
        ('inplace / copy switches', 'hera_cal/datacontainer.py, hera_cal/abscal.py, hera_cal/redcal.py, hera_cal/utils.py')],
  technique='interprocedural alias and mutation (effect) analysis over the syntax tree',
  note='Every public function x argument (and each not-in-place mode) is an obligation; a may-write not in the reviewed in-place '
       'contract is reported with its call chain. Trusts the model of numpy/pyuvdata/stdlib effects; aliasing through third-party '
       'objects is not followed.',
  design='''
*How decided.* `hcsa/effects.py` abstractly interprets every function of the package: values carry the set of (root, depth) objects
they may alias (parameters, attributes of parameters, fresh objects), with numpy view/copy semantics, container element depth,
constant-boolean contexts (`inplace=False` is analysed as a separate mode) and call-graph summaries to a fixpoint. A store,
augmented assignment, `del`, in-place method or `out=` on something that may alias a parameter is an effect on that parameter. Obligation:
for each of the ~590 public functions x parameter x mode the effect must be listed in `contracts/c01.json` (arguments documented or
named as updated in place). The tests sample a few calls and rarely look at inputs again; the analysis covers every path.
*Bounds.* No bound on inputs; precision bounded by the alias model (unknown external calls are assumed pure). ~5 s.
''')

P(id='C02', title='Existing files are only replaced on request',
  statement='No routine or command-line tool that offers an overwrite/clobber switch replaces, truncates or deletes a file that already exists '
            'unless that switch was turned on. This holds for every output of the routine (main product, secondary products such as metadata, '
            'npz, delta gains or interleaved files), for every output format it offers, and wherever the output path comes from. The '
            'switch is off by default wherever it is today.',
  over=['inputs', 'configurations', 'histories'],
  forall='every routine and script with a clobber/overwrite switch, every file-writing operation it can reach, every path and format',
  why='Tests write into fresh temporary directories or pass clobber=True; whether the right path is tested on every branch only matters '
      'when a real file is already there, and then data are lost.',
  files=['hera_cal/io.py', 'hera_cal/vis_clean.py', 'hera_cal/redcal.py', 'hera_cal/abscal.py', 'hera_cal/smooth_cal.py', 'hera_cal/lstbin.py',
         'hera_cal/lst_stack/io.py', 'hera_cal/lst_stack/wrappers.py', 'hera_cal/utils.py', 'hera_cal/reflections.py', 'scripts'],
  mech=[('clobber forwarded to the pyuvdata writers', 'hera_cal/io.py and callers'),
        ('exists-and-not-overwrite guards', 'hera_cal/io.py, hera_cal/lst_stack/io.py, hera_cal/reflections.py, hera_cal/lstbin.py')],
  technique='gated value numbering of every writer path; guards decided as propositional formulas',
  note='Every file-creating/removing call reachable from a routine with a switch is an obligation. Trusts that pyuvdata writers honour clobber; '
       'two path expressions count as the same file only if value-numbered equal. uvfits exemptions are listed in contracts/c02.json.',
  design='''
*How decided.* `hcsa/terms.py` gives every expression a hash-consed term (joins become gated terms, private helpers are inlined) and every
call its path condition. For each file-creating or -removing call reachable from a routine with a switch the check asks whether the path
condition is satisfiable with `switch = off` and `target exists = true`, the boolean skeleton of the guards being decided by a finite truth
table. A writer that receives the switch itself (or something implying it), or whose guard tests the *same* path term, is safe; everything else
is reported with its call site. Defaults of switches are compared with the reviewed list.
*Bounds.* All paths; path identity is structural. ~4 s, ~135 obligations.
''')

P(id='C03', title='Command-line options do what the library parameter they stand for does',
  statement='For every script, each option its parser accepts reaches the library parameter it stands for, with the same sense (a negated switch stays '
            'negated) and converted to the type that parameter needs; none is ignored, exchanged with another or replaced by a constant. A script reads only '
            'options its parser defines, uses only names that exist and passes only arguments the library routine accepts, including all required '
            'ones. Leaving an option out means the library default (apart from the documented differing command-line defaults).',
  over=['inputs', 'configurations'],
  forall='every script, every option, every value, every combination of options',
  why='Scripts are not exercised by the test suite at all; a misrouted or ignored option only shows when that option is used in production.',
  files=['scripts', 'hera_cal/_cli_tools.py', 'hera_cal/redcal.py', 'hera_cal/abscal.py', 'hera_cal/apply_cal.py', 'hera_cal/smooth_cal.py',
         'hera_cal/vis_clean.py', 'hera_cal/frf.py', 'hera_cal/delay_filter.py', 'hera_cal/lstbin.py', 'hera_cal/reflections.py'],
  mech=[('argparse parsers returned by *_argparser functions', 'hera_cal/*.py'), ('keyword calls through run_with_profiling', 'scripts/*.py')],
  technique='value numbering from parser definition to library call, signature and default agreement',
  note='All 25 scripts, 582 options. A keyword set that cannot be enumerated, or an unresolvable callee, is accepted (no alarm). '
       'Type conversion functions written by hand are not looked into.',
  design='''
*How decided.* `hcsa/cli.py` value-numbers each script including the parser function it uses (inlined), collects the options (`dest`, conversion, nargs,
default) and follows `args.x` / `vars(args)` dictionaries (pop, del, update, filter_kwargs) into the keyword maps of the library calls. Rules: options
read but not defined, defined but not consumed; keywords not accepted (through **kwargs forwarding chains), required arguments missing, routines that do not
exist; option -> parameter table with polarity (contracts/c03.json); command-line default versus signature default (reviewed exceptions
listed as exact value pairs); conversions. Nothing depends on how the script is laid out.
*Bounds.* None on values. ~2 s, ~1900 obligations.
''')

P(id='C04', title='Every option given by the caller is honoured',
  statement='Every option that a public routine accepts takes part in what the routine does: it is passed on to the lower-level operation '
            'it configures on every path that performs that operation. It is never silently dropped, replaced by that operation\'s default '
            'or by a constant, or exchanged with another option.',
  over=['inputs', 'configurations'],
  forall='every public routine, every option, every value of that option and every combination with other options',
  why='With hundreds of options the tests exercise mostly defaults; a forwarded keyword that is dropped, hard-coded or swapped is '
      'invisible unless a test uses a non-default value of that option through that entry point and checks its numerical effect.',
  files=['hera_cal/abscal.py', 'hera_cal/redcal.py', 'hera_cal/smooth_cal.py', 'hera_cal/vis_clean.py', 'hera_cal/frf.py',
         'hera_cal/delay_filter.py', 'hera_cal/reflections.py', 'hera_cal/lstbin.py', 'hera_cal/lst_stack', 'hera_cal/io.py', 'hera_cal/utils.py'],
  mech=[('keyword forwarding between layers', 'run functions -> classes -> solvers in every module')],
  technique='interprocedural parameter-flow (taint) analysis against a reviewed option->operation table',
  note='Obligations are (routine, option, operation, argument) tuples mined and reviewed on the repaired tree, plus option-ignored for all '
       'options. May-flow: a value still derived from the option counts as honoured, so wrong arithmetic on the option is not seen.',
  design='''
*How decided.* `hcsa/flow.py` propagates every parameter (and `self.x`) through assignments, containers, **kwargs dictionaries, closures,
private helpers (inlined) and control dependence to the arguments of each call of another operation (public or external). The table
`contracts/c04.json` holds the reviewed (option -> operation, argument) pairs, which constructor options are stored on the object, and which
options must influence the returned value; a pair is judged only where the operation is still called. Independently of the table, any
public option that reaches nothing observable is reported.
*Bounds.* All paths, all values; may-flow (see level note). ~2 s, ~5400 obligations.
''')

P(id='C12', title='Messages on or off never changes results',
  statement='Switching diagnostic output on or off (verbose, silence, quiet and similar switches) changes only what is printed. Returned values, the contents of '
            'objects, files written, exceptions raised and the work performed are the same for either setting, in every routine that takes such a switch.',
  over=['inputs', 'configurations'],
  forall='every routine with a verbosity switch, every input, both settings',
  why='Tests run each routine with one setting of the switch; a statement that slipped into (or out of) the printing branch only shows up with the other '
      'setting, typically only in production.',
  files=['hera_cal/abscal.py', 'hera_cal/redcal.py', 'hera_cal/lstbin.py', 'hera_cal/utils.py', 'hera_cal/io.py', 'hera_cal/flag_utils.py', 'hera_cal/frf.py',
         'hera_cal/reflections.py', 'hera_cal/vis_clean.py'],
  mech=[('if verbose: print(...) blocks and utils.echo', 'throughout hera_cal')],
  technique='non-interference (information-flow) analysis over gated value numbers',
  note='Every return, store, raise, yield and effectful call in the functions using a switch is an obligation. Calls that only compute what is printed are '
       'assumed pure unless they are mutators or repository functions with stores.',
  design='''
*How decided.* For each function that mentions a verbosity switch the value-numbering walk yields all observable events with their value terms and path
conditions. The switch may reach only printing/progress calls and parameters that are themselves verbosity switches; an event whose value or path condition
depends on it (other than through a progress wrapper such as `tqdm(it) if verbose else it`) is reported, as is a one-shot iterator consumed only when printing.
*Bounds.* All paths and values; ~100 functions, a few seconds.
''')

P(id='C11', title='Unusable input is rejected, not processed',
  statement='Where a public routine, class or configuration object refuses its input with an exception (unknown mode names, inconsistent shapes or array lengths, missing required '
            'companions of an option, mutually exclusive options, out-of-range values, wrong types, non-redundant or missing antennas/baselines), it refuses all of that input: each existing '
            'check is made before the work it protects, on every path that led to it, and is neither removed, narrowed by an extra condition, applied to fewer elements, nor '
            'shifted at its boundary (< versus <=).',
  over=['inputs', 'configurations'],
  forall='every public routine and validated class, every rejection it makes, every input satisfying the rejection condition',
  why='About half of the ~480 rejections are not exercised by any test, and a test samples one bad input per rejection: a narrowed condition still passes.',
  files=['hera_cal/abscal.py', 'hera_cal/apply_cal.py', 'hera_cal/datacontainer.py', 'hera_cal/io.py', 'hera_cal/lst_stack', 'hera_cal/redcal.py', 'hera_cal/smooth_cal.py',
         'hera_cal/vis_clean.py', 'hera_cal/utils.py', 'hera_cal/red_groups.py', 'hera_cal/nucal.py', 'hera_cal/frf.py', 'hera_cal/lstbin.py'],
  mech=[('raise / assert statements guarded by conditions on the inputs', 'throughout hera_cal'), ('attrs field validators', 'hera_cal/lst_stack/config.py')],
  technique='guard extraction by gated value numbering; implication between recorded and current rejection conditions (finite propositional + order reasoning)',
  note='482 rejection clauses of 189 routines/classes. A test rewritten over other quantities is not judged (no alarm); only conditions over the same quantities are compared.',
  design='''
*How decided.* `hcsa/guards.py` collects every raise/assert reachable in a public routine (private helpers inlined) as a clause: conjunction of its path condition and test, over
canonical atoms (`len(x)` as non-negative integer, `in (consts)` as equalities, `isinstance` per class, any/all over elements by a generic element, loops equal to comprehensions).
`contracts/c11.json` records the clauses of the reviewed tree. Obligation: old clause => disjunction of all current clauses, decided by a small propositional search with
order/equality axioms; plus an exists/forall comparison. Clauses that moved into another public routine that is called are found by a deep inlining pass. Helper extraction,
if/assert/else forms, reordering and added modes do not alarm (selftest/guardmut.py: 4 rewriting operators, 480 rewrites quiet; deletion 110/120, narrowing 115/120, and/or swaps 26/28,
boundary shifts 17/17, any/all 26/31 reported - the rest are redundant checks or strengthenings).
*Bounds.* All inputs; propositional abstraction of the conditions. ~3 s.
''')

P(id='C07', title='Flags are never lost',
  statement='Whenever flags of inputs are combined into flags of an output (applying calibration, averaging in time, frequency or across redundant or LST-aligned baselines, merging '
            'gain files, smoothing, filtering, reading and writing with external flags), a sample that any contributing flag source marks bad, in the sense documented for that operation '
            '(any input for gain x data, all inputs for averages), stays marked bad in the output. An update of existing flags only adds flags, unless the caller asked to overwrite '
            'them. This includes the flags of both antennas of a baseline, antennas without a gain solution, and flags passed through files.',
  over=['inputs', 'configurations', 'histories'],
  forall='every public routine that produces, stores, writes or forwards flags, every flag source it takes, every flag pattern and option setting',
  why='Tests compare a few flag patterns; a lost source matters only for the pattern in which that source alone is flagged, and flagged samples look like ordinary data downstream.',
  files=['hera_cal/apply_cal.py', 'hera_cal/abscal.py', 'hera_cal/smooth_cal.py', 'hera_cal/flag_utils.py', 'hera_cal/frf.py', 'hera_cal/vis_clean.py', 'hera_cal/utils.py', 'hera_cal/io.py',
         'hera_cal/lstbin.py', 'hera_cal/lst_stack', 'hera_cal/redcal.py'],
  mech=[('flags combined with |, np.logical_or, +=', 'apply_cal.calibrate_in_place, smooth_cal, flag_utils, vis_clean'), ('nan masking and isfinite', 'apply_cal.calibrate_redundant_solution, lstbin')],
  technique='abstract interpretation of the flag algebra over gated value numbers (coverage sets with path conditions)',
  note='276 (output, source) pairs in 89 routines, plus an intersection rule over all modules. Flags that pass through operations that are not interpreted (third-party calls) are not judged. '
       'Which source must be covered is taken from the reviewed tree.',
  design='''
*How decided.* `hcsa/flagcov.py` computes for every value term the set of flag sources whose being set *forces* the value to be flagged, each with a propositional condition: or/+ = union,
and/* = intersection, not = switch to the dual set, any/all/min/max/sum = quantified labels, where, masked stores (`x[mask] = True`, nan masks seen through isfinite), container
builders, joins gated by their condition. Sources carry the parameter or attribute they come from and the antenna side / time parity they are read with. Sinks: returned values, stores into containers
and attributes, flag arguments of other operations. `contracts/c07.json` records, for the reviewed tree, what must be covered and when; obligation: recorded condition => current condition (decided by
the finite propositional procedure of C11), every call site separately, and no store into an existing flag array that discards it. A separate rule over all modules: two un-negated flag
arrays are never intersected. Rewrites (or/logical_or, where, De Morgan, loops/comprehensions, temporaries, helpers) give the same sets: selftest/covmut.py (4 rewriting operators, 0 of 159
reported).
*Bounds.* All patterns and options; ~2 s.
''')

P(id='C21', title='Flagged or zero-weight samples contribute nothing',
  statement='Wherever data are averaged, fitted or filtered, the weight given to a sample is zero if the sample is flagged in any of the flag sources of that operation or has zero weight in the weights the '
            'caller supplied: caller-supplied weights are never used without the flags, and both antennas\' flags, the data\'s and the model\'s flags all count. Options that use weights pass them on '
            'to the solver at every call.',
  over=['inputs', 'configurations'],
  forall='every routine that builds or forwards weights, every flag or weight source it takes, every pattern',
  why='A solver run on flagged samples still returns plausible numbers; tests use few flags, usually at the same place in all sources.',
  files=['hera_cal/abscal.py', 'hera_cal/apply_cal.py', 'hera_cal/utils.py', 'hera_cal/vis_clean.py', 'hera_cal/frf.py', 'hera_cal/smooth_cal.py', 'hera_cal/reflections.py', 'hera_cal/lst_stack',
         'hera_cal/tempcal.py'],
  mech=[('weights built as nsamples * ~flags', 'abscal, utils.red_average, utils.chisq, vis_clean.fourier_filter'), ('weights arguments of solvers and averages', 'throughout hera_cal')],
  technique='abstract interpretation of the weight algebra over gated value numbers (coverage sets with path conditions)',
  note='257 (weight, source) pairs in 94 routines; dual sets of C07. Values passing through uninterpreted operations are not judged; whether an external solver uses the weights is trusted.',
  design='''
*How decided.* Same engine as C07 with the dual set: sources whose being flagged (or zero) forces a weight to be zero (product = union, sum = intersection, ~flags, where, masked stores, nan_to_num of nan masks).
Sinks: weight-named arguments of solvers/averages, stored and returned weights; `contracts/c21.json` is the reviewed table, every call site judged separately.
*Bounds.* All patterns and options; ~2 s.
''')

P(id='C05', title='A baseline asked for in reversed order is the conjugate',
  statement='Everything that can be looked up by baseline gives consistent answers for both orders of the antenna pair: reversing a baseline key exchanges the antennas and conjugates the '
            'polarization; a complex value found or stored under the reversed key is conjugated (a list of redundant baselines has each member reversed), while real and boolean values are not; what is stored '
            'for both orders is stored for both, and a membership test that accepts either order tests both.',
  over=['inputs', 'configurations', 'histories'],
  forall='every container and routine that looks up, stores or tests baselines in reversed order, every key, polarization and dtype',
  why='Tests mostly use keys in the stored order and the parallel-hand polarizations, for which a missed conjugation or an unreversed polarization goes unnoticed.',
  files=['hera_cal/datacontainer.py', 'hera_cal/io.py', 'hera_cal/utils.py', 'hera_cal/red_groups.py', 'hera_cal/nucal.py', 'hera_cal/lstbin.py', 'hera_cal/abscal.py', 'hera_cal/redcal.py',
         'hera_cal/lst_stack'],
  mech=[('reverse_bl / conj_pol', 'hera_cal/utils.py'), ('np.conj on access under the reversed key', 'datacontainer.DataContainer, io.HERAData, lstbin, red_groups')],
  technique='abstract interpretation of an orientation parity (reversed key, conjugated value) over gated value numbers',
  note='41 values in 26 routines plus either-order membership tests. What is conjugated where is taken from the reviewed tree; keys whose orientation is not syntactically derived from another key are not judged.',
  design='''
*How decided.* `hcsa/orient.py` gives each value term the set of (source, reversed key?, polarization reversed?, conjugated?) contributions with a propositional condition. Reversal is recognised semantically:
`reverse_bl`, swapped pairs, `[::-1]`, `[1::-1]`, `conj_pol`, double reversal cancels; conjugation by `conj`/`conjugate`, reversal of list members in loops or comprehensions. Obligation per sink (returned value, store,
argument): every contribution of the reviewed table `contracts/c05.json` still occurs with the same parity under the same conditions, and no contribution under a reversed key has appeared with the other parity; stores
made under the reversed key are still made; membership tested under both orders is still tested under both; `reverse_bl` itself returns the swapped pair with the conjugated polarization.
*Bounds.* All keys and dtypes; ~2 s.
''')

P(id='C06', title='Gains enter as g_i conj(g_j), with the power the convention asks for',
  statement='Wherever gains meet visibilities or other gains, the gain of the first antenna of the baseline enters unconjugated and the gain of the second conjugated, with the power the gain convention asks '
            'for (divide removes, multiply applies), old gains are taken out exactly as the new ones are put in, noise and weights are scaled by the squared magnitude, and products of solutions '
            '(first calibration x logcal, degenerate terms, abscal x redcal) contain each factor exactly once.',
  over=['inputs', 'configurations'],
  forall='every routine that applies, removes, combines, normalises or solves for gains, every antenna pair, polarization and convention',
  why='Tests often use unit or real gains, identical gains on both antennas or one convention, for which a dropped conjugation, a wrong side or a doubled factor changes nothing.',
  files=['hera_cal/apply_cal.py', 'hera_cal/abscal.py', 'hera_cal/redcal.py', 'hera_cal/utils.py', 'hera_cal/smooth_cal.py', 'hera_cal/io.py', 'hera_cal/lst_stack/calibration.py', 'hera_cal/tempcal.py', 'hera_cal/nucal.py',
         'hera_cal/skycal.py'],
  mech=[('gi * np.conj(gj) with an exponent chosen by gain_convention', 'apply_cal.calibrate_in_place, redcal, abscal, utils.chisq'), ('merging of gains as products', 'abscal.merge_gains, redcal')],
  technique='abstract interpretation of a monomial algebra (factor, antenna side, conjugation, power) over gated value numbers',
  note='60 products in 34 routines. The reviewed monomials are in contracts/c06.json. Factors that pass through solvers or uninterpreted calls are opaque; the numerical correctness of the solvers is not claimed.',
  design='''
*How decided.* `hcsa/gaincov.py` expands every value term into factors (source, antenna side 0/1 derived from the unpacking or indexing of the baseline key, conjugated?) with rational powers and the propositional
condition under which the power applies: * and / add powers, ** scales (conditional exponents such as `{'multiply': 1, 'divide': -1}[gain_convention]` split by condition), conj flips, abs gives half g and half conj g,
sums take the union. Obligation per sink: the recorded monomial (`contracts/c06.json`) equals the current one: no factor lost, on the other antenna, with the other conjugation, another power, or under other
conditions; no additional occurrence of a source. Commuting, associating, replacing / by * with power -1, temporaries, helpers and np.divide/multiply give the same monomial.
*Bounds.* All values; ~2 s.
''')

P(id='C10', title='Results depend on the arguments only',
  statement='Calling a library routine twice with equal arguments gives equal results, in the same process or in another one. No call changes what a later call sees: mutable default '
            'values, module-level tables and class attributes are never modified or handed out for modification. No returned value, stored attribute or element, or argument passed on '
            'takes its order (or the choice of an element) from a hash set of strings, or its value from the clock, unseeded random numbers, the process or an unsorted directory listing.',
  over=['inputs', 'histories', 'schedules'],
  forall='every routine of the package, every sequence of calls, every string hash seed',
  why='A test makes one call in one process with one hash seed. Sharing through a default value appears at the second call; hash order appears only in another process, and tests compare '
      'sorted or single-element results.',
  files=['hera_cal/abscal.py', 'hera_cal/apply_cal.py', 'hera_cal/datacontainer.py', 'hera_cal/io.py', 'hera_cal/redcal.py', 'hera_cal/smooth_cal.py', 'hera_cal/utils.py',
         'hera_cal/frf.py', 'hera_cal/lstbin.py', 'hera_cal/nucal.py', 'hera_cal/red_groups.py', 'hera_cal/flag_utils.py', 'hera_cal/lst_stack'],
  mech=[('51 mutable default values, only read', 'throughout hera_cal'), ('sorted() around sets of keys, antennas and polarizations', 'redcal.get_reds, abscal.match_baselines, io, smooth_cal'),
        ('string tables SPLIT_POL, JOIN_POL', 'hera_cal/utils.py')],
  technique='alias/effect analysis with defaults, globals and class attributes as roots; order-taint dataflow from hash sets to values leaving a routine',
  note='Analyses all functions for shared state and all library routines for hash order (private helpers followed two levels). Order that only affects dictionary insertion order or '
       'floating point summation order is not claimed. Reviewed exceptions (sets with one element, symmetric uses) with reasons in contracts/c10.json.',
  design='''
*How decided.* (a) The effect engine of C01 treats each mutable default value, module global and class attribute as a root: a write through any alias, or a return/store of a mutable default
into an object that others modify, is reported. (b) `hcsa/order.py` classifies value terms as hash set / sequence in hash order / element picked from a set; sorting, len, min, unique, membership,
set and dict construction end the taint, list/tuple/array/zip/concatenate/comprehensions keep it, appending inside a loop over a set creates it. Sinks: returned values, attribute and element
stores, arguments of public routines. The same walk looks for clock/random/process/listing sources. Seven genuine defects were found and repaired (see known_findings.txt).
*Bounds.* All paths; order taint not followed through attributes of objects. ~10 s.
''')

P(id='C19', title='Quantities keep their units across every conversion',
  statement='Frequencies are handled in Hz, Julian dates and their differences in days, LSTs in radians, antenna positions in metres, delays and fringe rates in the unit each routine documents (s or ns, Hz or mHz); '
            'wherever a quantity is passed to a routine that takes another unit, returned, stored, compared with or combined with other quantities, it is multiplied by exactly the conversion factor that '
            'belongs there (86400 s/day, 12/pi h/rad, 180/pi, 1e9 ns/s, 1e-3 for mHz, 2 pi for phases, c for light-travel times), once, on every path and for every option.',
  over=['inputs', 'configurations'],
  forall='every use (call argument, comparison, product, attribute, return value) of a frequency, time, LST, delay, fringe rate, angle or length in the public routines',
  why='Many conversions cancel in relative weights, or act on defaults and optional arguments tests never exercise with physical values; a factor lost on one path gives plausible numbers.',
  files=['hera_cal/abscal.py', 'hera_cal/apply_cal.py', 'hera_cal/frf.py', 'hera_cal/io.py', 'hera_cal/nucal.py', 'hera_cal/noise.py', 'hera_cal/redcal.py', 'hera_cal/reflections.py', 'hera_cal/smooth_cal.py',
         'hera_cal/tempcal.py', 'hera_cal/utils.py', 'hera_cal/vis_clean.py', 'hera_cal/lst_stack'],
  mech=[('time conversions', 'apply_cal.calibrate_and_red_avg, abscal.build_data_wgts, frf (SDAY_SEC), redcal (SEC_PER_DAY), vis_clean, tempcal'),
        ('delays and fringe rates', 'reflections.ReflectionFitter, vis_clean.VisClean, frf'), ('phases 2 pi f tau', 'abscal, utils, reflections.construct_reflection')],
  technique='scale-factor (units) inference over value-numbered products, compared per use with the reviewed factors',
  note='Factors are exact rationals times powers of pi and c. A use whose product mixes in an unknown call is not judged. frf converts days with the sidereal day (a documented approximation), kept as it is.',
  design='''
*How decided.* `hcsa/units.py` splits every value-numbered term into (constant factor) x (monomial of dimensional quantities): products, quotients, powers, `np.outer`, `np.median`/`diff`/slices (transparent), constants resolved through
module constants and `astropy`/`scipy` constants; sums need equal factors. For each use of a monomial the factor is compared with the one recorded in contracts/c19.json for that
(routine, use, monomial): `t*24*3600` and `t*86400` are one factor, so are `deg*pi/180` and `np.radians(deg)`.
*Bounds.* All inputs. Wrong units of a literal default given by the user are outside. ~4 s.
''')

P(id='C22', title='Averages are normalized by the weights that were summed',
  statement='Wherever the package forms a weighted mean (of visibilities over redundant baselines, times, nights or LST bins, of gains over antennas or cadences, of integration times, '
            'or chi^2 per degree of freedom), the quantity it divides by is the sum of exactly the weights that multiplied the data: over the same elements, along the same axis, with '
            'every weight included; running sums and their running normalizations count the same contributions, each exactly once.',
  over=['inputs', 'configurations'],
  forall='every weighted mean and every pair of running sum and normalization in the public routines, all weights, flags and shapes',
  why='With unit weights and no flags (the usual test data) a wrong normalization gives the same numbers; it only shows for uneven nsamples, flags or integration times.',
  files=['hera_cal/utils.py', 'hera_cal/frf.py', 'hera_cal/lstbin.py', 'hera_cal/apply_cal.py', 'hera_cal/abscal.py', 'hera_cal/redcal.py', 'hera_cal/skycal.py',
         'hera_cal/tempcal.py', 'hera_cal/lst_stack/averaging.py', 'hera_cal/lst_stack/binning.py', 'hera_cal/lst_stack/metrics.py'],
  mech=[('weighted averages', 'utils.red_average, frf.timeavg_waterfall, lst_stack.averaging, apply_cal.calibrate_and_red_avg, abscal.avg_data_across_red_bls, tempcal.avg_gain_ants'),
        ('running chi^2 and degrees of freedom', 'utils.chisq, apply_cal.calibrate_and_red_avg, skycal.expand_sky_gains, redcal.RedSol.extend_gains')],
  technique='value numbering of quotients of sums; factor matching between numerator and denominator; path-condition comparison of paired accumulators',
  note='19 weighted means and 7 accumulator pairs are obligations. Which weight is right for the science (inverse variance, nsamples) is not decided; C07 covers that flagged data get weight zero.',
  design='''
*How decided.* `hcsa/wmean.py` looks at every quotient in the value-numbered terms of a public routine (helpers inlined, in-place division, `np.divide`, clips, `np.where` and masks that only guard
against division by zero removed). If both sides are sums, the non-constant factors of the denominator must all be factors of the numerator, along the same axis and over the same elements; every
recorded mean (contracts/c22.json) must still exist in that form or as `np.average`, with no weight left over in the numerator. For dictionaries of running sums, the two updates must have the same
key, the same path condition and the same shared weights; `x[k] += x[k] + ...` is reported. It reported one genuine defect on the original tree (utils.chisq, repaired).
*Bounds.* All inputs; means built through third-party calls other than `np.average`/`np.ma.average` are not seen. ~3 s.
''')

P(id='C17', title='Data, flags, counts, times and LSTs are cut and reordered together',
  statement='Arrays that describe the same samples - visibilities or gains, their flags, sample counts, weights, quality metrics, times, LSTs, frequencies, in-painting masks, antenna pairs - stay aligned: wherever a routine selects, '
            'slices, masks, sorts, rolls, interleaves or fills one of them along an axis, the arrays that belong to it get the same selection in the same place, so that sample i of one is always sample i of the others.',
  over=['inputs', 'configurations'],
  forall='every pair of companion arrays in the public and private routines of the package, all shapes, orders, selections and flags',
  why='Test data are often constant along an axis or unflagged, already sorted, or exactly one chunk long, so that a misaligned companion array gives the same numbers.',
  files=['hera_cal/io.py', 'hera_cal/utils.py', 'hera_cal/frf.py', 'hera_cal/vis_clean.py', 'hera_cal/smooth_cal.py', 'hera_cal/lstbin.py', 'hera_cal/abscal.py', 'hera_cal/lst_stack/binning.py', 'hera_cal/lst_stack/averaging.py',
         'hera_cal/lst_stack/calibration.py', 'hera_cal/skycal.py', 'hera_cal/redcal.py'],
  mech=[('selection of data, flags and nsamples', 'io.HERAData, io.HERACal.update, utils.red_average, frf.timeavg_waterfall, lst_stack.binning.lst_align'),
        ('edges and padding', 'vis_clean.truncate_flagged_edges, smooth_cal.time_filter'), ('times and LSTs', 'io.get_file_times, abscal.get_all_times_and_lsts, lst_stack.binning')],
  technique='value numbering of selections (slices, masks, index arrays, reorderings) per array over the value graph and the syntax tree; comparison of the selections shared by recorded pairs of companion arrays',
  note='Pairs that share at least one selection are obligations; whether the selection itself is the right one is not decided here (C26, C07).',
  design='''
*How decided.* `hcsa/together.py` collects, per routine (private helpers inlined), every selection along an axis applied to each array it is given, reads, keeps or builds: slices, masks, index arrays, `take`, `roll`, `flip`,
`delete`, ..., and lists of arrays handed to one routine for the same treatment. Pairs of companion arrays that share selections on the reviewed tree are recorded (contracts/c17.json, only the numbers of common and separate
selections, never what they are). A violation is a pair for which a common selection is gone while one of the two has a selection of its own that it did not have.
*Bounds.* All inputs; entries named by keys (baselines, antennas) are not selections along an axis (C05, C07). ~3 s.
''')

P(id='C26', title='Work done in pieces covers everything exactly once',
  statement='When data are read, filtered, calibrated, averaged or written in pieces (chunks of baselines, integrations, channels or files; per-file shares of a list; time windows; redundant groups packed '
            'into chunks), the pieces together cover every element of the whole exactly once: no gap, no overlap, the last partial piece included, whatever the sizes; no piece is skipped and the loop '
            'is not left early.',
  over=['inputs', 'configurations'],
  forall='every loop over pieces and every index-dependent slice in the package, all lengths and piece sizes (also lengths that are no multiple of the piece size, and one-element pieces)',
  why='Tests use lengths that divide evenly or a single piece; the remainder, off-by-one and overlap cases depend on arithmetic between runtime sizes.',
  files=['hera_cal/io.py', 'hera_cal/utils.py', 'hera_cal/redcal.py', 'hera_cal/delay_filter.py', 'hera_cal/frf.py', 'hera_cal/vis_clean.py', 'hera_cal/chunker.py', 'hera_cal/lst_stack', 'hera_cal/apply_cal.py'],
  mech=[('iterators over baselines, frequencies and times', 'hera_cal/io.py HERAData.iterate_over_*'), ('time slices of partial I/O', 'hera_cal/redcal.py redcal_iteration, hera_cal/apply_cal.py, hera_cal/delay_filter.py'),
        ('baseline chunks', 'hera_cal/utils.py chunk_baselines_by_redundant_groups, hera_cal/io.py baselines_from_filelist_position')],
  technique='symbolic polynomial identities on value-numbered slice bounds (tiling), plus control-flow checks of the loops over pieces',
  note='~40 piecewise slices. The identities are decided exactly (normal forms of polynomials with ceil/floor/min treated by case), no solver; slices whose bounds come from data are not judged.',
  design='''
*How decided.* `hcsa/tiling.py` turns the bounds of every slice that depends on a loop index or a piece number into polynomials over value-numbered atoms and requires `upper(i) == lower(i+1)`,
`lower(0) == start` and that the range of the index reaches the end for every remainder (`ceil` good, `floor`/`round` not). Fills of a larger array must advance by the filled amount. Loops over pieces must
not contain `break`/`return`, their writes and yields must not depend on the piece, and the greedy packing of redundant groups must place each group once on every path.
It reported two genuine defects on the original tree (delay_filter, redcal_iteration; repaired).
*Bounds.* All sizes. ~3 s.
''')

P(id='C08', title='What is saved is what is read back',
  statement='For every product the package writes and reads with its own pair of routines (redundant-calibration metadata, SNAP decoherence files, single-baseline LST-calibration solutions, LST-binning '
            'configuration files, calibration dictionaries kept in HERACal/UVCal arrays), reading returns exactly the quantities that were given to the writer: each under its own name, attached to the '
            'same antenna, polarization, SNAP, night or file, in the original order, with nothing dropped, reordered, swapped, rescaled or reduced in precision, for any set and order of keys.',
  over=['inputs', 'configurations'],
  forall='every field of the five writer/reader pairs and of HERACal.update/build_calcontainers/write_cal, all key sets, orders, shapes and values (including None and ragged lists)',
  why='Round-trip tests use sorted keys, a few antennas, fewer than ten nights and equal-length lists, for which unsorted labels, lexicographic ordering or a wrong axis go unnoticed.',
  files=['hera_cal/io.py', 'hera_cal/lst_stack/config.py', 'hera_cal/lst_stack/calibration.py'],
  mech=[('keys saved next to the stacked arrays', 'io.save_redcal_meta, io.SNAPDecoherence.write, calibration.write_single_baseline_lstcal_solutions'),
        ('numbered datasets, padding and markers', 'lst_stack/config.py LSTBinConfigurator._write, _write_irregular_list_of_paths_hdf5, LSTConfig.write'),
        ('antenna/polarization index tables', 'io.HERACal.update, build_calcontainers, write_cal')],
  technique='symbolic composition of reader and writer over value-numbered terms, normalized by packaging identities',
  note='48 fields of 5 pairs plus 11 array slots. Precision loss is seen for explicit dtypes; what h5py and pyuvdata do with the values, and converters of attrs classes, are trusted. Conversions '
       'between str and bytes, list and array count as packaging.',
  design='''
*How decided.* `hcsa/roundtrip.py` interprets the writer as a table path -> value term (groups, datasets, attributes; loops over literal lists unrolled, loops over dictionaries kept symbolic) and the
reader's outputs as terms over paths; the table is substituted in and the composition normalized: `zip(sorted(D), [D[k] for k in sorted(D)])` is D, `flatnonzero` of a mask set at indices is the indices,
padding and its removal cancel, a marker for None and its removal cancel, numbered datasets read by number give the list back. Each output must equal the recorded one (contracts/c08.json: the saved argument itself in
nearly all cases). Paths do not occur in the result, so renaming a dataset on both sides is silent. An output whose term is not understood is not judged.
*Bounds.* All keys and values. ~1 s.
''')

P(id='C09', title='Every product says where it came from',
  statement='Every file written by a calibration, filtering, averaging or LST-binning routine carries, in its history, the history of the data or calibration it was made from, the text the caller asked to add '
            '(exactly once) and, for the run functions, one stamp of the code version; apply_cal also records the histories of the calibrations and flag files it applied. This holds for every output of the '
            'routine, file type and option, and a history does not grow from one file or iteration to the next. The command-line scripts that do so record their own command line.',
  over=['inputs', 'configurations', 'histories'],
  forall='every write of a calfits, uvh5, uvfits, miriad or HDF5 product in the package and scripts, on every path that reaches it',
  why='Tests check the history of the default output of a few routines; secondary outputs (delta gains, iteration 0, redundant averages, chunked writes) and repeated writes are not looked at.',
  files=['hera_cal/apply_cal.py', 'hera_cal/abscal.py', 'hera_cal/redcal.py', 'hera_cal/io.py', 'hera_cal/vis_clean.py', 'hera_cal/smooth_cal.py', 'hera_cal/lst_stack/io.py', 'scripts'],
  mech=[('history_string', 'utils.history_string; X.history += ... before X.write_*'),
        ('text handed on', 'add_to_history / history parameters of partial_write, write_data, write_cal, write_vis, update_vis, create_empty_uvd'),
        ('source histories', 'apply_cal NEW_CALFITS_HISTORY, OLD_CALFITS_HISTORY, FLAGS_HISTORY')],
  technique='symbolic heap evaluation of the history attribute at every write, per path, with function summaries',
  note='What pyuvdata itself writes or appends is trusted. Texts are tracked by where they come from (parameter, history of an object, stamp), not by wording.',
  design='''
*How decided.* `hcsa/hist.py` walks every function that writes a product, updates a history or hands text on, and evaluates the history of the written object at the write: a concatenation of the caller's text, stamps
(`history_string`), and histories of objects identified by their construction, as alternatives per path condition (infeasible ones dropped). Functions that take the text are judged once and used through a summary (how
many stamps they add). Required: the text exactly once; at most one stamp, exactly one for the run functions recorded in contracts/c09.json; the own history extended and not replaced (a `read()` resets it); the
recorded contributing files whenever they are given; no growth of an object or text that outlives the loop it is extended in; the command line from the recorded scripts.
*Bounds.* All paths and option values; loops over literal lists are unrolled, other loops by their carried values. ~6 s.
''')
