CLAIMS = {
 'C01': ('abstract interpretation over SSA (linear relations, affine loop induction)', 'At every successful return of the exported decode functions the returned count equals the bytes taken from the reader, for all inputs; paths the domain cannot decide are counted as undecided in the evidence.'),
 'C02': ('abstract interpretation over SSA (linear relations, affine loop induction)', 'Sections delimited by a length field read at their start, and reads or skips of input-dependent amounts; joined paths that the domain cannot decide are counted as undecided.'),
 'C03': ('abstract interpretation over SSA (linear relations, affine loop induction)', 'Index, slice, make, nil, assertion, conversion, shift, division and panic sites plus loop and recursion termination of everything reachable from decoding; sites the linear domain cannot decide are counted as undecided.'),
 'C04': ('abstract interpretation over SSA (linear relations, affine loop induction)', 'Failures of reads, skips, decompression and callbacks on every path to a successful return; standard library calls are modelled by their documented contracts.'),
 'C05': ('abstract interpretation over SSA (linear relations, affine loop induction)', 'Short reads, seeking, discarding and unverified skips on every path to a successful return.'),
 'C06': ('gated value numbering over SSA (symbolic partition of index ranges) with a structural analysis of launchers', 'Every launcher of goroutines: the ranges as polynomials for every amount of work and number of workers, the slices handed to each worker, error slots and tile origins; assumes exact integer arithmetic without wrap-around.'),
 'C07': ('lockset and join analysis over SSA (path-sensitive lock typestate, completion counting)', 'Completion signals, joins, locks at every shared map and field access, and captured variables for every goroutine; elements of slices are C06.'),
 'C10': ('abstract interpretation over SSA (linear relations, affine loop induction)', 'Every store into a documented field of the configuration, layers and masks; section divider settings and channel map keys are not covered.'),
 'C11': ('abstract interpretation over SSA (linear relations, affine loop induction)', 'Guards, order and arguments of the callbacks and skip options on every path.'),
 'C14': ('abstract interpretation over SSA (linear relations, affine loop induction)', 'Both directions of the accepted ranges, as linear constraints at successful and failing returns.'),
 'C18': ('gated value numbering over SSA (hash-consed polynomial normal form)', 'All 231 kernels and the generic operators: formulas of the colour channels compared as normal forms for all sample values; wrap-around of the formulas is not judged.'),
 'C19': ('gated value numbering over SSA (hash-consed polynomial normal form)', 'Formulas of the kernels of one mode compared after removing the conversions of the formats; the 8-bit specialisations of Overlay, SoftLight, Add and the channel-mixing modes are compared only in their weights.'),
 'C20': ('gated value numbering over SSA (symbolic addresses as polynomials)', 'Addresses, loop bounds and clipping of every drawing method and kernel for all rectangles, start points and strides; splitting over workers is C06.'),
 'C21': ('gated value numbering over SSA with a finite case analysis of type tests', 'Every type combination of the dispatcher and every entry point and drawing method of every mode.'),
 'C29': ('value numbering of tile traversals and pixel loops as polynomials', 'Every traversal of tiles, every tile key and tile rectangle, every pixel loop that cuts tiles; pixel loops whose address is not a polynomial are counted in the evidence and not decided; the scaled path is decided up to the library that scales.'),
 'C26': ('channel protocol and cancellation flow analysis over SSA', 'Every channel, blocking operation, early end of a worker and call with a context; loops over tiles are assumed to end.'),
 'C27': ('interprocedural lock typestate analysis over SSA', 'Every path of every root of the analysed packages; locks are identified by access path and class; unknown callbacks are assumed not to take the locks.'),
 'C13': ('conditional constant propagation through value graphs of the tables', 'Every documented blend mode, information key, colour mode and both document signatures, plus an unknown one of each; the tables of the format are transcribed in the analyzer.'),
 'C25': ('conditional constant propagation through value graphs, dataflow of drawing arguments', 'Every blend mode value including unknown ones through the choice of the drawer, and every call that draws a layer; which formula a drawer computes is C18.'),
 'C28': ('path-sensitive typestate of pooled buffers over SSA', 'Every buffer taken from the pool on every path of every function of the compositor, calls expanded; clearing and allocation by value numbering. The drawing functions are taken not to keep their arguments.'),
 'C22': ('gated value numbering over SSA, list identity followed through all callers', 'Every place that marks a tile as up to date, every record of it, every hand-over of the list and the deletion after a cancelled wait; conditions are decided as propositional formulas over normal forms.'),
 'C15': ('gated value numbering over SSA with elimination over integer linear forms and bounds of floating point values', 'Every RGBA method of the repository, for every value: all four components and the relation to alpha on every path, not-a-number and infinities included.'),
 'C16': ('gated value numbering over SSA with elimination over integer linear forms', 'Every colour model: own type unchanged, type of every result, divisors, 32-bit arithmetic and narrowing conversions, for all colours that keep the contract; one subtraction from the result of a library function is left undecided.'),
 'C17': ('gated value numbering over SSA with elimination over integer linear forms', 'Every integer division, shift count and fixed-table index of the kernels, their helpers and the colour computations, calls expanded; six divisions of the 8-bit Hue kernel that depend on nested quotients are left undecided; slice indices are C20.'),
 'C23': ('gated value numbering over SSA, conditions decided by case assumptions', 'Marking, climbing, pass-through groups, deferral and the links between layers, for every tree; that a canvas lists all its tiles is C29.'),
 'C08': ('control and data dependence analysis over SSA', 'Every use of the logger and everything that depends on a test of it, with the functions called there followed; methods of values handed to the logger for printing are the logger\'s own business.'),
 'C24': ('interprocedural dataflow (taint with function summaries) over SSA', 'Every place in the compositor that can change a tile, a map of tiles or the map of layer images; flow-insensitive within a function.'),
}
NA = {}
import json, os
for l in open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')):
    d = json.loads(l)
    if d['id'] not in CLAIMS:
        NA[d['id']] = 'no check has been built yet'
NA.update({k: v for k, v in {
 'C09': 'index in range and right channel is a relation between run-time products (rectangle, depth, channel count) established in another package and kept behind an interface field; the static domains here have no invariants for such heap objects. C13 decides the choice of accessor',
 'C12': 'every layer once under the innermost enclosing group is an inductive invariant over a run-time list with a stack; no list theory in the static domains used. Crashes and errors of the same code are C03 and C05',
 'C30': 'the numeric result of every blend formula against a reference is a statement about run-time values; no static argument in reach bounds rounding error of the generated integer kernels',
 'C31': 'round-trip equality of run-length and deflate data quantifies over run-time values of unbounded histories; the structural parts (bounds, row accounting, error handling) are decided under C02, C03, C04 and C06',
 'C32': 'which pixels of a layer are visible is a run-time quantity and scaling is done by a dependency',
}.items() if k not in CLAIMS})
