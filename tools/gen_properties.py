#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=' '.join(statement.split()),
             quantifier=dict(over=over, text=text), why_tests_cant=' '.join(why.split()),
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

EV, CS, EM, SP, SH, ST, PL, CO, CA = ('causetevent.py', 'causet.py', 'embeddedcauset.py',
    'sprinkledcauset.py', 'shapes.py', 'spacetimes.py', 'causetplotting.py', 'colorschemes.py',
    'calculations.py')
REL = [('past/future sets', 'the causal relation, stored twice (once per end)', EV)]
LNK = [('link memory', 'lazily computed, incrementally maintained linked past/future sets', EV)]

p('C01', 'Causal relations always form a strict partial order with mirrored views',
  '''After any history of creating events with given past and future events, merging disjoint
  causal sets and disjoining events, the relation "precedes" is irreflexive, antisymmetric and
  transitive and is exactly the relation generated by that history. An event is in the past of
  another exactly when the other is in its future, and every comparison (<, <=, >, >=, causal to,
  spacelike to), past/future/cone set (with or without the present) and cardinality reported for
  an event agrees with that one relation. A creation that is rejected, for invalid coordinates or an invalid position, changes nothing.''',
  ['histories', 'inputs'], 'all finite histories of event creation, merge and disjoin, all event pairs',
  '''Tests build a handful of fixed causets and look at cardinalities; none checks transitivity or the
  mirrored storage after a sequence of operations.''',
  [EV, CS], [('event constructor closes past and future', 'causetevent.py CausetEvent.__init__'),
   ('mirrored bookkeeping on add and discard', 'causetevent.py _addToPast/_addToFuture/_discard/disjoin'),
   ('merge', 'causet.py Causet.merge')],
  ['CausetEvent comparisons, Past, Future, Cone, *Card', 'Causet.merge'], REL)

p('C02', 'Link queries always report exactly the covering relation',
  '''After any history of creating, merging and disjoining events, with linking and unlinking (of single
  events or of the whole causet) and link queries interleaved at any point, every link query
  (linked past/future/cone sets and cardinalities, pairwise link tests, link counts, link
  matrices) reports exactly the related pairs that have no event strictly between them. When links
  were computed, remembered or reset never changes any answer; hasBeenLinked tells directly after linking or unlinking which of both was done.''',
  ['histories'], 'all histories of order changes interleaved with link/unlink/query operations',
  '''The link memory is updated incrementally; its correctness depends on the order of operations and on
  set iteration order. No test queries links after modifying a linked causet.''',
  [EV, CS], [('incremental link updates', 'causetevent.py _addToPast/_addToFuture/_discard'),
   ('lazy linking', 'causetevent.py link/unlink/isPastLink/LinkPast/...'),
   ('whole-causet linking', 'causet.py Causet.link/unlink/LinkCount/LinkPastMatrix')],
  ['LinkPast, LinkFuture, LinkCone, Link*Card, isPastLink, isFutureLink, isLinkedTo, isLink, LinkCount'], LNK)

p('C03', 'Generated causets have exactly the documented order and labels',
  '''For every admissible size, the constructors return exactly the documented order and labels: from a
  permutation, event u precedes event w iff u < w and u stands left of w in the permutation; chains are
  totally ordered and antichains have no relations; simplices are ordered by inclusion of faces, with the interior
  face only on request. Fences have height+1 layers in which each event lies directly above its two neighbours of the
  layer below, cyclically if closed, and just one at the open end, and crowns are closed fences of height 1. Labels follow the documented
  numbering, label format or face names.''',
  ['inputs'], 'all permutations, sizes, dimensions, lengths, heights, open/closed and label formats',
  '''Tests check cardinality and chain/antichain flags for about a dozen fixed sizes, not the relation.''',
  [CS], [('FromPermutation/NewChain/NewAntichain', CS), ('NewSimplex', CS), ('NewFence/NewCrown', CS)],
  ['relations and labels of the returned causet'])

p('C04', 'Causets and their past, future and link matrices convert faithfully',
  '''A logical past matrix in any event order, holding the full relation or only links and possibly
  with fewer rows than columns, converts to the causet whose order is the transitive closure of the matrix,
  labelled by column number; the future-matrix conversion does the same for the transpose. Matrices with causal loops
  of any length or with more rows than columns raise a ValueError. The exported past, future and link matrices hold
  True at exactly the related (linked) pairs for the given or default event order, so that importing an export
  reproduces the order.''',
  ['inputs'], 'all logical matrices (cyclic, rectangular, link-only) and all causets with any event order',
  '''One 5x5 matrix and one chain are tested; loops longer than 2, link-only input and exports are not.''',
  [CS], [('FromPastMatrix/FromFutureMatrix', CS), ('PastMatrix/FutureMatrix/LinkPastMatrix/LinkFutureMatrix', CS)],
  ['relation of the imported causet; entries of the exported matrix'])

p('C05', 'Saving a causet to a text file and reading it back preserves the order',
  '''For every labelled causet, including the empty one and a single event, saving the past matrix to a file and loading that
  file returns a causet with the same number of events and an isomorphic order, index by index of the causality-sorted events. Loading
  honours the orientation flag and the delimiter, and accepts files of rectangular or link-only
  matrices like the matrix import.''',
  ['inputs'], 'all causets; all logical matrices written as text with any delimiter',
  '''One round trip of a 4-chain is tested, where orientation and ordering mistakes are partly invisible.''',
  [CS], [('saveAsCSV', CS), ('FromTextFile', CS)], ['file content; relation of the loaded causet'])

p('C06', 'A causet behaves as the mathematical set of its events',
  '''Constructing a causet from events yields those events plus all their causal relatives, transitively. Membership,
  iteration, cardinality, union, intersection, difference and symmetric difference, as operators with a set on either side or as methods,
  and finding events by label agree with plain set semantics after any sequence of additions and discards. Neither
  additions, discards nor set operations alter the relation between events or any operand but the modified causet.''',
  ['histories', 'inputs'], 'all sequences of add/discard and all operand sets, on either side of the operator',
  '''One example with four events is tested, with causets on both sides only.''',
  [CS], [('closure at construction', 'causet.py Causet.__init__/ConeOf'), ('operators', 'causet.py __sub__...__rxor__'),
         ('add/discard/find*', CS)], ['results of set operations, Card, find/findAny/findAll'])

p('C07', 'Past, future, cone, interval and infinity queries match the order',
  '''For every set of events, its past, future and cone (as union or as common intersection, with or without the
  present), the events spacelike to it, and its past and future infinity (of the set or the whole causet, as sets or counts) are
  exactly those defined by the order. For every pair of events, the causal interval with or without boundary, the
  perimetral events (linked to both ends) and the internal events, and all their cardinalities, are exactly
  those defined by the order, and empty or zero when the first does not precede the second.''',
  ['inputs'], 'all causets, all event subsets, all ordered pairs, all option combinations',
  '''Only the cardinality of two infinities of one merged causet is tested.''',
  [CS, EV], [('PastOf/FutureOf/ConeOf/SpacelikeTo', CS), ('Interval*, Perimetral*, Internal*', CS), ('PastInf*/FutureInf*', CS),
         ('Spacelike/SpacelikeCard', EV)],
  ['returned sets and counts'])

p('C08', 'Chain, antichain, path, component and central antichain answers are right',
  '''A set of events, or the whole causet, is reported as a chain iff its events are pairwise related, as an
  antichain iff they are pairwise unrelated, and as a path iff it is a non-empty chain whose consecutive events are linked.
  Splitting into disjoint pieces yields exactly the connected components of the relation on that set. The central
  antichain is always a maximal antichain of the causet, chosen greedily by smallest deviation of past-minus-future cardinality from zero, or from
  that of a given event, which it then contains if it is in the causet.''',
  ['inputs'], 'all causets, all event subsets, every reference event',
  '''A few fixed causets are tested, none with a zigzag, a closed loop of links or a non-trivial component structure.''',
  [CS], [('isChain/isPath/isAntichain', CS), ('disjoint/isDisjoint', CS), ('CentralAntichain', CS)],
  ['returned booleans, lists of sets, set'])

p('C09', 'Rank and layer numbers follow interval sizes and shortest link paths',
  '''The rank of b above a is the number of links on a shortest link path from a to b: 0 for the same event, infinite if a
  does not precede b. Relative to a set, the layer (rank) number of an event is the largest interval size minus one (largest rank) between it and any
  member of the set after it, counted negatively, or before it, counted positively, and 0 if there is none; layers
  (ranks) from first to last return exactly the events of the past, present and future of the set with a
  number in that range, and the number lists agree. Layering a whole causet or a convex subset partitions it into its height levels from
  the past infinity or, reversed, from the future infinity.''',
  ['inputs'], 'all causets, event subsets, number ranges and directions',
  '''No test calls ranks or layers directly.''',
  [CS, EV], [('Rank', EV), ('Layers/LayerNumbers/Ranks/RankNumbers/layered', CS)], ['returned numbers and sets'])

p('C10', 'Path enumeration yields every requested link path exactly once',
  '''Enumerating paths from a to b yields, each exactly once, all sequences of successively linked events from a to
  b whose number of events satisfies the request: any, minimal, maximal, one given length or a range of lengths. It yields the single-event
  path when both ends coincide and fit the request, nothing when a does not precede b, and never any
  other sequence.''',
  ['inputs'], 'all causets, all ordered pairs, all length requests',
  '''Three small causets are tested with "any" and "min" only.''',
  [CS], [('Paths', CS)], ['sequence of yielded paths'])

p('C11', 'Antichain distances, smallest intervals and antipaths are shortest ones',
  '''The smallest interval size of two related events is their interval size, and of two spacelike events it is the smallest
  interval from a common past to a common future event within the searched set, with the documented fallback to the smallest one-sided past or future
  and 0 without common relatives. The distance matrix of an antichain is symmetric with zero diagonal: members with a
  common relative in an adjacent layer have distance 1 (or count the antichain members met by their smallest interval, minus one), others the length
  of a shortest chain of such neighbours, and in a causet of at most two layers unreachable members get -1. Antipaths are exactly all shortest such chains
  from a to b along the antichain, each once.''',
  ['inputs'], 'all causets and antichains whose neighbouring layers connect them, both counting methods, any member order',
  '''A single crown of length 6 is tested, for two pairs.''',
  [CS], [('SmallestIntervalCard', CS), ('DistanceMatrix', CS), ('Antipaths', CS)], ['returned numbers, matrices and paths'])

p('C12', 'Sorting returns each event once, by label or as a linear extension',
  '''Sorting any set of labelled events by causality returns every event exactly once, with no event placed before one of its
  predecessors, or after one when reversed. Sorting by label returns every event exactly once with
  ascending or, reversed, descending labels. The default order of exported matrices is the causality order, so that default past and
  link matrices are strictly lower triangular.''',
  ['inputs'], 'all causets, subsets, label assignments (also contrary to causality), both directions',
  '''Sorting is only used on one chain whose labels already follow causality.''',
  [CS], [('sortedByCausality/sortedByLabels', CS), ('default order of PastMatrix', CS)], ['returned lists and matrices'])

p('C13', 'Causality tests of all spacetimes match the exact light cones',
  '''For flat spacetime (any dimension, any directions periodic), de Sitter, anti-de Sitter and the two-dimensional black hole in both
  coordinate systems, and any two points of the coordinate patch, the causality test says "x precedes or equals y" (or "x succeeds y") exactly
  when a causal curve of that geometry leads from x to y (from y to x), up to rounding at null separation, where exactly representable null pairs count as causal. Points at or
  beyond the de Sitter horizon and points on opposite sides of the black hole are unrelated.''',
  ['inputs', 'configurations'], 'all point pairs, dimensions, radii, periods and metrics',
  '''No test calls a causality function of a curved or periodic spacetime with a known answer.''',
  [ST], [('Causality() of each spacetime class', ST)], ['the pair of booleans returned'])

p('C14', 'Spacetime causality is a partial order that respects the symmetries',
  '''In every spacetime the causality test never reports both directions, swapping distinct points swaps the answer, and the relation is
  transitive. Answers do not change under the isometries of the spacetime: time translation, spatial rotation, reflection and axis permutation, and where they
  apply spatial translation, boosts, period shifts and a common rescaling of coordinates and radius; time reversal swaps the
  answer in flat, de Sitter and anti-de Sitter spacetime. The two black hole coordinate systems agree on the same physical points.''',
  ['inputs', 'configurations'], 'all point triples and all symmetry transformations',
  '''Tests use a handful of points and never compare related inputs.''',
  [ST], [('Causality() of each spacetime class', ST)], ['the pair of booleans returned'])

p('C15', 'Embedded events are related exactly as their coordinates dictate',
  '''The events of an embedded causet are related exactly as its spacetime relates their coordinates, no matter in which
  order or batches they were created and after discards followed by recomputation; created events keep the given
  coordinates and get consecutive labels. An embedded permutation causet lies in the diamond of the given radius and has the same labelled order as the
  plain permutation causet. Relabelling numbers the events 1 to n by the chosen coordinate, ascending or descending.''',
  ['inputs', 'histories'], 'all coordinate lists, spacetimes, batch splits and permutations',
  '''Two coordinate lists and three permutations are tested, mostly by plotting.''',
  [EM, ST], [('create/relate/relabel', EM), ('FromPermutation', EM), ('spacetime and shape selection', 'embeddedcauset.py __init__')],
  ['relations, labels and coordinates of the events'])

p('C16', 'Sprinkling fills the requested region and keeps count',
  '''Sprinkling n points creates exactly n new, labelled events whose coordinates all lie in the requested region, for
  every shape, dimension, centre, hollow fraction and parameter, related as the spacetime dictates. The intensity is the sum of all requested
  counts and intensities plus created or added events, scaled by the remaining fraction on each discard; density is intensity (for plain embedded causets
  the cardinality) over volume, and the length scale is its inverse d-th root. Negative sprinkle or intensify requests, and those for a region of another dimension,
  raise a ValueError and change nothing.''',
  ['inputs', 'histories'], 'all shapes and parameters, all histories of sprinkle/intensify/create/add/discard, all random streams',
  '''One sprinkle of 10 points in a unit square is tested for its cardinality.''',
  [SP, EM, SH], [('_sprinkle_coords', SP), ('sprinkle/intensify/create/add/discard', SP), ('Density/LengthScale', 'sprinkledcauset.py, embeddedcauset.py')],
  ['coordinates, Card, Intensity, Density, LengthScale'])

p('C17', 'Sprinkled points are uniformly distributed and Poisson counted',
  '''Points sprinkled into any shape are independently and uniformly distributed over the shape's volume in coordinate
  space, for every dimension, centre and hollow fraction. When sprinkling by intensity the number of points follows the Poisson
  distribution with that mean. Sprinkling with equally seeded generators gives equal coordinates.''',
  ['inputs', 'configurations'], 'all shapes, dimensions and parameters; decided by distribution tests on large seeded samples',
  '''No test looks at a distribution.''',
  [SP], [('_sprinkle_coords', SP), ('intensify', SP)], ['coordinates of sprinkled events; number of events'])

p('C18', 'Shape volume, limits, extents and parameters describe one region',
  '''For every shape, dimension, centre and parameter set, the reported volume is the exact volume of the (hollow) region, the
  limits along each dimension are its tight bounds, and the half maximal edge is half the largest extent over the requested dimensions.
  Name, dimension, centre and parameters are reported as given, with the documented defaults and "diamond" as alias of "bicone", and textual
  representations never fail.''',
  ['inputs'], 'all shape names, dimensions, centres and parameter values',
  '''Three volumes and one limit are tested.''',
  [SH], [('CoordinateShape.__init__/Volume/Limits/MaxEdgeHalf', SH)], ['returned numbers and strings'])

p('C19', 'Drawn shape outlines trace the boundary of the shape',
  '''The outline curves and surfaces (rectangle, circle, ellipse, bicone, cylinder cut; cuboid, ball, cylinder, open cone) consist of
  points on the boundary of the body with the given centre, size, hollow fraction and axis, they cover its whole extent and have the
  documented number of points. Plotting a shape draws the cut through its centre with the requested coordinate dimension on each plot axis, for
  any choice and order of two or three dimensions.''',
  ['inputs'], 'all shapes, centres, sizes, hollow fractions, plot dimensions and sampling sizes',
  '''Two plots are executed without inspecting the drawn geometry.''',
  [SH], [('*Edge and *Surface functions', SH), ('CoordinateShape.plot', SH)], ['returned arrays, patches and surfaces'])

p('C20', 'Plotted light cones enclose exactly the causally related points',
  '''A plotted past or future cone of an event up to a time slice bounds exactly the points causally related to it: points
  on the drawn boundary are light-like related, points inside are causally related and points outside are not, for the implemented 2D and 3D plots of flat (also periodic), de
  Sitter and black hole spacetimes, with the requested coordinate on each axis. No cone is drawn if the time slice lies on the wrong
  side of the event, if the opacity is not positive or if the event lies at or beyond the de Sitter horizon.''',
  ['inputs', 'configurations'], 'all apexes, time slices, plot dimensions, spacetimes and radii',
  '''One cone is plotted without inspecting it.''',
  [ST, SH], [('ConePlotter', ST), ('_XT_slice/_XY_slice', ST)], ['returned patches and surfaces'])

p('C21', 'Causet plots draw every event, link, label and cone at its place',
  '''A static plot contains exactly one marker and one label per event at its coordinates (or diagram position) projected to the
  requested dimensions, exactly one line per link whose ends are the two linked events and which passes only through events on that line, and one cone for each event
  whose cone reaches the time slice. Switched-off parts are absent, axis limits are
  those given or those of the embedding shape on request, the options given (lists, dictionaries) stay unchanged, and a diagram of a permutation places events such that the diagram's light cones
  reproduce the order.''',
  ['inputs', 'configurations'], 'all embedded causets and event lists, 2D/3D dimension choices and option combinations',
  '''Plots are executed without inspecting the artists.''',
  [PL], [('Plotter/plot/plotDiagram', PL), ('plot_parameters', PL)], ['matplotlib artists returned and on the axes'])

p('C22', 'Time-sliced plots show and fade exactly what the time depth covers',
  '''In time-slicing mode an event is drawn iff it lies on the visible side of the time (future for positive, past for negative depth) and its
  fade value is positive; it then has that value as opacity: linear fading reaches zero at the time depth, exponential
  and intensity fading decrease from the maximum, which is taken at the time itself. Links between two visible events are drawn completely, links with
  one visible end and the other on the hidden side of the time are drawn from the visible end to the point at the time, all others not at all. The mode works
  with links, events or labels switched off.''',
  ['inputs', 'configurations'], 'all embedded causets, times, depths of either sign, fading types and options',
  '''No test uses the time depth option.''',
  [PL], [('dynamic_parameter', PL), ('Plotter _timeslice dynamic branch', PL)], ['matplotlib artists returned; fade function values'])

p('C23', 'Colour schemes resolve every colour to a valid colour',
  '''Every colour of every scheme is a valid plot colour, every scheme defines the basic colours that the plotting defaults refer to, and
  "cs:" names resolve by the chosen or else the current global scheme in single values, lists and dictionaries, leaving everything else
  unchanged. A "cs:" name that the scheme does not define raises an error instead of passing an invalid colour on. Unknown schemes raise a ValueError without changing the current scheme; default colours can be overridden.''',
  ['inputs', 'histories'], 'all schemes, colour names, parameter dictionaries and sequences of scheme switches',
  '''One scheme is selected in a set-up method.''',
  [CO, PL], [('ColorSchemes table', CO), ('getColor/convertColors*', CO), ('setDefaultColors', PL)], ['returned colours'])

p('C24', 'Harmonic numbers are accurate in every representation and range',
  '''For every n the exact fractions are the true harmonic numbers, and the floating point values (single value or vector, with any admissible threshold
  of approximation) agree with them to the accuracy of the asymptotic expansion; vectors have n+1 finite, non-decreasing entries starting at 0, and
  single values and vectors agree with each other.''',
  ['inputs'], 'all n (up to at least 10^5 for vectors, 10^15 for single values) and thresholds',
  '''Values up to 200 with the default threshold are tested.''',
  [CA], [('HarmonicNumber*', CA)], ['returned values'])

p('C25', "Newton's method returns a root in range or the default",
  '''For monotone smooth functions with a root inside the allowed interval and a start value from which the iteration
  converges, the returned value solves f(x) = y to the requested precision and lies within the interval. If the derivative vanishes or the
  iteration does not converge within the iteration limit, exactly the default is returned, and the function is evaluated no more often than that limit.''',
  ['inputs'], 'families of monotone functions with known inverses, targets, start values, bounds and limits',
  '''There is no test of the root finder.''',
  [CA], [('NewtonsMethod', CA)], ['returned value, number of evaluations'])

p('C26', 'Event labels, embedding, position and copies behave consistently',
  '''An event is embedded exactly while it has coordinates: embedding an embedded event without the re-embed flag and
  reading coordinates of an event without embedding raise an AttributeError and change nothing, and embed, disembed and dimension always reflect the last successful operation.
  A diagram position is exactly the last pair set, the origin by default, and anything but two values raises a ValueError. A copy has the
  label and causal relations of the original, no embedding, and changing the copy never affects the original. The texts of an event (str, repr) show its label.''',
  ['histories'], 'all sequences of constructor arguments and embed/disembed/position/copy operations',
  '''No test calls any of these methods.''',
  [EV], [('embed/disembed/Coordinates/CoordinatesDim/isEmbedded', EV), ('Position', EV), ('copy/__str__/__repr__', EV)],
  ['attribute values and exceptions'])

p('C27', 'Invalid arguments are rejected with an error, never silently accepted',
  '''Shapes with non-positive dimension, unknown name, wrong length of centre or edges, non-positive sizes or hollow fraction outside
  [0, 1), spacetimes with unsupported dimension, non-positive radius, wrong period or unknown metric, embeddings whose spacetime, shape, coordinates and dimension
  disagree or name an unknown spacetime, causet plots with other than two or three dimensions, limits of a dimension out of range, negative cardinalities or intensities of sprinklings, and unknown distance counting methods and path lengths of an unsupported type all raise a
  ValueError. Every valid combination is accepted and yields objects with the requested dimension, names and parameters.''',
  ['inputs', 'configurations'], 'all argument combinations around the boundary of validity',
  '''Six invalid calls are tested.''',
  [SH, ST, EM, PL, CS], [('CoordinateShape.__init__', SH), ('spacetime constructors', ST), ('EmbeddedCauset.__init__', EM), ('plot_parameters', PL)],
  ['exception or the properties of the object'])

p('C28', 'Queries never modify the causet, its events or the arguments',
  '''No query (sets, intervals, layers, ranks, paths, distances, antipaths, matrices, sorting, predicates, components, finding, set operations,
  exports, plots) changes the causal relation, the event set, labels, coordinates or any set, list or array passed in. Repeating a
  query after any other queries gives the same answer.''',
  ['histories'], 'all sequences of queries with arbitrary arguments',
  '''Tests never repeat a query or look at arguments afterwards.''',
  [CS, EV, PL], [('set-valued queries build new sets', CS), ('disjoint copies its argument', CS)],
  ['snapshots of relation, arguments and answers'])

p('C29', 'Answers depend only on the order, not on labels or internal ordering',
  '''Building the same order with events created in a different sequence, from direct links or full pasts, with different labels, or
  under a different iteration order of event sets gives the same answers, up to the correspondence of events, to all structural queries and numbers.
  Nor do the answers depend on the history by which the order came about, or on queries asked before it changed.
  Reversing the order exchanges the answers of every past query with those of the matching future query.''',
  ['inputs', 'schedules'], 'all orders, all relabellings, creation sequences and histories of changes and queries, all set iteration orders, and order reversal',
  '''Tests run with one creation order and one label assignment per causet.''',
  [CS, EV], [('all structural queries', CS)], ['answers compared between two builds of the same order'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for d in P: f.write(json.dumps(d) + '\n')
print(len(P))
