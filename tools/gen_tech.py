#!/usr/bin/env python3


SMALL = 'Generated inputs, not all: orders of up to about ten events from several families under random creation orders, labels, link states and set iteration orders. Trusts the bit-mask reference model.'
T = {
'C01': ('model-based (stateful) property testing of order histories', 'Histories of creation, merge and disjoin on up to 11 (longer ones: 24) events against a bit-mask model; generated, not exhaustive.'),
'C02': ('model-based (stateful) property testing of link histories', 'Histories of order and link operations on up to 11 (longer ones: 24) events against the covering relation of a model; generated, not exhaustive.'),
'C03': ('property testing against reference constructions', 'Random parameters and permutations compared with independent definitions of each named order.'),
'C04': ('property testing: Warshall reference and export/import round trip', SMALL),
'C05': ('property testing: save/load round trip and independent parser', SMALL + ' Files live in a scratch directory.'),
'C06': ('model-based (stateful) property testing against Python sets', SMALL),
'C07': ('property testing against a reference model of the order', SMALL),
'C08': ('property testing against a reference model of the order', SMALL),
'C09': ('property testing against brute-force ranks and interval sizes', SMALL),
'C10': ('property testing against exhaustive path enumeration', SMALL),
'C11': ('property testing against breadth-first search on the neighbour graph', SMALL + ' Causets of more than two layers are covered where the neighbour graph is determined by the documented rule.'),
'C12': ('property testing of sortedness invariants', SMALL),
'C13': ('property testing against independent closed-form light cones', 'Random and near-null pairs, exact null pairs on dyadic grids; pairs within a rounding margin of the light cone are not decided.'),
'C14': ('metamorphic property testing (isometries, order axioms)', 'Random points with a rounding margin at null separation.'),
'C15': ('model-based (stateful) property testing of embedded causets', 'Histories of create, discard, recompute and relabel against pairwise causality of the recorded coordinates.'),
'C16': ('model-based (stateful) property testing of sprinkling histories', 'Histories of sprinkle, intensify, create, add, discard against membership predicates and an intensity model.'),
'C17': ('statistical property testing (DKW, chi-square bounds) and seed determinism', 'Thresholds at a false alarm probability below 1e-9 per test; deviations smaller than a few percent are not visible.'),
'C18': ('property testing against independent volume formulae and Monte Carlo membership', 'Random shapes and parameters.'),
'C19': ('property testing of boundary predicates on generated curves and surfaces', 'Random bodies and sampling sizes; drawn artists are inspected.'),
'C20': ('property testing of drawn cones against the causality test', 'Random events and slices; points within a margin of the boundary are not decided.'),
'C21': ('property testing of drawn artists against the plotted causet', 'Random causets and plot options on the Agg backend; artists are inspected, not pixels.'),
'C22': ('property testing of time-sliced artists against a fading model', 'Random causets, times, depths and options; artists are inspected.'),
'C23': ('model-based property testing of colour resolution', 'Random histories of scheme changes over all schemes and names.'),
'C24': ('property testing against exact fractions', 'n up to 2000 against exact fractions, beyond that against a high-precision expansion.'),
'C25': ('property testing with functions of known inverse', 'Random monotone functions, targets and limits; divergence cases with a call counter.'),
'C26': ('model-based (stateful) property testing of events', 'Random histories of embed, disembed, position and copy.'),
'C27': ('property testing with generated valid and invalid arguments', 'Random constructor arguments classified by an independent validity table.'),
'C28': ('stateful property testing with snapshots around queries', SMALL),
'C29': ('metamorphic property testing (isomorphic rebuilds and reversal)', SMALL),
}

