"""Writes MANIFEST.json from the tables below (one place to keep in step)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = ('Interprocedural abstract interpretation of the source from the command line entry (kinds, points-to, closures, '
     'generators, taints); library calls follow models kept in sa/lib*.py, which are trusted. ')
B = ('Canonical gated terms (global value numbering) of the functions, loops over unknown collections summarised by a generic element; what the engine cannot represent is reported as undecided, not as a violation. ')
CLAIMED = {
    'C01': ('exactness (rounding-taint) analysis of numeric kinds', A + 'Driven from every public 1D/2D operation on unknown exact rationals. Operand kinds that vary together (both coordinates of one vector integral at once) are taken not to divide int by int. Functions that only format text are exempt.'),
    'C02': ('must-fail analysis of entry points on inexact numbers', A + 'Calls are analysed apart per number kind; an entry point passes if the abstract semantics has no normal exit for a non-integral float, numpy float, nan or infinity.'),
    'C03': ('ownership (mutation) analysis', A + 'An object is owned by its creating call until stored into or read back from a value. Aliases kept by a caller of an object it later changes are only seen through the abstract heap.'),
    'C04': ('order/identity taint analysis', A + 'Sources: iteration order of hashed containers, addresses, unseeded generators, clocks, environment. A loop over an unordered collection is accepted where its effect is provably independent of the order (own-slot updates, exact unions, reductions). Set algebra of exact geometry is taken as commutative.'),
    'C05': ('history-dependence effect analysis of process-wide state', A + 'Lists every global, class attribute, default argument and cache that a call changes, and requires that what reads it cannot tell the earlier calls (write-once constants, value-keyed caches).'),
    'C12': ('value-identity dataflow from options to uses', A + 'Option values keep an identity through calls, records, closures and parameter maps; roles are fixed by the program points that use them.'),
    'C14': ('must-precede (guard) analysis on all paths to file writes', A + 'A write must be dominated by the forced checks on every call path; handlers must not swallow failures.'),
    'C15': ('effect analysis of external calls', A + 'Every external call reachable from the entry point or import is classified; unknown externals count as effects. Files written inside ezdxf beyond saveas are trusted not to exist.'),
    'C08': ('gated value numbering of the state transitions against the documented effect', B + 'Geometry operators are Boolean functions of arbitrary sets (their own correctness is C06/C07); fingers and joint lookups are uninterpreted (C10/C11). Loops over several requests are compared for 0, 1 and 2 requests.'),
    'C09': ('inductive evaluation of the heuristic steps on an arbitrary state (value numbering, Boolean set algebra)', B + 'Sets are arbitrary; what a step computes outside the representable part is an arbitrary unknown, and an update whose effect depends on it is left undecided. Openings are taken to stay within the set (library fact).'),
    'C10': ('symbolic rational identities over unit directions and planes (value numbering)', B + 'Directions range over the rationally parametrised circle (all eight sign patterns); up to three ranges; cross product and least squares are taken as library facts; rotations are arbitrary matrices.'),
    'C11': ('abstract evaluation of joint creation and lookups over small sets of sheets (value numbering)', B + 'Up to four sheets with arbitrary planes stand for all; parallel pairs have a zero normal product, the others one of length 1/100.'),
    'C13': ('gated value numbering of the DXF writer over generic sheets, polygons and outlines', B + 'Bounding boxes are taken to be exact (C19); numbers are treated as exact although the file holds floats.'),
    'C16': ('gated value numbering from the final state to the argument of the writer', B + 'Heuristic steps are unknown state transformers; the buffer operation itself is not interpreted.'),
    'C18': ('order-type case analysis (symbolic value numbering of index construction and queries)', B + 'End points are symbols of which only the order is known; all segments over up to ten end points together, and all small sequences over up to four; larger indices rest on each segment being filed on its own in a tree of the same shape rule.'),
    'C19': ('order-type case analysis and formula comparison (value numbering)', B + 'Growth, containment and box-box tests are decided for every order type; the segment test is compared with the separating-axis formula per sign pattern, other formulas are refuted by a valuation or left undecided.'),
    'C20': ('abstract evaluation over cell predicates (value numbering)', B + 'Box and positions are symbolic; items and queries are known only by the cells of a 4 x 4 subdivision they meet; sequences of up to five insertions and thresholds 1 to 4 stand for all histories.'),
    'C21': ('symbolic evaluation with polyhedral entailment (Fourier-Motzkin) of the drawn widths', B + 'Section ends, limits and draws are symbols; counts called for by the limits up to 9 and 12 are enumerated; widths are decided for up to three fingers in every drawing order, sides for up to seven. Real arithmetic: rounding of the floating point widths is not modelled.'),
    'C22': ('sign-pattern case analysis of the outline test, composition tables for holes and polygons (value numbering)', B + 'All sign patterns of triangles on a 5 x 5 grid and a spread of patterns of simple four and five sided outlines stand for all outlines; the expected answer of a pattern comes from an independent crossing count in the checker.'),
    'C23': ('symbolic rational identities over parametrised inputs (value numbering)', B + 'Inputs are parametrised so that all cases are covered; polygons up to five vertices and shears of up to three segments stand for all. A formula that stays undetermined is refuted by a valuation of its symbols or left undecided.'),
    'C24': ('symbolic rational identities and interval signs (value numbering)', B + 'Order and inverse are decided per quadrant as rational functions on (0,1), signs by Bernstein coefficients.'),
    'C25': ('failure-condition derivation over symbolic rings (value numbering)', B + 'Rings of three and four symbolic vertices, up to two holes and three parts; the external library is modelled by its documented contract (orient).'),
    'C26': ('symbolic evaluation over every grouping of few triangles (value numbering)', B + 'Meshes of up to five triangles with every set of disjoint library facets; the mesh library is modelled by its documented attributes.'),
    'C27': ('gated value numbering of the failure condition of the sanity check', B + 'An overlap counts as a violation from 0.01 mm or mm^2; tolerances below that are accepted.'),
    'C28': ('gated value numbering of the starting state over small sets of sheets (Boolean set algebra)', B + 'Models of up to four sheets, areas being arbitrary sets; buffers and projections are uninterpreted, fingers are the pull-back of a range into the strip (C10).'),
    'C29': ('value numbering of the creation of sheets over symbolic meshes', B + 'Fifteen arrangements of facets; numbers of the mesh are symbols, only conditions are decided by the arrangement. The mesh library is modelled by its documented attributes and sections.'),
    'C06': ('symbolic evaluation over order types of interval end points (exact finite abstraction of comparison-only code)', B + 'Operands of up to two (constructor: three) intervals; longer lists rest on the uniformity of the loops. Exact conversion is the identity (C02).'),
    'C07': ('gated value numbering of the set operations over an uninterpreted subdivision', B + 'What the cells are (C50), how cells become polygons (C56) and point location (C22) are not part of this property. n-ary unions for the operand counts listed in the evidence.'),
    'C17': ('name resolution plus definite-failure analysis of attributes, fields, keys and call signatures', A + 'Functions nothing reaches are analysed on unknown arguments. An operation counts as broken only if it fails for every value that can reach it; library objects other than numbers, strings, containers and repository classes are opaque.'),
}
NA = {
    'C50': 'completeness and uniqueness of the arrangement cells is a theorem about the algorithm over unbounded inputs; no sound static argument in reach bounds it',
    'C51': 'correctness of the sweep is an inductive invariant over event sequences and real arithmetic',
    'C52': 'equality with a Minkowski sum quantifies over all points of arbitrary polygons',
    'C53': 'assembly without collision is a global geometric fact about run-time values',
    'C54': 'depends on the mesh and on tolerances at run time',
    'C55': 'termination and cost depend on run-time geometry; no static bound in reach',
    'C56': 'cancellation of opposite half-edges depends on run-time values of keys in a hash map and on the arrangement',
}


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    ids = [p['id'] for p in props]
    assert set(CLAIMED) <= set(ids) and not set(CLAIMED) & set(NA)
    m = {'version': 1, 'setup_cmd': 'python3 check.py --selftest', 'checks': [], 'not_applicable': []}
    for i in ids:
        if i in CLAIMED:
            t, n = CLAIMED[i]
            m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i,
                                'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                                'technique': 'static analysis: ' + t, 'level': 'other', 'level_note': n})
        else:
            m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'no sound static check has been built for it')})
    m['notes'] = 'All checks are pure static analysis of /repo (Python standard library only; no repository code is run).'
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
