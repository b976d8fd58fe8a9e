#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=hook)))

SB = "matslise/util/sectorbuilder.cpp"
MS = "matslise/matslise/matslise.cpp"
SE = "matslise/matslise/sector.cpp"
HR = "matslise/matslise/halfrange.cpp"
PE = "matslise/matslise/periodic.cpp"
LI = "matslise/liouville/liouville.cpp"
SL = "matslise/liouville/sturm_liouville.cpp"
CS = "matslise/matscs/matscs.cpp"
CSS = "matslise/matscs/sector.cpp"

prop("C01", "The mesh tiles the domain exactly, forward part then backward part",
 "Constructing a problem (scalar or coupled) with the automatic or the uniform mesh builder terminates and yields a non-empty ordered list of sectors of positive width that starts exactly at the left end of the domain, ends exactly at its right end, and in which neighbouring sectors share exactly the same end point. All sectors up to and including the match index are oriented forward and all later ones backward, and the uniform builder delivers exactly the requested number of equal sectors.",
 ["inputs", "configurations"], "every potential, domain, tolerance, jump list and sector count, hence every outcome of the local error estimates and of the left/right comparisons",
 "Tests build a few fixed meshes and never look at them; a gap, overlap or wrong orientation only shows for particular sequences of error estimates.",
 [SB, "matslise/util/sectorbuilder.h", "matslise/matslise.h", "matslise/matscs.h"],
 [("two fronts growing towards each other", SB + " AutomaticSectorBuilder::operator()"), ("clamping of the next sector to the other front", SB + " automaticNextSector"), ("uniform grid", SB + " UniformSectorBuilder::operator()")],
 ["Matslise::sectors", "Matslise::matchIndex", "Matscs::sectors"],
 [("forward, backward", "the two fronts", SB), ("h", "next width proposal of a front", SB)])

prop("C02", "Declared discontinuities are always mesh points",
 "Every discontinuity position that is declared to the automatic mesh builder and lies strictly inside the domain is an end point of two neighbouring sectors, whatever the potential, the tolerance, the number and the location of the declared positions. Solutions across declared discontinuities therefore keep the requested accuracy.",
 ["inputs", "configurations"], "every sorted list of interior jump positions, potential, tolerance and resulting order in which the two fronts advance",
 "No existing test declares a jump.",
 [SB], [("nextForwardJump / nextBackwardJump limits", SB + " AutomaticSectorBuilder::operator()")],
 ["Matslise::sectors", "Matslise::propagate"],
 [("forwardJumpPosition, backwardJumpPosition", "next jump not yet passed by a front", SB)])

prop("C03", "The potential is sampled only at construction, only inside the domain",
 "The user's potential is only evaluated while the problem object is being constructed, and only at points of the domain given to the constructor; a half-range problem only evaluates it on the non-negative half of its domain. No later query on the object (eigenvalues, eigenfunctions, propagation, error estimates, evaluation of eigenfunctions) evaluates it again.",
 ["inputs", "histories"], "every problem class, mesh builder and every history of later queries",
 "Tests use pure functions defined on the whole real line, so that stray or late evaluations are invisible.",
 ["matslise/matslise.h", SE, SB, HR, PE, SL, CSS, "matslise/util/legendre.h"],
 [("Legendre sampling inside each attempted sector", "matslise/util/legendre.h"), ("sectors cache the coefficients", SE)],
 ["the calls of the user's potential"])

prop("C04", "Propagation solves the initial value problem",
 "For every energy, start point a, end point b (in either order) and initial values, propagating gives the value and the derivative at b of the solution of y''=(V-E)y, and the derivatives of both with respect to E, to within an error commensurate with the requested tolerance. This holds wherever a and b lie relative to the mesh, for potentials of any shape, for energies far below, near and far above the potential, and for one or two columns of initial values.",
 ["inputs", "configurations"], "all potentials, energies, pairs of points, initial values, meshes",
 "Tests compare with tables at a few energies and points; code paths depend on E relative to V, on the size of (V-E)h^2, on the sector orientation, and on where a and b fall.",
 [MS, SE, "matslise/matslise/matslise_formulas.cpp", "matslise/util/calculateEta.h", "matslise/util/legendre.h", "matslise/util/y.h"],
 [("CPM transfer matrix", SE + " calculateT"), ("sector walk", MS + " propagate"), ("inverse transfer", "matslise/util/y.h T::operator/")],
 ["Matslise::propagate", "PeriodicMatslise::propagate"])

prop("C05", "Propagation is reversible, composable, linear and Wronskian-preserving",
 "Propagating from a to c and then from c to b gives the same values as propagating from a to b for every intermediate or outlying c of the domain, and propagating back recovers the initial values; propagation is linear in the initial values, and the Wronskian of two propagated solutions with the same energy does not change. Propagating from a point to itself returns the initial values unchanged.",
 ["inputs", "histories"], "all sequences of points (mesh points, interior points, the match point, domain ends) and directions",
 "Existing tests never chain propagations or cross the mesh in the direction opposite to a sector's orientation and back.",
 [MS, SE, "matslise/util/find_sector.h", "matslise/util/y.h"],
 [("sector lookup and walk", MS + " propagate"), ("partial steps relative to the oriented end", SE + " Sector::propagate")],
 ["Matslise::propagate"],
 [("sectorIndex", "sector the walk is in", MS)])

prop("C06", "The Pruefer angle counts the zeros of the propagated solution",
 "The angle returned by propagation starts in [0,pi) when propagating to the right and in (0,pi] when propagating to the left, and changes continuously along the solution: the number of multiples of pi it passes equals the number of zeros of the solution between the two points, and the final angle modulo pi is consistent with the sign pattern of value and derivative. Consequently the matching angle divided by pi increases with the energy and, rounded up, equals the number of eigenvalues below that energy.",
 ["inputs"], "all potentials, energies, points, initial values, directions",
 "One test checks one angle for V=0; wrap-around decisions depend on which quadrant each sector starts and ends in.",
 [SE, MS, "matslise/util/theta.h"],
 [("pruferHelper", SE), ("theta0 and initial wrap", MS + " propagate"), ("atan_safe", "matslise/util/theta.h")],
 ["Matslise::propagate", "Matslise::matchingError"])

prop("C07", "Each reported eigenvalue is the true eigenvalue with the reported index",
 "For every potential, domain and pair of separated boundary conditions, an eigenvalue reported with index n lies within an error commensurate with the tolerance of the n-th eigenvalue of the boundary value problem, i.e. the one whose eigenfunction has exactly n zeros inside the domain. This includes indices in the hundreds, negative eigenvalues, nearly coinciding eigenvalues of multi-well potentials, and discontinuous potentials with declared jumps.",
 ["inputs"], "all potentials, domains, boundary conditions, indices",
 "Tests know the answers for six potentials and mostly Dirichlet conditions.",
 [MS, SE, SB], [("bisection on the matching angle", MS + " computeEigenvaluesHelper"), ("Newton iteration", MS + " newtonIteration")],
 ["Matslise::eigenvaluesByIndex", "Matslise::eigenvalues"])

prop("C08", "Index queries return exactly the requested indices",
 "Asking for the eigenvalues (or eigenpairs) with indices from Imin inclusive to Imax exclusive returns exactly one entry for each index in that range, in increasing order of index and of eigenvalue, with no duplicates, omissions or extras, for every range including empty and single-element ranges. Overlapping or split ranges give the same eigenvalue for the same index, whichever problem class with separated boundary conditions (full, half-range, Sturm-Liouville) answers.",
 ["inputs", "histories"], "all index windows and problems, including those whose spectrum lies far from zero",
 "Tests use one or a handful of windows per problem, nearly all starting at 0.",
 [MS, "matslise/matslise/abstract_matslise.cpp", HR, SL],
 [("energy bracket search", MS + " eigenvaluesByIndex"), ("queue of energy intervals", MS + " computeEigenvaluesHelper"), ("parity split", HR)],
 ["eigenvaluesByIndex", "eigenpairsByIndex"],
 [("toCheck", "queue of energy intervals with their matching angles", MS)])

prop("C09", "Energy queries return exactly the eigenvalues in the interval",
 "Asking for the eigenvalues between Emin and Emax returns every eigenvalue in that interval exactly once, in increasing order, each with its correct index, and nothing outside the interval (eigenvalues within rounding of an end point may go either way). Intervals without eigenvalues, including those entirely below the spectrum, give an empty list.",
 ["inputs"], "all energy intervals and problems, full and half-range",
 "No existing test uses the energy-interval query of the separated problems.",
 [MS, HR], [("queue of energy intervals", MS + " computeEigenvaluesHelper"), ("merge of even and odd eigenvalues", HR + " mergeEigenvalues")],
 ["Matslise::eigenvalues", "MatsliseHalf::eigenvalues"])

prop("C10", "Queries are pure: the answer does not depend on history or concurrency",
 "A constructed problem object is immutable: any query gives bit-for-bit the same answer no matter which queries were made before it, how often it is repeated, whether eigenfunctions obtained earlier are still in use, or whether other threads query the same object at the same time. Constructing the same problem again gives the same answers.",
 ["histories", "schedules"], "all interleavings of queries from one or several threads on shared objects",
 "Tests call each method a few times from one thread and never compare repeated answers.",
 [MS, SE, HR, PE, LI, CS, "matslise/util/legendre.h"],
 [("const query methods without caches", "matslise/matslise.h")],
 ["all public query methods"])

prop("C11", "Eigenfunctions solve the equation and both boundary conditions with unit norm",
 "The eigenfunction returned for an eigenvalue satisfies the left and the right boundary condition, satisfies y''=(V-E)y throughout the domain including across the matching point (value and derivative are continuous and belong together), has exactly as many interior zeros as the index of the eigenvalue, and has unit L2 norm over the domain. Consequently eigenfunctions of different eigenvalues are orthogonal.",
 ["inputs"], "all potentials, boundary conditions and indices",
 "Tests check orthogonality for a few problems and compare two tabulated functions up to scaling.",
 [MS, "matslise/matslise/abstract_matslise.cpp"], [("propagation from both ends, scaling and normalisation", MS + " propagationSteps")],
 ["Matslise::eigenfunction", "eigenpairsByIndex"])

prop("C12", "Eigenfunction evaluation is independent of how the points are supplied",
 "Evaluating an eigenfunction on an array gives at each position the same value and derivative as evaluating that point alone, for arrays of any length and (on the full-range classes) any order, with repeated points, mesh points, end points and points outside the domain. Outside the domain value and derivative are zero, and the returned second component is the derivative of the first everywhere.",
 ["inputs"], "all arrays of points",
 "Tests evaluate sorted grids inside the domain and compare only the first component or absolute values.",
 [MS, HR, SL], [("sector cursor of the array overload", MS + " MEigenfunction"), ("mirroring of negative points", HR + " EigenfunctionHalf")],
 ["Eigenfunction::operator()"],
 [("sector", "cursor that moves with the points", MS)])

prop("C13", "Half-range reduction is indistinguishable from solving the full problem",
 "For every even potential on a symmetric domain with identical boundary conditions at both ends, the half-range class returns the same indices, eigenvalues, error estimates and (up to a global sign) the same eigenfunction values and derivatives on the whole domain as the full-range class. Eigenfunctions with even index are even and those with odd index are odd.",
 ["inputs"], "all even potentials, symmetric boundary conditions, index and energy windows, and evaluation points of both signs",
 "Tests use one potential with Dirichlet conditions and compare eigenfunctions by absolute value.",
 [HR], [("even/odd split and index merge", HR), ("parity by index or by matching error", HR + " isEven")],
 ["MatsliseHalf"])

prop("C14", "Periodic-type problems return the complete spectrum with multiplicities",
 "For a problem coupling both ends through a matrix (periodic, antiperiodic), index and energy queries return every eigenvalue touched by the requested range once, ordered, with the correct index and multiplicity (indices of a double eigenvalue count twice), and each value is an eigenvalue of the coupled problem: the solution space propagated over the period meets the coupling condition in exactly that multiplicity. The eigenvalues interlace with those of the Dirichlet problem on the same domain as Sturm-Liouville theory dictates.",
 ["inputs"], "all potentials on an interval, periodic and antiperiodic coupling, all index and energy ranges",
 "Three tests with two potentials; ranges that split a double eigenvalue, even/odd starts and ranges below the spectrum are not covered.",
 [PE], [("two-angle bracketing", PE + " eigenpairsHelper"), ("pair splitting", PE + " eigenvaluePair")],
 ["PeriodicMatslise::eigenvaluesByIndex", "PeriodicMatslise::eigenvalues", "PeriodicMatslise::eigenpairsByIndex"])

prop("C15", "Periodic-type eigenfunctions satisfy the coupling condition",
 "Each eigenfunction returned for a periodic or antiperiodic problem, whether together with its eigenvalue or asked for by energy, solves the equation on the domain, has unit norm, and its value and derivative at one end are the coupled image of those at the other end; as many linearly independent eigenfunctions are returned as the multiplicity says. Asking for eigenfunctions has no effect other than returning them.",
 ["inputs"], "all potentials, couplings, simple and double eigenvalues",
 "No test requests periodic eigenfunctions.",
 [PE, MS], [("kernel of the matching matrix", PE + " eigenpairsHelper, eigenfunction")],
 ["PeriodicMatslise::eigenpairsByIndex", "PeriodicMatslise::eigenpairs", "PeriodicMatslise::eigenfunction"])

prop("C16", "The Liouville transformation is a consistent change of variables",
 "For positive p and w the pieces of the transformation tile the given interval and its image without gaps, the map to the new variable is strictly increasing with derivative sqrt(w/p), and the two directions of the map are inverse to each other, as are the two directions of the transformation of solution values. The transformed potential is the one for which transformed solutions of -(pz')'+qz=Ewz solve the Schroedinger equation with the same E.",
 ["inputs"], "all positive coefficient functions, intervals and points, including piece boundaries",
 "One test compares one symbolic example at tolerance 1e-3..1e-5.",
 [LI, "matslise/liouville.h", "matslise/util/polynomial.h", "matslise/util/legendre.h"],
 [("adaptive pieces", LI + " constructPiecewise"), ("piece lookup", LI + " findPiece"), ("z2y, y2z", LI)],
 ["LiouvilleTransformation"],
 [("toDo, pieces", "work list of intervals and accepted pieces", LI)])

prop("C17", "Sturm-Liouville eigenpairs solve the Sturm-Liouville problem",
 "For every Sturm-Liouville problem -(pz')'+qz=Ewz with positive p and w and separated boundary conditions in terms of z and z', each reported eigenvalue is the eigenvalue with that index of this problem, and each eigenfunction satisfies the equation, both boundary conditions, has index-many interior zeros and unit norm with weight w. A problem with p=w=1 gives the same answers as the Schroedinger class.",
 ["inputs"], "all coefficient functions, domains, boundary conditions, indices",
 "Four tests with fixed coefficient functions, one with tabulated eigenfunctions.",
 [SL, LI, "matslise/liouville.h", MS], [("boundary conditions through z2y", "matslise/liouville.h"), ("eigenfunctions through y2z", SL)],
 ["SturmLiouville::eigenvaluesByIndex", "SturmLiouville::eigenpairsByIndex"])

prop("C18", "Coupled-system propagation solves the matrix initial value problem",
 "For a coupled system with a symmetric matrix potential, propagating a full matrix or individual columns of initial values from any point to any other, in either direction, gives the value and derivative of the solution of Y''=(V(x)-E)Y and its derivative with respect to E to an error commensurate with the mesh accuracy; it composes, reverses, preserves the matrix Wronskian, and column-wise and full propagation agree. A diagonal potential gives the same as solving each channel separately.",
 ["inputs", "configurations"], "all symmetric matrix potentials of any size, energies, meshes, pairs of points",
 "One stable test looks at one determinant at one energy.",
 [CS, CSS, "matslise/matscs/matscs_formulas.cpp", "matslise/util/y.h"],
 [("CPM for coupled channels", CSS + " calculateTFromVEd"), ("sector walk", CS)],
 ["Matscs::propagate", "Matscs::propagateColumn"])

prop("C19", "Coupled-system ratio and angle follow the propagated solution",
 "Propagating the ratio matrix Psi=Y(Y')^-1 between any two points gives the ratio of the propagated solution, in either direction and across the matching point. The angle returned with a full-matrix propagation changes by twice the sum of the channel angles, so that for a diagonal potential it equals twice the sum of the Pruefer angle changes of the separate channels.",
 ["inputs"], "all symmetric potentials, points, energies, directions",
 "The only test of the ratio propagation is commented out; the angle is never checked.",
 [CS, CSS], [("propagatePsi_delta", CSS), ("argdet", CSS + " propagateDelta")],
 ["Matscs::propagatePsi", "Matscs::propagate"])

prop("C20", "The error estimate bounds the true eigenvalue error",
 "The error reported for an eigenvalue on the automatic mesh is a non-negative finite number that is not smaller than the true distance of that eigenvalue to the exact one, up to rounding and the solver's stopping tolerance, and it is small, of the order of the tolerance. On a coarse uniform mesh that still resolves the potential, the estimates of neighbouring eigenvalues have at least the order of magnitude of their true errors. Half-range and Sturm-Liouville problems report the estimate for the eigenvalue with the correct parity and transformed boundary conditions.",
 ["inputs"], "all problems, eigenvalues, tolerances",
 "Two tests check that the estimate is below 1e-6.",
 [MS, HR, "matslise/liouville.h"], [("Newton iteration with the lower-order formula", MS + " eigenvalueError")],
 ["eigenvalueError"])

prop("C21", "Invalid requests are rejected with an exception and leave no trace",
 "Propagating to or from a point outside the domain, asking for a negative or reversed index range, giving different left and right boundary conditions to a half-range problem, and evaluating a half-range eigenfunction on unsorted points are each rejected with an exception instead of returning a result. Valid requests are never rejected, and after a rejection the object answers all valid queries as before.",
 ["inputs", "histories"], "all invalid argument combinations, all histories mixing valid and invalid requests",
 "No existing test passes an invalid argument.",
 [MS, "matslise/matslise.h", HR, CS], [("domain check", MS + " propagate"), ("index check", MS + " computeEigenvaluesHelper"), ("checkSymmetry", "matslise/matslise.h")],
 ["all public query methods"])

prop("C22", "All precisions solve the same problem",
 "The double, long double and quadruple precision versions of the library give the same indices, eigenvalues, propagated values and angles for the same problem up to the requested tolerance, and asking a higher precision version for a tolerance beyond double precision gives correspondingly more accurate results.",
 ["inputs", "configurations"], "all problems, tolerances and scalar types",
 "Tests run four problems in the extended types.",
 ["matslise/util/legendre_data.h", "matslise/util/legendre.h", "matslise/util/calculateEta.h", "matslise/util/constants.h", SE, MS],
 [("explicit instantiations", "matslise/util/instantiate.h"), ("per-type Legendre data", "matslise/util/legendre_data.h")],
 ["Matslise<long double>", "Matslise<float128>"])

prop("C23", "Equivalent formulations of a problem have equivalent solutions",
 "Adding a constant to the potential shifts all eigenvalues by that constant; mirroring the potential and exchanging the (mirrored) boundary conditions, or translating the domain, leaves them unchanged; stretching the domain by a factor c and dividing the potential by c^2 divides them by c^2; scaling a boundary condition vector does not matter, nor does multiplying p, q and w of a Sturm-Liouville problem by the same factor (a factor on w alone divides the eigenvalues), cutting a periodic problem at another point, or giving the same function in several pieces. Index assignment is unaffected by all of these.",
 ["inputs"], "all potentials, domains, boundary conditions and transformations",
 "One test mirrors one problem.",
 [MS, SE, SB], [("symmetric treatment of both directions", SE), ("energies relative to the sector mean", SE)],
 ["Matslise::eigenvaluesByIndex", "Matslise::eigenvalues"])

prop("C24", "Polynomial arithmetic is exact algebra",
 "Sums, differences, products, scalar operations, negation, evaluation, derivatives of any order and integrals of fixed-degree polynomials follow the algebra of polynomials exactly whenever the coefficients and arguments are exactly representable, including between polynomials of different degree and through the in-place operators. Evaluating a derivative or integral directly equals evaluating the derived polynomial.",
 ["inputs"], "all coefficients, degrees, arguments, derivative orders and operator sequences",
 "One test uses two integer polynomials.",
 ["matslise/util/polynomial.h"], [("operator macros", "matslise/util/polynomial.h")],
 ["Polynomial"])

prop("C25", "Legendre projection reproduces polynomials and integrates exactly",
 "Projecting a function that is a polynomial of degree below the requested order on any interval reproduces it: the returned polynomial equals it on the whole interval and the computed integral is exact up to rounding, for every supported order and scalar type. The projection samples the function only inside the interval, and repeated requests on the same projection agree.",
 ["inputs"], "all polynomials, intervals, orders, scalar types",
 "Two tests with sin and cos at two orders.",
 ["matslise/util/legendre.h", "matslise/util/legendre_data.h"], [("nodes and weights tables", "matslise/util/legendre_data.h"), ("basis conversion", "matslise/util/legendre.h asPolynomial")],
 ["Legendre"])

prop("C26", "The eta functions satisfy their defining relations for every argument",
 "For every argument Z and every number of requested functions, the computed eta functions satisfy eta0^2 - Z*eta1^2 = 1 and the three-term recurrence eta(m-1) = Z*eta(m+1) + (2m-1)*eta(m), vary continuously across the switches between series and closed form, and do not depend on how many functions are requested or on whether arguments are passed singly or in an array.",
 ["inputs"], "all arguments of either sign and any magnitude, all counts, all scalar types",
 "Tests compare with a table at selected arguments.",
 ["matslise/util/calculateEta.h"], [("series with downward recurrence below |Z|=100", "matslise/util/calculateEta.h"), ("closed form above", "matslise/util/calculateEta.h")],
 ["calculateEta"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
