TR = 'TLA+ trace validation (TLC): '
TRUST = ' Trusts TLC, the Taylor coefficients of the problem definitions (tools/expr.py, tools/ray.py) and the recording harness; bounded to the generated problems.'
NOTE['C07'] = (TR + 'Sturm oscillation count of the solution-ray machine brackets every reported eigenvalue',
               'Every reported (index, eigenvalue) of the generated problems is checked against the exact counting function N(E) computed by the specification; all tolerances at least 3 times wider than observed on thousands of problems.' + TRUST)
NOTE['C04'] = (TR + 'the solution-ray machine (Taylor steps in exact fixed point) is run from the recorded start to the recorded end point',
               'Every recorded propagation (any two points relative to the mesh, both directions, 1/2 columns, energies from far below to far above the potential) must agree with the ray in value, derivative and both E-derivatives within 30 tol times the condition of the problem.' + TRUST)
NOTE['C05'] = (TR + 'exhaustive enumeration (Walk.tla) of all walks over four labelled points, replayed as chained propagations and compared with the direct ones; linearity, Wronskian and column agreement by the same judge',
               'All 256 walks of length 3 are enumerated by TLC, a sample of them is replayed on each generated problem; error propagation bounds come from the problem definition.' + TRUST)
NOTE['C06'] = (TR + 'zero counter of the solution-ray machine against recorded angles; matching angles against the eigenvalue count and monotonicity',
               'Every recorded angle must count exactly the zeros the ray passes and lie in the right quadrant; every recorded matching angle, rounded up, must be the exact number of eigenvalues below the energy.' + TRUST)
NOTE['C08'] = (TR + 'Search.tla enumerates all index windows and proves the bracket search complete and free of duplicates; the windows are replayed on full, half-range and Sturm-Liouville objects',
               'All 15 windows of Search.tla (times an index offset) are replayed with eigenvaluesByIndex / eigenpairsByIndex in random order on every generated problem, answers must be exactly the requested indices with the same values; reference values are bracketed by the Sturm count of the ray machine.' + TRUST)
NOTE['C09'] = (TR + 'Sturm oscillation counts at both ends of every queried interval decide how many eigenvalues and which indices have to be returned',
               'Per problem eleven intervals: below the spectrum, between, at and around eigenvalues, wide, empty; full and half-range classes.' + TRUST)
NOTE['C11'] = (TR + 'every recorded sample of an eigenfunction must continue the solution ray through the previous sample; boundary conditions, sign changes and the norm (Wronskian with the E-derivative) are judged on the same rays',
               'Eigenfunctions by index and by energy, pointwise and array evaluation; at most one segment (matching point) may deviate, by the jump a rounded eigenvalue allows. States that double precision shooting cannot resolve (see DESIGN.md, limits) are not generated.' + TRUST)
NOTE['C14'] = (TR + 'the discriminant and the Dirichlet count of the ray machine give the exact number of coupled eigenvalues below an energy (Periodic.tla); Bands.tla enumerates index windows and gap patterns',
               'Recorded spectra (index and energy windows, values, multiplicities) of generated periodic and antiperiodic problems; growth over the period is limited to e^17 (see DESIGN.md, limits).' + TRUST)
NOTE['C15'] = (TR + 'recorded coupled eigenfunctions continue the ray from sample to sample, have unit norm, the coupled image at the other end and are linearly independent in the number of the multiplicity',
               'Eigenfunctions with eigenvalues (by index, by energy interval) and by energy.' + TRUST)
NOTE['C12'] = (TR + 'Evaluate.tla enumerates all arrays of up to four labelled points (outside, end points, mesh points, inside pieces; sorted signed ones for half ranges) and proves the cursor design; they are replayed as array and as single evaluations and compared, the second component with difference quotients of the first',
               'Full, half-range, Sturm-Liouville and periodic eigenfunctions of generated problems; 60 of the 8197 arrays per problem plus long random ones.' + TRUST)
NOTE['C13'] = (TR + 'HalfMerge.tla proves that splitting a request by parity and merging gives the request; its windows are replayed on half-range and full-range objects, eigenvalues are bracketed by the Sturm count, half-range eigenfunctions continue the ray over the whole domain, have the parity of their index and equal the full-range ones',
               'Generated even potentials with identical (mirrored) conditions; eigenfunctions only where double precision shooting resolves the state.' + TRUST)
NOTE['C17'] = (TR + 'ray machine of -(pz\')\'+qz=Ewz: Sturm count brackets every eigenvalue, eigenfunctions continue the ray, meet both conditions, have index-many zeros and weighted unit norm; p=w=1 equals the Schroedinger class',
               'Generated positive p, w (constants, polynomials, exponentials, trigonometric, rational) and q; three consecutive indices up to 22.' + TRUST)
NOTE['C16'] = (TR + 'the change-of-variables machine x\' = sqrt(w/p) (power series with verified witnesses) is run between recorded points of the map; the recorded potential, transformed values and their inverses are judged against the exact jets of p, w, q; Liouville.tla checks the piece work list exhaustively',
               'Pieces tile both domains, r2x/x2r are increasing, mutually inverse and match the integral, V and z2y/y2z match the Liouville formulas at recorded points.' + TRUST)
SE = ' Classes: Matslise, MatsliseHalf, PeriodicMatslise, SturmLiouville.'
NOTE['C03'] = (TR + 'Session.tla enumerates all request histories of length 4; they are replayed with instrumented potentials and SessionTrace.tla judges the evaluation counts (none after construction, none outside of the domain)',
               'Every evaluation of the user functions is counted by the harness with phase and position.' + SE + TRUST)
NOTE['C10'] = (TR + 'Session.tla enumerates all request histories of length 4 and proves purity of the design; they are replayed, answers recorded with all digits, and SessionTrace.tla (a machine whose state is the set of known answers) rejects any answer that differs from an earlier one; concurrent requests on 4 threads, some under ThreadSanitizer',
               'Repeated requests on one object, on a second object of the same problem, and on four threads have to give identical digits.' + SE + TRUST)
NOTE['C21'] = (TR + 'Session.tla histories mixing valid and invalid requests are replayed; SessionTrace.tla decides validity of each request and requires exactly the invalid ones to be rejected, and later answers to be unchanged',
               'Invalid: points outside of the domain (by one ulp, far, infinite), negative and reversed index ranges, different half-range conditions, unsorted half-range arrays.' + SE + TRUST)
NOTE['C01'] = (TR + 'recorded meshes (every sector with end points, width, direction) must be behaviours of the mesh growing machine Mesh.tla: contiguous, positive, from end to end, forward before and backward after the match',
               'Meshes of full, half-range, periodic and coupled problems from the automatic and the uniform builder, for potentials that are smooth, oscillating, steep, spiked, constant, broken or huge, in small, large and far away domains; termination is the time limit of the harness.' + TRUST)
NOTE['C02'] = (TR + 'Mesh.tla enumerates all lists of up to three declared positions (unsorted, repeated, at and outside of the ends); the meshes built for them are judged by the same machine, solutions across discontinuities by the solution-ray machine',
               'No recorded sector has a declared position strictly inside; positions down to one rounding error apart; propagations across declared jumps reach the accuracy of the tolerance.' + TRUST)
NOTE['C18'] = (TR + 'the coupled solution-ray machine (Coupled.tla: Taylor steps of the matrix equation in exact fixed point) is run from the recorded start to the recorded end; walks of Walk.tla, Wronskian, columns and separate channels are compared by the near judge',
               'Systems of 1 to 3 (thorough: 4) channels, smooth and with discontinuities, any two points, both directions, with derivatives with respect to E.' + TRUST)
NOTE['C19'] = (TR + 'determinant of the coupled solution ray: its quadrant turns (walked over every step and from the scaled to the original angle) decide the recorded angle including all multiples of 2 pi; recorded ratio matrices are judged on the ray of their start',
               'General, diagonal and swapped initial values, any two points and walks, both directions; ill-conditioned cases (condition above 1e8) are skipped.' + TRUST)
NOTE['C24'] = (TR + 'Poly.tla defines the ring of integer polynomials (ring and calculus laws checked exhaustively on small ones) and enumerates all two-operation programs; they are replayed in the real class and PolyTrace.tla, whose state is the set of registers, judges every result, every side effect and every observation',
               'All 841 two-operation programs over the public operators, degrees 0 to 8, in double and long double, coefficients scaled by powers of two; exact equality.' + ' Trusts TLC and the recording harness; bounded to the generated programs with exactly representable values.')
NOTE['C26'] = (TR + 'the eta machine (series, and angle doubling for large arguments, in 32 digit decimal floats) is run for every argument; recorded values, recurrence and identity are judged against it; the model EtaMC shows both ways agree and satisfy the relations',
               '2,800 arguments of either sign per run, from 0 over the switch at |Z|=100 to -1e8 and the overflow limit, in double, long double and quadruple precision (the latter to 21 digits), for all instantiated counts, single and array calls; tolerance 64 rounding units times the condition.' + ' Trusts TLC and the recording harness; bounded to the generated arguments.')
NOTE['C25'] = (TR + 'the projection machine Legendre.tla (32 digit decimal floats; reproduction, orthogonality and integral checked as invariants) is run for every generated polynomial; recorded coefficients, matrix valued coefficients, integral, polynomial and the change of basis are judged against it',
               'All orders 1 to 18 in double, long double and quadruple precision (the latter to 28 digits), monomials and random polynomials up to the highest degree below the order, intervals of width 1e-12 to 1000 near and far from 0; samples inside, repeated requests identical.' + ' Trusts TLC and the recording harness; bounded to the generated polynomials.')
NOTE['C23'] = (TR + 'Forms.tla defines the equivalence generators (shift, mirror, move, stretch, scale, split), proves on all small discrete problems that they keep the index of every eigenvalue, and enumerates all words of up to three generators; every word is applied to a generated problem and FormsTrace.tla maps the recorded eigenvalues generator by generator to those recorded for the transformed problem',
               'Full, half-range, periodic and Sturm-Liouville problems, by index and by energy; all 258 words. Tolerances are those of C07/C14, more than three times wider than observed on 12,000 problems.' + TRUST)
NOTE['C22'] = (TR + 'the ray machine decides the results of every precision: at equal tolerances with 16 decimals (indices, eigenvalues, values, angles), and for tolerances beyond double precision with 32 decimals and 40 Taylor terms (RayHi.tla, RayHiTrace.tla): Sturm counts bracket eigenvalues within 20 tol, propagated values within 30 tol between mesh points and 300 tol inside sectors, eigenfunctions continue the ray, meet their conditions and have unit norm with all digits.',
               'Full and half-range problems in double, long double (down to 1e-15) and quadruple precision (down to 1e-22). Coupled, periodic and Sturm-Liouville problems in extended precisions are not included.' + TRUST)
NOTE['C20'] = (TR + 'the Sturm count of the ray machine brackets the exact eigenvalue around every reported one, at the distance of the reported error estimate; estimates with and without index and their size are compared by the near judge',
               'Full, half-range and Sturm-Liouville problems on automatic meshes (estimate >= true error up to the stopping tolerance, and <= 100 tol), and on coarse uniform meshes where errors are far above rounding (there 10 times the largest of three neighbouring estimates has to cover the errors; meshes that do not resolve the potential are not generated).' + TRUST)
