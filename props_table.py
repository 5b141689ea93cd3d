# executed by mk_manifest.py
TB = 'Trusts numpy/scipy dense linear algebra as oracle, the PyPy interpreter PyTeN is installed for, and the bounds on system size stated in DESIGN.md; exploration, not proof.'

prop('C01', 'Moving the orthogonality centre never changes the represented state',
     'For every finite matrix product state and every sequence of requests to move its centre bond (without truncation), the '
     'represented state vector, including its norm, is unchanged. After any move that crosses all sites (and after every later move) '
     'all tensors left of the centre are left-isometric, all tensors right of it are right-isometric, and the bond matrix has unit norm. '
     'Bond dimensions never grow by a move.',
     ['inputs', 'histories'], 'all MPS (length, local dimensions, bond dimensions incl. rank-deficient ones, real and complex, open and non-open), all sequences of centre positions',
     'tests call position only as a 0/N sweep and check nothing about the vector; the quantifier over histories of moves and rank-deficient tensors is never reached',
     [M, F], [('centre shift with QR or SVD', M + ': __position__'), ('QR splitting of a tensor', F + ': prepareTensor'), ('SVD splitting', F + ': prepareTruncate')],
     ['state vector contracted from the tensors, bond matrix and norm factor', 'isometry residuals'], TB,
     'property-based testing: random move histories against a dense state-vector oracle',
     [('tensors, bond matrix, centre position, norm factor', 'together define the state', M + ': class MPS')])

prop('C02', 'Measurements equal exact expectation values and do not disturb the state',
     'For every state and wherever its centre sits, local expectation values, lists of local expectation values, n-point correlators with repeated '
     'sites, fermionic correlators with parity strings, and matrix elements between two states equal the values computed from the exact state vectors, '
     'for real and complex operators alike. Measuring leaves the represented state unchanged.',
     ['inputs', 'configurations'], 'all canonical MPS with arbitrary local dimensions, all complex operators, all sorted site lists with repetitions, all centre positions',
     'tests compare Sz and one SzSz correlator of real states with each other; complex operators, mixed local dimensions, odd fermionic strings and state preservation are not reached',
     [M, F], [('local and list measurements', M + ': measureLocal, measureList, measureMatrixElementList'), ('correlators with strings', M + ': __measure__'),
              ('list measurement kernels', F + ': measureLocal, matrixElementLocal, measure')],
     ['returned numbers', 'state vector before and after'], TB, 'property-based testing: differential against dense expectation values')

prop('C03', 'Inner products equal the exact vector inner product',
     'The overlap of two states equals the inner product of their exact state vectors, including all phases and norm factors, for any combination of centre positions and '
     'bond dimensions. It is conjugate-symmetric, gives the squared norm on the diagonal, and leaves both operands representing the same vectors with the same centre.',
     ['inputs', 'configurations'], 'all pairs of open MPS of equal length and local dimensions, all centre positions, real/complex, also the tensor-list form',
     'tests use overlaps only after forcing the boundary bond matrix to one, so sign and phase errors cannot show',
     [M, F], [('overlap contraction', F + ': overlap'), ('layer contraction', F + ': addELayer, contractE'), ('MPS.dot', M + ': dot')],
     ['returned overlap', 'operands before and after'], TB, 'property-based testing: differential against dense inner products')

prop('C04', 'MPS arithmetic is vector-space arithmetic',
     'Sums, differences, negation, conjugation, and multiplication or division by real or complex scalars (also in place) of matrix product states represent exactly the corresponding '
     'linear combination of the state vectors, whatever the element types and centre positions of the operands. Operands of non-in-place operations, and copies, are unaffected by the '
     'operation and by any later change of the result.',
     ['inputs', 'histories'], 'all expression trees over states and scalars of bounded size, real/complex mixtures, any centre positions, any lengths >= 2',
     'tests add two real normalised states at one centre position and compare two observables; real+complex mixtures, complex scalars, chained and in-place operations are not reached',
     [M, F], [('operators', M + ': __add__, __iadd__, __sub__, __mul__, __imul__, __rmul__, __truediv__, __neg__, conj, copy'), ('direct sum of tensors', F + ': addMPS, directsum')],
     ['state vector of result and operands'], TB, 'property-based testing: random expression trees against dense vector arithmetic')

prop('C05', 'Truncation is bounded, near-optimal and honest',
     'After a truncation with maximal bond dimension D no bond exceeds D, the norm of the state is kept, and the fidelity with the original is at most the kept Schmidt weight of every bond and at least one minus the sum of '
     'the discarded weights of all bonds. Truncation parameters that discard nothing leave the state vector unchanged. The result is in canonical form.',
     ['inputs', 'configurations'], 'all finite canonical MPS, all D >= 1 and thresholds, all truncating operations (dedicated truncation, truncating centre moves, list truncation, single-tensor truncation)',
     'tests compare two observables before and after one truncation; optimality and the caps are not tested on arbitrary spectra',
     [M, F], [('truncation sweep', M + ': __truncate__, __position__'), ('single tensor truncation', F + ': prepareTruncate'), ('list truncation', F + ': truncateMPS')],
     ['bond dimensions', 'fidelity with the original vector', 'isometry residuals'], TB, 'property-based testing: exact Schmidt spectra give upper and lower bounds on the result')

prop('C06', 'Schmidt values and canonical form are exact for finite states',
     'The Schmidt values reported at any bond equal the normalised singular values of the exact state vector cut at that bond. The canonical (Gamma, Lambda) form satisfies both orthonormality conditions at '
     'every site, carries those same Schmidt values, and reassembles to the original state up to normalisation and phase.',
     ['inputs'], 'all open MPS with full-rank and moderately rank-deficient bonds, real/complex, mixed local dimensions',
     'tests check orthonormality of the canonical form for one size; the Schmidt values and the state itself are never compared with an independent decomposition',
     [M, F], [('Schmidt values', M + ': getSchmidt'), ('canonical form', F + ': canonizeMPS; ' + M + ': canonize')],
     ['Schmidt spectra', 'Gamma and Lambda tensors'], TB, 'property-based testing: differential against SVDs of the dense vector')

prop('C07', 'Gates and operators act as the exact operators they denote',
     'Applying a one-site gate or a matrix product operator to a state gives exactly the operator acting on the state vector; applying a two-site gate gives it up to normalisation when the state norm is not conserved, and exactly when the gate is unitary and nothing is truncated. '
     'A truncated two-site gate respects the bond cap, discards the smallest Schmidt values, and reports exactly the discarded weight and the new bond dimension.',
     ['inputs', 'histories'], 'all sequences of one- and two-site gates at arbitrary sites with arbitrary caps and thresholds, all MPOs of bounded bond dimension, in-place and copying forms',
     'no stable test applies a gate or an operator to a state (the only tests that do fail on this commit)',
     [M, F], [('gates', M + ': applyTwoSiteGate, applyOneSiteGate'), ('operator application', M + ': applyMPO; ' + F + ': applyMPO')],
     ['state vector before and after', 'returned truncated weight and dimension'], TB, 'property-based testing: random gate circuits against dense operators')

prop('C08', 'Tensor decompositions reconstruct their input',
     'Every tensor or matrix splitting in the library returns factors that multiply back to the input (times the returned norm), with the promised isometry, ordering, phase and truncation conventions; fine-graining, direct sums and list orthonormalisation '
     'preserve the represented state in the same sense.',
     ['inputs'], 'all tensors and matrices of bounded shape: wide, tall, rank-deficient, with zero columns, real/complex, tensor lists with differing bond dimensions',
     'no test calls these routines directly; sweeps hide compensating errors',
     [F], [('splittings', F + ': prepareTensor, prepareTruncate, prepareTensorSVD, svd, qr'), ('list orthonormalisation', F + ': orthonormalizeQR, orthonormalizeSVD'), ('fine graining', F + ': FinegrainDolfi')],
     ['products of the returned factors'], TB, 'property-based testing: reconstruction round trips')

prop('C09', 'Model Hamiltonians encode the operator they are named after',
     'For every choice of site-dependent couplings the open-boundary matrix product operator of each model multiplies out to exactly the textbook Hamiltonian (spin chains, transverse-field Ising, spinless fermions and Hubbard chains after Jordan-Wigner), and it is Hermitian. '
     'The infinite-system form of the same model has the same bulk terms.',
     ['inputs', 'configurations'], 'all coupling vectors (zero, negative, non-uniform), all chain lengths within bounds, all models, open and infinite boundary conditions',
     'tests check ground-state energies of uniform couplings only; site dependence and most models are never evaluated',
     [H], [('operator construction', H + ': XXZ, TFI, SpinlessFermions, HubbardChain, XXZflipped, JessHamiltonian, ...')],
     ['dense matrix of the operator'], TB, 'property-based testing: differential against independently built Kronecker/fermionic operators')

prop('C10', 'Two-site gates exponentiate the bond Hamiltonians',
     'The nearest-neighbour gates obtained from a Hamiltonian are the exponentials of bond terms whose sum over all bonds is exactly the full Hamiltonian. They are the identity at zero time, compose additively in time, invert under time reversal and are unitary for imaginary argument.',
     ['inputs', 'configurations'], 'all models with nearest-neighbour terms, all couplings, all bonds, all real/imaginary/complex time arguments, all lengths >= 2',
     'no stable test calls the gate construction',
     [H], [('gate construction', H + ': MPO.twoSiteGate')], ['gate tensors'], TB, 'property-based testing: matrix logarithm-free comparison with expm of dense bond terms')

prop('C11', 'Environments and effective Hamiltonians agree with the full contraction',
     'Left and right environments, boundary layers and single-site, bond and two-site effective Hamiltonians, for arbitrary states and operators, reproduce the exact matrix elements of the full operator between the full states. Effective Hamiltonians of Hermitian operators are Hermitian, '
     'and combining any left and right environment at any site gives the same total.',
     ['inputs'], 'all MPS/MPO pairs (also different bra and ket), all sites and both directions, all MPO bond dimensions, boundary MPOs',
     'tests exercise them only through converged ground-state energies',
     [F], [('layers', F + ': addLayer, addELayer, initializeLayer, contractMPO, contractE, getL, getR'), ('effective products', F + ': HAproductSingleSite, HAproductZeroSite, HAproductBond, contractionH')],
     ['environment tensors', 'matrix elements'], TB, 'property-based testing: differential against dense operators and vectors')

prop('C12', 'DMRG is variational, honest and reaches the ground state',
     'Whatever the Hamiltonian, initial state, sweep count, solver and bond limit, the energy reported by a ground-state search is the expectation value of the Hamiltonian in the normalised state it leaves behind, and never lies below the exact ground-state energy. '
     'Energies do not increase with further sweeps, bond limits are respected, and with sufficient bond dimension the exact ground-state energy of generic Hamiltonians is reached.',
     ['inputs', 'configurations', 'histories'], 'all supported models/couplings, solvers, one- and two-site sweeps in any order, initial states and bond limits within bounds',
     'tests run four fixed Hamiltonians to convergence; the reported energy is never compared with the state that is left behind',
     [E, F], [('sweeps', E + ': DMRGengine.__simulate__, __simulateTwoSite__'), ('local eigensolvers', F + ': eigsh, lanczos, lobpcg')],
     ['returned energy', 'final state vector'], TB, 'property-based testing: differential against exact diagonalisation with invariants over sweep histories')

prop('C13', 'TEBD performs the second-order Trotter evolution it claims',
     'Without truncation every TEBD call applies exactly the second-order Trotter product of the bond gates for the requested number of steps, in any split of the steps over calls, and tracks time and step count independently of verbosity. The error against the exact evolution is of third order per step, '
     'real-time evolution conserves the norm, imaginary-time evolution keeps the state normalised, the bond cap is respected and the accumulated truncated weight equals what was discarded.',
     ['inputs', 'histories', 'configurations'], 'all nearest-neighbour Hamiltonians, initial states, complex time steps, step counts and splits, caps, thresholds, verbosity levels',
     'the TEBD tests all fail on this commit (they pass removed arguments), so nothing is tested',
     [E, M, H], [('evolution loop', E + ': TimeEvolutionEngine.__doTEBD__, applyEven, applyOdd'), ('gate application', M + ': applyTwoSiteGate')],
     ['state vector, time, step count, truncated weight after every call'], TB, 'property-based testing: step-by-step comparison with a dense Trotter model and with exact evolution')

prop('C14', 'TDVP follows the exact dynamics and conserves norm and energy',
     'At full bond dimension TDVP reproduces the exact evolution to the accuracy of its splitting and solver, for every local solver and independent of verbosity. At any bond dimension real-time TDVP conserves norm and energy to solver accuracy, keeps bond dimensions fixed, and tracks time and step count correctly over any split of steps into calls.',
     ['inputs', 'histories', 'configurations'], 'all models and couplings, initial states, time steps, solvers, splits into calls',
     'the TDVP tests all fail on this commit, so nothing is tested',
     [E, F, L, X], [('TDVP sweeps', E + ': TimeEvolutionEngine.__doTDVP__'), ('local evolution', F + ': evolveTensor*, evolveMatrix*')],
     ['state vector, energy, norm, time'], TB, 'property-based testing: differential against dense propagators, conservation invariants')

prop('C15', 'Krylov solvers agree with dense linear algebra',
     'Lanczos eigenpairs, Lanczos time steps and Krylov exponentials computed from matrix-vector products agree with dense diagonalisation and matrix exponentials of the same operator within their stated accuracy, for real and complex operators and times, and report Krylov breakdown by returning the exact result on the invariant subspace.',
     ['inputs', 'configurations'], 'all Hermitian matrices (degenerate, block-diagonal, small), start vectors incl. eigenvectors, all Krylov dimensions, complex times',
     'only reached through converged DMRG runs',
     [L, X, F], [('Lanczos', L + ': LanczosEngine, LanczosTimeEvolution'), ('expmv', X + ': gexpmv'), ('local evolution', F + ': evolveTensorLan, evolveTensorSexpmv, evolveTensorsolve_ivp')],
     ['returned eigenpairs and vectors'], TB, 'property-based testing: differential against dense eigh/expm')

prop('C16', 'Regauging an infinite state changes its gauge only',
     'Bringing an infinite state into left, right or symmetric gauge gives tensors with exactly the promised orthonormality, whose transfer matrix has dominant eigenvalue one and the otherwise unchanged normalised spectrum, and leaves all local expectation values and correlations per unit cell unchanged. '
     'The symmetric gauge returns the Schmidt values, positive, descending and normalised, equal to those of the exact fixed points.',
     ['inputs', 'configurations'], 'all injective unit cells (length, mixed local and bond dimensions, real/complex), list, object and single-tensor forms, all gauges, sequences of regaugings',
     'tests check orthonormality of the output only; that the state is still the same is never checked',
     [F, M], [('unit-cell regauging', F + ': regaugeIMPS; ' + M + ': regauge'), ('single tensor', F + ': regauge'), ('canonical form', F + ': canonizeMPS')],
     ['tensors', 'transfer-matrix spectra', 'expectation values from dense fixed points'], TB, 'property-based testing: metamorphic (gauge invariance) and differential against dense transfer matrices')

prop('C17', 'Transfer-operator solvers satisfy their defining equations',
     'Transfer-operator products, dominant eigenpairs, bond density matrices and the linear systems for infinite environments satisfy their defining equations when re-evaluated with dense transfer matrices, in both directions, for mixed and multi-site cells and any momentum; and infinite environments give the exact energy density.',
     ['inputs', 'configurations'], 'all tensors of bounded size, upper/lower pairs with differing bond dimension, both directions, momenta of either sign, unit cells',
     'tests cover one size and zero momentum with a single tensor',
     [F], [('transfer operators', F + ': TransferOperator, MixedTransferOperator, UnitcellTransferOperator'), ('eigenvectors', F + ': TMeigs, UnitcellTMeigs'), ('linear solvers', F + ': RENORMBLOCKHAMGMRES, TDVPGMRESUC, getBoundaryHams, computeUCsteadyStateHamiltonianGMRES')],
     ['residuals against dense transfer matrices'], TB, 'property-based testing: residual oracle with dense transfer matrices')

prop('C18', 'Network contraction equals the Einstein sum and rejects bad networks',
     'Contracting a tensor network gives the Einstein summation of its index labels for every valid network, contraction order and free-index order, including traces, disconnected parts, scalars and size-one legs. Ill-formed index lists are rejected instead of producing a number, and inputs are not modified.',
     ['inputs', 'programs'], 'all networks up to bounded tensor and index counts, all contraction orders, malformed variants of them',
     'the routine is only used with a dozen fixed networks',
     [N], [('contraction', N + ': ncon'), ('input checks', N + ': check_inputs')], ['result tensor or raised error'], TB, 'property-based testing: grammar-based network generation, differential against einsum')

prop('C19', 'Saving, loading and checkpointing reproduce the object and its future',
     'Saving and loading a state or a simulation (with its operator) reproduces it exactly, including norm, gauge and bond limit, and the loaded object behaves identically under every later operation. A simulation restored from a checkpoint written during a run and continued ends in the same state as the uninterrupted run.',
     ['crash_points', 'histories'], 'all states and engines reachable by bounded operation sequences, every checkpoint of a run, all continuations',
     'no test saves or loads anything',
     [M, E], [('persistence', M + ': save, load'), ('engine persistence', E + ': Container.save, load; checkpoint writes in doTEBD, doTDVP, DMRG')],
     ['reloaded object vs original', 'final states of resumed and uninterrupted runs'], TB, 'property-based testing: round trips and resume-equivalence over generated histories')

prop('C20', 'Infinite ground-state searches are variational and reach exact energies',
     'Infinite-system ground-state searches leave a state whose energy density never lies below the exact one, return that energy density where they return one, keep the promised gauge, lower the energy as they proceed, and for solvable gapped Hamiltonians converge to the exact energy density within the accuracy the bond dimension permits, for every solver.',
     ['inputs', 'configurations'], 'solvable couplings (transverse-field Ising and XY chains, cell-periodic), bond dimensions, initial states, solvers, unit cells',
     'tests check one critical coupling with one solver',
     [E, F], [('VUMPS', E + ': VUMPSengine'), ('IDMRG', E + ': IDMRGengine'), ('gradient search', E + ': HomogeneousIMPSengine')],
     ['returned energy', 'final tensors'], TB, 'property-based testing: differential against exact energy densities and dense transfer matrices')

prop('C21', 'Basis bit operations and small utilities match their definitions',
     'Setting, clearing, flipping and reading bits, enumerating the basis states of a particle sector, root and grid bisection, bracketing, grid spacing, random periodic functions, smoothing and diagonality tests agree with their mathematical definitions for every valid argument.',
     ['inputs'], 'all integers and bit positions in range, all particle sectors up to 64 sites, all grids, all continuous functions with a sign change',
     'only a few values are touched by failing tests',
     [B, U], [('bit operations', B), ('utilities', U)], ['return values'], TB, 'property-based testing: differential against direct definitions')

prop('C22', 'Any history of operations keeps state, norm and observers consistent',
     'After every step of an arbitrary sequence of centre moves, gates, scalings, sums, copies, truncations, measurements, canonisations and reloads on a pool of states, every state in the pool still represents exactly the vector a dense model of the same history holds, and every measurement returns the value of that vector. '
     'No operation on one state ever changes another.',
     ['histories'], 'all interleavings of public operations on up to three states, up to a bounded length',
     'tests run fixed short scripts on one state',
     [M, F], [('all state operations', M + ': class MPS')], ['state vectors of every pool member after every step'], TB, 'stateful model-based testing against a pool of dense vectors')

prop('C23', 'Invalid requests are refused without damaging the state',
     'Requests outside the domain of an operation (positions or sites out of range, mismatched lengths or dimensions, unsorted sites, unknown solvers or gauges, gates or operators of wrong rank) raise an error instead of returning a value, and leave the state they were addressed to representing the same vector.',
     ['inputs', 'fault_sequences'], 'all generated invalid arguments of every public operation with a documented or asserted domain, followed by valid operations',
     'no test passes an invalid argument',
     [M, F, E, N], [('argument checks', M + '; ' + F + '; ' + E)], ['raised errors', 'state vector before and after'], TB, 'property-based testing: fault injection on arguments with state comparison')

prop('C24', 'Constructors build exactly the state they describe',
     'Product states, states from tensor lists (with or without a centre matrix), constant and random states represent exactly the vector their arguments denote (up to the documented normalisation), with the requested length, local dimensions, boundary condition, element type and bond limit. The arguments are not modified and not aliased.',
     ['inputs'], 'all local state lists, tensor lists, centre matrices, dimensions, element types and boundary conditions within bounds',
     'tests construct random states only and never look at the vector',
     [M, F], [('constructors', M + ': random, ones, zeros, fromList, productState'), ('initialiser', F + ': MPSinitializer')], ['state vector', 'attributes'], TB, 'property-based testing: differential against directly built vectors')
