"""The properties, and what decides each; gen_manifest.py writes properties.jsonl and MANIFEST.json from this."""
PBT = "property-based testing (Hypothesis, shrinking) "

PROPS = [
 dict(id="C01", title="Dense phi-functions equal the exact matrix functions",
  statement="For every square matrix and every order, each dense phi-function routine (extended-matrix, squaring, inverse-based, phi-times-block) returns exp(A) and phi_k(A) = sum A^j/(j+k)! to working accuracy, and the routines agree with each other. That includes singular, zero, nilpotent, defective and non-normal matrices for every routine that does not invert A, and all lower orders when all are asked for.",
  over=["inputs"], quant="All matrices of the 15 families generated (dim 1..20, norms from 0 to several tens), all orders 0..4, single and multiple right-hand sides.",
  why="The tests compare a handful of fixed matrices at loose tolerances; singular, nilpotent, scaled and 1x1 cases and the higher orders are never reached.",
  mech=[("extended-matrix exponential", "ormatex_py/matexp_phi.py:f_phi_k_ext"), ("modified squaring", "ormatex_py/matexp_phi.py:f_phi_k_sq_all"), ("phi_k(A)B by augmentation", "ormatex_py/matexp_phi.py:f_phi_k_appl")],
  technique=PBT+"against 80-bit Taylor/augmented-matrix exponentials, recurrences and cross-routine differential", note="Exploration: random and corner matrices; tolerance from an a-posteriori squaring bound."),
 dict(id="C02", title="Partial-fraction phi-functions reproduce the rational approximant they name",
  statement="For every method name and order, the partial-fraction evaluation of exp(A)B and phi_k(A)B on any matrix equals the named rational approximant (CRAM, Pade, Crank-Nicolson, ...) applied to A, and approximates the exact function to the accuracy of that approximant on its domain. Complex-pole tables work in conjugate pairs and return real results for real data.",
  over=["inputs", "configurations"], quant="Every table entry, scalar arguments on the relevant half-line, matrices of all families, several right-hand sides.",
  why="Tests use two tables on one matrix at 1e-4; a wrong residue or pole in any other table passes.",
  mech=[("tables of poles and residues", "ormatex_py/matexp_phi_pfd_dict.py:pfd_dict"), ("partial-fraction sum", "ormatex_py/matexp_phi.py:f_phi_k_pfd")],
  technique=PBT+"against exact Pade approximants in multiprecision and 80-bit exponentials", note="Exploration over all tables; three genuine table defects were found and repaired."),
 dict(id="C03", title="The Arnoldi process returns an orthonormal Krylov basis and its projection",
  statement="For every linear operator, start vector, maximal dimension and orthogonalisation depth, the Krylov process returns a start-vector-normalised basis and a Hessenberg matrix satisfying the Arnoldi relation, orthonormal for full depth, with the basis spanning the Krylov space. When the space is exhausted early the process stops there and says so, without dividing by zero or reading past the breakdown.",
  over=["inputs", "configurations"], quant="Matrix and composite operators of dim 1..60, m from 1 to above n, iom from 1 up, vectors that lie in small invariant subspaces.",
  why="One test checks orthonormality for one random matrix; breakdowns and truncated depths are not reached.",
  mech=[("modified Gram-Schmidt with depth iom and breakdown test", "ormatex_py/arnoldi_jax.py:arnoldi_lop")],
  technique=PBT+"invariants (Arnoldi relation, orthonormality) and an 80-bit Arnoldi model", note="Exploration; invariants are checked to roundoff."),
 dict(id="C04", title="Krylov products exp(A dt)v and phi_k(A dt)v are exact up to the subspace",
  statement="For every operator, vector, time step and order, the Krylov phi-vector product equals the exact phi_k(dt A)v when the subspace can hold the whole Krylov space, and equals the Galerkin projection |v| V phi_k(dt H) e1 otherwise. Zero vectors, zero operators and early breakdown give the exact finite answer.",
  over=["inputs", "configurations"], quant="dim 1..40, dt of both signs over decades, subspace sizes below, at and above the dimension, depths of orthogonalisation.",
  why="Tests check a few matrices with full subspace; breakdown, truncation, negative dt are not sampled.",
  mech=[("Krylov projection and small dense phi", "ormatex_py/matexp_krylov.py:phi_linop"), ("breakdown masking", "ormatex_py/arnoldi_jax.py:arnoldi_lop")],
  technique=PBT+"against 80-bit phi functions and an 80-bit Galerkin model", note="Exploration; assumes the dense phi accuracy decided by C01."),
 dict(id="C05", title="Linear combinations of phi-functions in one Krylov solve are exact",
  statement="For every operator, time step and list of vectors, the combined evaluation of sum_j phi_j(dt A) b_j returns that sum to the accuracy of the subspace. It is linear in the vectors and consistent with evaluating the terms one at a time, for any number of vectors and any of them zero.",
  over=["inputs", "configurations"], quant="dim 1..50, 1..5 vectors, zero vectors, dt over decades and both signs.",
  why="The one existing test fixes matrix and vectors; zero vectors and other lengths are not reached.",
  mech=[("augmented operator", "ormatex_py/ode_sys.py:AugMatrixLinOp"), ("fixed-step KIOPS", "ormatex_py/matexp_krylov.py:kiops_fixedsteps")],
  technique=PBT+"against 80-bit augmented exponentials; linearity as a metamorphic relation", note="Exploration."),
 dict(id="C06", title="Linear operators act as the matrices they stand for",
  statement="Every linear operator type applies, to any vector, exactly the matrix it stands for, whether called, multiplied, composed, scaled, summed or made dense, on dense and sparse storage. The augmented operator used for phi-combinations is the documented block matrix.",
  over=["inputs", "programs"], quant="All operator types and nested compositions, dims 1..8, vectors of all kinds, dense and sparse storage.",
  why="Operators are only exercised incidentally with one or two matrices in the tests.",
  mech=[("operator classes", "ormatex_py/ode_sys.py:LinOp"), ("augmented operator", "ormatex_py/ode_sys.py:AugMatrixLinOp"), ("extended system", "ormatex_py/matexp_leja.py:build_a_tilde")],
  technique=PBT+"generated operator expressions against a NumPy longdouble model", note="Exploration."),
 dict(id="C07", title="Jacobian operators give the derivative of the right-hand side",
  statement="For every smooth system, state, time and direction, the Jacobian operator (automatic, user-supplied, or finite-difference) applies the derivative of the right-hand side with respect to the state, and its time-derivative term is the derivative with respect to time, with the same extra arguments as the right-hand side. The finite-difference one does so to finite-difference accuracy for every scale of state and direction, including zero states.",
  over=["inputs", "configurations"], quant="Random nonlinear nonautonomous systems, states including 0, directions of all scales, extra arguments present or absent.",
  why="Tests only use them through a full integration of two example problems.",
  mech=[("autodiff", "ormatex_py/ode_sys.py:AdJacLinOp"), ("custom", "ormatex_py/ode_sys.py:CustomJacLinOp"), ("finite difference", "ormatex_py/ode_sys.py:FdJacLinOp")],
  technique=PBT+"against analytic 80-bit Jacobians", note="Exploration; one genuine defect (0/0 at u=0) repaired."),
 dict(id="C08", title="Exponential integrators are exact on linear problems they cover",
  statement="On every system that is linear in the state with forcing polynomial in time up to the degree a method accounts for, each exponential method returns the exact solution for any step size, sign of step, start time and number of steps, to the accuracy of its phi-evaluation. Rational variants are exact up to their rational approximant.",
  over=["inputs", "configurations", "histories"], quant="All Rosenbrock, split, and partial-fraction methods, dims 1..8, stiff and non-normal operators, dt over decades, t0 != 0, multi-step.",
  why="Tests integrate one 3-species decay chain; non-zero t0, forcing, other methods and large steps are not reached.",
  mech=[("Rosenbrock steps", "ormatex_py/ode_exp.py:ExpRBIntegrator"), ("split steps", "ormatex_py/ode_exp.py:ExpSplitIntegrator")],
  technique=PBT+"against 80-bit exact solutions", note="Exploration."),
 dict(id="C09", title="Every step of every scheme is the documented formula",
  statement="For every nonlinear, nonautonomous system, state, time, step and extra right-hand-side arguments, one step of each integrator equals its documented formula evaluated with exact phi-functions, including multistep methods fed with unequal earlier steps and their first-step fallback. Reducing the Krylov subspace to the sizes the user asks for only changes the result within the projection error.",
  over=["inputs", "histories", "configurations"], quant="13 methods, dims 1..5, 1..3 steps of unequal size, four kinds of Jacobian, changing extra arguments.",
  why="Tests check the final error of two problems; a wrong coefficient in a higher-order term or in nonautonomous terms can pass.",
  mech=[("stages and remainder terms", "ormatex_py/ode_exp.py:ExpRBIntegrator"), ("split schemes", "ormatex_py/ode_exp.py:ExpSplitIntegrator"), ("Runge-Kutta", "ormatex_py/ode_explicit.py:RKIntegrator")],
  technique=PBT+"step-by-step differential against an 80-bit reference implementation of the formulas", note="Exploration; four genuine defects in passing extra arguments repaired."),
 dict(id="C10", title="Every method converges at its advertised order and is what its name says",
  statement="For every smooth nonlinear nonautonomous problem, the error of every method at a fixed time decreases at least at the method's advertised order as the step is reduced. Methods named after a classical scheme reproduce that scheme's steps.",
  over=["inputs", "configurations"], quant="All exponential, RK and classical method names, random nonlinear systems, t0 != 0, forward and backward time.",
  why="Tests fit the order on one Lotka-Volterra problem for three methods, with wide slack.",
  mech=[("method dispatch", "ormatex_py/integrate_wrapper.py:integrate"), ("classical methods", "ormatex_py/integrate_wrapper.py:integrate_diffrax"), ("exponential methods", "ormatex_py/ode_exp.py:ExpRBIntegrator")],
  technique=PBT+"convergence as a metamorphic relation against high-accuracy solutions; differential against textbook tableaux", note="Exploration; two genuine defects in the diffrax time grid repaired."),
 dict(id="C11", title="Leja interpolation is accurate whenever it reports convergence",
  statement="Whenever a Leja evaluation of exp(dt A)v (real, conjugate-pair, or imaginary points, with or without substeps, any divided-difference method) reports convergence, its result is within a modest multiple of the requested tolerance of the exact value. That holds for any set that is not several times smaller than the operator, whether or not it contains the spectrum. For spectra inside the given interval or ellipse and enough points it does report convergence, and otherwise it may report that it did not converge but never returns silently.",
  over=["inputs", "configurations"], quant="Symmetric, skew, decay and non-normal operators, tolerance 1e-4..1e-12, intervals that do and do not hold the spectrum, substeps, padded zeros.",
  why="The tests only check divided differences; no test evaluates a Leja exponential at all.",
  mech=[("real points", "ormatex_py/matexp_leja.py:real_leja_expmv"), ("conjugate points", "ormatex_py/matexp_leja.py:complex_conj_leja_expmv"), ("imaginary points", "ormatex_py/matexp_leja.py:complex_conj_imag_leja_expmv"), ("substepping", "ormatex_py/matexp_leja.py:real_leja_expmv_substep"), ("spectral estimate", "ormatex_py/matexp_leja.py:power_iter")],
  technique=PBT+"against 80-bit exponentials", note="Exploration; two genuine defects (false convergence) repaired."),
 dict(id="C12", title="Leja point sequences have the structure the interpolation relies on",
  statement="For every interval, ellipse and length, the generated points lie in the set, do not repeat, start at its ends and spread as a Leja sequence: each next point is a candidate of largest distance product. Conjugate sequences list their real points first and the others in conjugate pairs, an empty set is rejected, and padding and reordering keep the points.",
  over=["inputs"], quant="Intervals of any position and size, ellipses of any aspect, lengths 2..500.",
  why="Tests check pairing on twenty ellipses and one reordering of four points.",
  mech=[("fast Leja points", "ormatex_py/matexp_leja.py:gen_leja_fast"), ("circle and ellipse", "ormatex_py/matexp_leja.py:gen_leja_conjugate"), ("imaginary interval", "ormatex_py/matexp_leja.py:gen_complex_conj_leja_fast"), ("reordering", "ormatex_py/matexp_poly.py:leja_seq_reordering")],
  technique=PBT+"geometric invariants and brute-force greedy maximisation", note="Exploration; a genuine defect in the candidate weights repaired."),
 dict(id="C13", title="Divided differences of exp and phi are accurate on Leja sequences",
  statement="For every Leja sequence, shift, scale and step fraction, each divided-difference routine returns the Newton coefficients of exp(h(shift + scale x)) (or phi_l) at those points, to the accuracy of its method. Near-repeated leading points are handled, and the plain recursion interpolates its data.",
  over=["inputs", "configurations"], quant="Point families of 4..40 points, shifts, scales, step fractions, padded zeros; all seven routines.",
  why="Tests compare a few sequences at 1e-4, mostly with scale one, routine against routine.",
  mech=[("Taylor with scaling and squaring", "ormatex_py/matexp_poly.py:dd_exp_taylor"), ("matrix exponential", "ormatex_py/matexp_poly.py:leja_coeffs_exp"), ("recursion", "ormatex_py/matexp_poly.py:newton_poly_div_diff"), ("TS(II)", "ormatex_py/matexp_poly.py:leja_coeffs_ts_phi"), ("dd_phi", "ormatex_py/matexp_poly.py:leja_coeffs_dd_phi")],
  technique=PBT+"against multiprecision recursion", note="Exploration; four genuine defects repaired."),
 dict(id="C14", title="Leja integrators advance by their scheme to the requested tolerance",
  statement="For every dissipative or oscillatory system covered by the spectral bounds in use, each Leja integrator step equals the exponential Rosenbrock or multistep formula it implements within its tolerance, whatever the options for points, substeps, divided differences and spectral bounds. Otherwise it raises instead of returning a wrong state.",
  over=["inputs", "histories", "configurations"], quant="Systems with decaying or oscillating Jacobians, dims 1..6, options drawn, unequal steps, several steps.",
  why="No existing test runs a Leja integrator.",
  mech=[("Leja steps", "ormatex_py/ode_exp.py:ExpLejaIntegrator")],
  technique=PBT+"differential against an 80-bit reference of the formulas", note="Exploration."),
 dict(id="C15", title="Integration returns the trajectory on the requested uniform grid",
  statement="For every method, start time, step and number of steps, integration returns nsteps+1 times t0 + i dt and as many states in order, the first being the initial state. Integrating in one go equals integrating in pieces restarted from the intermediate state for one-step methods, and shifting time of an autonomous system shifts only the times.",
  over=["inputs", "histories", "configurations"], quant="All available methods, t0 of both signs, dt over decades and both signs, 0..20 steps, dims 1..5, systems that depend on time.",
  why="Tests start at t0 = 0 with one grid; they check only final states.",
  mech=[("stepping loop", "ormatex_py/integrate_wrapper.py:integrate_ormatex"), ("classical methods", "ormatex_py/integrate_wrapper.py:integrate_diffrax"), ("dispatch", "ormatex_py/integrate_wrapper.py:integrate")],
  technique=PBT+"invariants of the history, composition and translation as metamorphic relations", note="Exploration; a genuine defect of the diffrax end time repaired."),
 dict(id="C16", title="A step changes nothing until it is accepted, and a reset forgets the past",
  statement="For every integrator and any sequence of steps, accepted steps, rejected (dropped) steps and resets, the current time and state are those of the last accepted step, a step that is not accepted leaves later results unchanged, and after a reset the integrator behaves as a new one. Step results carry the end time, the step size and the new state.",
  over=["histories"], quant="Random operation sequences (try, accept, drop, retry with other dt, reset) over every integrator.",
  why="Tests only ever step and accept in a straight line.",
  mech=[("state and history", "ormatex_py/ode_sys.py:IntegrateSys"), ("accept", "ormatex_py/ode_exp.py:ExpRBIntegrator"), ("cached phi matrices", "ormatex_py/ode_exp.py:ExpSplitIntegrator")],
  technique="stateful property-based testing: generated operation sequences against a model of the state machine", note="Exploration; a genuine defect (reading the state) repaired."),
 dict(id="C17", title="Unknown or unavailable methods are rejected, never run as something else",
  statement="For every method name that is not available, whether unknown, misspelt, for another integrator family, or needing the absent native backend, construction or integration raises an error before any step. No name is silently mapped to a different method, and every advertised name that is available runs.",
  over=["inputs", "configurations"], quant="Arbitrary strings, near-misses of valid names, valid names of other families, native-backend names.",
  why="No test passes an invalid name.",
  mech=[("dispatch", "ormatex_py/integrate_wrapper.py:integrate"), ("constructor checks", "ormatex_py/ode_exp.py:ExpRBIntegrator"), ("classical methods", "ormatex_py/integrate_wrapper.py:integrate_diffrax")],
  technique=PBT+"over strings and mutated method names against the table of available names", note="Exploration."),
 dict(id="C18", title="Decay and transmutation matrices encode exactly the library's reactions",
  statement="For every species list and reaction library, single or branching, each reaction removes its rate from the parent and adds it to the child unless the child is 'none', and nothing else; a reaction to an unlisted species is rejected. Transmutation is the same matrix for cross sections (losses listed as negative) times minus the flux. The result does not depend on the order in which species are listed except by permutation, and scales linearly with the flux for transmutation.",
  over=["inputs"], quant="Random libraries of 1..8 species with branches to tracked species, to nothing, to oneself, repeated branches, zero rates.",
  why="Tests use one three-species linear chain.",
  mech=[("decay matrix", "ormatex_py/progression/bateman_sys.py:gen_bateman_matrix"), ("transmutation", "ormatex_py/progression/bateman_sys.py:gen_transmute_matrix")],
  technique=PBT+"against an independent reaction-list model; permutation and scaling as metamorphic relations", note="Exploration."),
 dict(id="C19", title="The analytic Bateman solution is the exact decay-chain solution",
  statement="For every serial chain with distinct decay constants, initial amount and array of times, the analytic solution equals the exact solution of the chain. It starts at the given amount and is refused for matrices that are not square or whose subdiagonal is not the decay of the member before.",
  over=["inputs"], quant="Chains of 1..6 members, constants over decades, times over decades, any initial amount.",
  why="Tests use it as an oracle on one chain.",
  mech=[("Bateman formula", "ormatex_py/progression/bateman_sys.py:analytic_bateman_single_parent")],
  technique=PBT+"against multiprecision evaluation", note="Exploration."),
 dict(id="C20", title="Decay-chain integration conserves atoms, stays non-negative and adds up",
  statement="For every decay network and initial inventory, integration with the exponential methods returns the exact inventories for any step, so the total is conserved when nothing leaves the system and never grows otherwise, no inventory becomes negative beyond roundoff, and inventories superpose. Permuting species only permutes the results.",
  over=["inputs", "configurations", "histories"], quant="Random decay networks of 2..6 species with branches and loops, rates over decades, all exponential methods and the partial-fraction ones.",
  why="Tests integrate one chain with two methods.",
  mech=[("decay system", "ormatex_py/progression/bateman_sys.py:TestBatemanSysJac"), ("integrators", "ormatex_py/ode_exp.py:ExpRBIntegrator"), ("partial fractions", "ormatex_py/matexp_phi.py:f_phi_k_pfd")],
  technique=PBT+"conservation, positivity, superposition and permutation over trajectories; 80-bit exact solutions", note="Exploration."),
 dict(id="C21", title="Advection-diffusion assembly is the consistent discretisation",
  statement="For every mesh, polynomial order, velocity, diffusivity and stabilisation, the assembled mass and stiffness are those of the weak form: lumped masses integrate, nothing is created or lost on a periodic domain, polynomials up to the order are transported and diffused exactly, stabilisation adds diffusion along the flow for either direction and none without flow, and Dirichlet points keep their values. Custom field functions are honoured in place of the constant parameters.",
  over=["inputs", "configurations"], quant="Random non-uniform meshes of 2..12 elements, p = 1..4, periodic and Dirichlet, nu and vel over decades, tau, field functions.",
  why="No existing test assembles a mesh.",
  mech=[("weak forms and assembly", "ormatex_py/progression/advection_diffusion_1d.py:AdDiffSEM"), ("nodal elements and quadrature", "ormatex_py/progression/element_line_pp_nodal.py:ElementLinePp_nodal")],
  technique=PBT+"against an independent dense assembly from Lagrange polynomials and Gauss-Lobatto rules; conservation and patch tests", note="Exploration."),
 dict(id="C22", title="Transport systems' right-hand sides, Jacobians and operators agree",
  statement="For every transport and reaction-transport system, mesh and state, the right-hand side is the discretised equation plus decay and source terms with Dirichlet rates enforced, the Jacobian is its derivative, and the split linear operator is the linear transport and decay part (Dirichlet nodes decoupled). Flattening and stacking the species array are inverse to each other and keep species together.",
  over=["inputs", "configurations"], quant="All example transport systems, random meshes, states, orders, boundary types.",
  why="No existing test builds a transport system.",
  mech=[("affine system", "ormatex_py/progression/advection_diffusion_1d.py:AffineLinearSEM"), ("reactive systems", "ormatex_py/progression/rad_1d_2s.py:RAD_SEM"), ("three species", "ormatex_py/progression/rad_1d_3s.py:RAD_SEM"), ("stacking", "ormatex_py/ode_utils.py:stack_u")],
  technique=PBT+"against NumPy models; finite differences and exact affine solutions", note="Exploration."),
 dict(id="C23", title="Source and sink models satisfy their physical laws",
  statement="For every concentration and parameter, each mass-transfer or reaction rate follows its documented law, vanishes at equilibrium, has the sign of the driving difference, scales linearly with its coefficient, and broadcasts over arrays. Coupled systems built from them remove from one phase exactly what they add to the other, with the parameters given by the user.",
  over=["inputs", "configurations"], quant="Concentrations over decades including zero, all parameters varied, arrays and scalars.",
  why="No existing test evaluates a source term.",
  mech=[("rates", "ormatex_py/progression/species_source_sink.py:mxf_liq_vapor_bubble_ig"), ("nonlinear decay system", "ormatex_py/progression/bateman_nonlin_sys.py:NonlinearBateman")],
  technique=PBT+"against independent formulas; scaling, equilibrium and conservation relations", note="Exploration."),
 dict(id="C24", title="Predator-prey systems are integrated consistently and keep their invariant",
  statement="For every set of rates, state and time, the predator-prey systems' right-hand side follows the model, the hand-written Jacobian and time derivative are its derivatives, and every state with an empty population keeps it empty. Along an accurately integrated autonomous trajectory the model's first integral is conserved to the method's order.",
  over=["inputs", "histories"], quant="Rates, states and times drawn over decades, both systems, several methods.",
  why="Tests only integrate the default rates from one state.",
  mech=[("systems", "ormatex_py/progression/lotka_volterra.py:LotkaVolterra"), ("nonautonomous", "ormatex_py/progression/lotka_volterra.py:LotkaVolterraNonauto")],
  technique=PBT+"against analytic models; conserved quantity over trajectories", note="Exploration."),
 dict(id="C25", title="Callbacks see the right state and their arguments reach every stage",
  statement="For every method that supports callbacks and every number of steps, the before-step callback is called once per step with the current time and state, its return value reaches every evaluation of the right-hand side, Jacobian and operator in that step, and the after-step callback sees each accepted step; returned values are recorded in order. A callback that returns constants equals a system with those constants built in.",
  over=["inputs", "histories", "configurations"], quant="All callback-capable methods, random per-step arguments, systems with parameters in every term.",
  why="No existing test uses callbacks or extra right-hand-side arguments.",
  mech=[("callbacks", "ormatex_py/integrate_wrapper.py:integrate_ormatex"), ("argument passing", "ormatex_py/ode_sys.py:OdeSys")],
  technique=PBT+"recorded histories against a model; differential between callback-driven and built-in parameters", note="Exploration; four genuine defects repaired."),
 dict(id="C26", title="Results depend only on the inputs: no mutation, no leak between calls",
  statement="For every routine and integrator, calling it twice with the same inputs gives the same result, its inputs are unchanged, and other calls in between (other systems, sizes, steps or options) do not change it. Systems with equal structure but different parameter values give their own results.",
  over=["histories", "inputs"], quant="Interleaved call sequences over systems, methods, options and instances.",
  why="Each test runs in isolation once.",
  mech=[("compiled kernels", "ormatex_py/ode_exp.py:ExpRBIntegrator"), ("cached phi matrices", "ormatex_py/ode_exp.py:ExpSplitIntegrator"), ("cached basis values", "ormatex_py/progression/element_line_pp_nodal.py:ElementLinePp_nodal")],
  technique="stateful property-based testing: interleaved call histories against isolated runs", note="Exploration."),
 dict(id="C27", title="The native backend agrees with the reference backend",
  statement="For every method offered by both backends, system and step, the native (Rust) integrators return the trajectory of the reference ones to the accuracy of their phi-evaluation.",
  over=["inputs", "configurations"], quant="Methods offered by both backends.",
  why="The comparison test is skipped because the native module is not built.",
  mech=[("native integrators", "src/ode_epirk.rs:1"), ("bindings", "src/ormatex_rspy.rs:1")],
  technique="", note=""),
]

NA = {"C27": "The Rust crate depends on crates (faer, pyo3, ...) that are not in the offline cargo cache, so neither the crate nor its Python bindings can be built here; there is nothing to run generated inputs against."}
