"""Writes properties.jsonl (kept as a script so that the text stays reviewable)"""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("P01", "Adjoint gradients equal backpropagated and numerical gradients",
 "For any differentiable ODE and any scalar function of its whole integrated history, integrating with the adjoint method and integrating with plain automatic differentiation give the same gradient (to solver tolerance) for every trainable parameter of the ODE and every extra parameter passed in, and both equal the finite-difference gradient. This holds for both integration schemes, every chunk size, every linear solver, histories with uneven, zero-length or per-sample time steps, steps that start in equilibrium, and when some parameters are frozen or unused (those get no or a zero gradient).",
 ["inputs", "configurations"], "all right-hand sides, parameters, time grids, chunk sizes, solvers, schemes and loss weights over the history",
 "Tests compare a few fixed ODEs with one loss (a norm of the result) and mostly one chunk size; a wrong adjoint recursion at chunk borders, for intermediate-time losses or for zero/uneven steps only shows for other schedules.",
 ["pyoptmat/ode.py"], [("adjoint forward/backward pass", "pyoptmat/ode.py:odeint_adjoint, IntegrateWithAdjoint, FixedGridBlockSolver.rewind"), ("scheme adjoint updates and gradient accumulation", "pyoptmat/ode.py:BackwardEulerScheme, ForwardEulerScheme")],
 observe=["gradients of parameters after backward()"])

prop("P02", "Integrated result does not depend on chunking, solver or gradient method",
 "The history computed for an ODE is, to the requested nonlinear tolerance, independent of how many time steps are solved together, of the linear solver used for the chunk (dense, or any of the direct bidiagonal methods with any minimum recursion size), of the initial-guess strategy and of whether the adjoint or the plain integrator is called.",
 ["inputs", "configurations"], "all ODEs, initial conditions, time grids and combinations of integrator options",
 "Tests run a handful of option combinations on long uniform grids; the last partial chunk, chunks longer than the history and unusual solver combinations depend on the arithmetic between number of steps and chunk size.",
 ["pyoptmat/ode.py", "pyoptmat/chunktime.py"], [("chunked time stepping", "pyoptmat/ode.py:FixedGridBlockSolver.integrate"), ("chunk linear solves", "pyoptmat/chunktime.py:ChunkTimeOperatorSolverContext")])

prop("P03", "The integrated history satisfies the discrete equations of its scheme",
 "The first entry of an integrated history is the initial condition and every later entry satisfies the backward-Euler (or forward-Euler) difference equation of the ODE at its own times to within the nonlinear tolerances, so for a linear ODE it equals the closed-form product of step matrices. As the time step shrinks the result converges to the exact solution at first order.",
 ["inputs", "configurations"], "all ODEs (linear with arbitrary matrices, nonlinear), batch sizes, per-sample time grids, chunk sizes",
 "Tests look at a few scalar and two-state ODEs with loose tolerances against analytic curves; they cannot see an equation evaluated at a neighbouring time, or one wrong step in a chunk.",
 ["pyoptmat/ode.py", "pyoptmat/chunktime.py"], [("scheme residual", "pyoptmat/ode.py:BackwardEulerScheme.form_operators, ForwardEulerScheme.form_operators"), ("chunked Newton iteration", "pyoptmat/chunktime.py:newton_raphson_chunk")])

prop("P04", "Integration is causal, restartable, and independent across the batch",
 "Integrating a history in one call equals integrating a prefix and restarting from its last state; entries never depend on later times or on other samples in the batch, so permuting, splitting or replicating the batch permutes, splits or replicates the result. Steps of zero duration leave the state unchanged and the caller's tensors are never modified.",
 ["histories", "inputs"], "all ODEs, split points, batch permutations and sub-batches, repeated times",
 "Tests integrate one batch once and never compare against a restarted, split, permuted or extended run.",
 ["pyoptmat/ode.py", "pyoptmat/chunktime.py"], [("time stepping", "pyoptmat/ode.py:FixedGridBlockSolver"), ("batched Newton", "pyoptmat/chunktime.py:newton_raphson_chunk")])

prop("P05", "Chunked Newton returns roots or reports failure",
 "Solving a batch of chunked nonlinear systems returns, without touching the caller's starting point, a point at which the residuals of all systems meet the absolute tolerance or those of all systems meet the tolerance relative to the starting point. When that is not reached within the allowed iterations, or invalid numbers appear, it raises an error if asked to throw and otherwise warns and returns. Integrators asked to throw on failure do so when a step cannot be solved, and only then.",
 ["inputs", "fault_sequences"], "solvable systems, unsolvable systems, systems producing NaN, any starting point, iteration limit and tolerance",
 "Tests only exercise systems that converge quickly from a good starting point; failing, NaN-producing or limit-hitting iterations are never generated.",
 ["pyoptmat/chunktime.py", "pyoptmat/ode.py"], [("convergence and failure logic", "pyoptmat/chunktime.py:newton_raphson_chunk")])

prop("P06", "Bidiagonal factorizations solve the exact block system",
 "For any batch of invertible diagonal blocks and arbitrary sub-diagonal blocks, every factorization (sequential elimination, parallel cyclic reduction, and the hybrid with any minimum size) applied to a right-hand side returns the solution of the assembled dense lower-block-bidiagonal system, any number of times in a row and without modifying its inputs. The forward operator's product and dense form equal the assembled matrix and its inverse undoes it.",
 ["inputs", "configurations"], "all numbers of blocks (odd, even, powers of two, one), batch sizes, block sizes, hybrid minimum sizes, repeated solves",
 "Tests use one or two fixed block counts; the recursive algorithms have index arithmetic depending on the binary expansion of the number of blocks.",
 ["pyoptmat/chunktime.py"], [("Thomas", "pyoptmat/chunktime.py:thomas_solve, BidiagonalThomasFactorization"), ("PCR / hybrid", "pyoptmat/chunktime.py:BidiagonalPCRFactorization, BidiagonalHybridFactorization"), ("operator", "pyoptmat/chunktime.py:BidiagonalForwardOperator")])

prop("P07", "Block-diagonal sparse formats all represent the same matrix",
 "A batch of square block-diagonal matrices given by any set of distinct block diagonals has the reported size, shape and number of nonzeros, and its dense, coordinate-sparse and unrolled compressed-row forms are all equal to the matrix assembled block by block.",
 ["inputs"], "all block counts, batch sizes, block sizes and sets of diagonals (positive, negative, zero, single, outermost)",
 "Tests fix one size and one set of diagonals.",
 ["pyoptmat/chunktime.py"], [("format conversions", "pyoptmat/chunktime.py:SquareBatchedBlockDiagonalMatrix")])

prop("P08", "Batched Newton solvers find roots without side effects",
 "For batches of smooth systems with invertible Jacobians started near a root, the plain, the line-search and the preconditioner-reusing nonlinear solvers return, together with the Jacobian there, a point whose residual meets the tolerances, do not modify the starting point, and give each sample the root it would get alone. With linear residuals the root equals the direct solution. When the tolerances are not met within the allowed iterations, or the residual is not a number, they warn or raise an error.",
 ["inputs"], "all batch sizes, system sizes, starting points, choices of linear solver and sequences of solves with reuse",
 "Tests use two fixed small systems from one starting point.",
 ["pyoptmat/solvers.py"], [("newton", "pyoptmat/solvers.py:newton_raphson, newton_raphson_bt"), ("reuse", "pyoptmat/solvers.py:PreconditionerReuseNonlinearSolver")])

prop("P09", "Batched linear solvers solve the linear systems",
 "For any batch of nonsingular systems, the direct solver and the Krylov solver, unpreconditioned or with the diagonal or factorization preconditioner, from any starting point and with any restart checking interval, return the solution to the stated tolerance, including samples whose right-hand side is zero or that are already solved at the start. The inputs are not modified.",
 ["inputs", "configurations"], "all batch sizes, system sizes, conditioning within tolerance, starting points, check intervals",
 "Tests solve one random well-conditioned batch; mixed batches where samples converge at different iterations are not covered.",
 ["pyoptmat/solvers.py"], [("gmres and preconditioners", "pyoptmat/solvers.py:gmres, jacobi_gmres, lu_gmres, lu_linear_solve")])

prop("P10", "Flow-rule derivative methods are the exact derivatives of the rates",
 "For every flow rule and every composition of flow rules (superposition, rate-independent wrapping, hard and soft activation-energy switching over any hardening models), every derivative reported alongside or beside the flow rate and the history rates - with respect to stress, history, and total strain rate - is the derivative of those rates, at any stress, history, temperature, strain rate and any batch shape away from kinks. All of them stay finite at rest (zero stress, zero history, zero strain rate) and exactly on the flow threshold.",
 ["inputs", "configurations"], "all compositions, parameters (constant, batched, temperature dependent), states and batch shapes",
 "Tests check each class at a few fixed or random smooth states by finite differences with loose tolerances, mostly not in composition.",
 ["pyoptmat/flowrules.py"], [("derivative methods", "pyoptmat/flowrules.py: flow_rate, dflow_dhist, dflow_derate, history_rate, dhist_dstress, dhist_derate")])

prop("P11", "Flow rules evaluate their published equations and obey their physics",
 "The inelastic strain rate and internal-variable rates of the perfect viscoplastic and the isotropic-kinematic viscoplastic model equal their textbook equations at every state; the rate is zero at and below the flow threshold, has the sign of the effective stress, never produces negative dissipation against it, grows monotonically with stress, and reverses sign under reversal of stress and backstress. Superimposed flow rules add their strain rates, and each sees only its own internal variables.",
 ["inputs"], "all parameter values, temperatures, states, batch shapes, hardening compositions",
 "Tests mostly check derivatives; the values themselves are only compared indirectly on a few loading curves.",
 ["pyoptmat/flowrules.py"], [("rates", "pyoptmat/flowrules.py:PerfectViscoplasticity, IsoKinViscoplasticity, SuperimposedFlowRule")])

prop("P12", "Activation-energy switching and rate-independent scaling select the right model",
 "The regime-switching flow rule uses, sample by sample, the second model exactly where the normalised activation energy computed from temperature, shear modulus (with its scaling), Burgers vector and strain rate exceeds the (scaled) threshold, and the first elsewhere, for the rates and every derivative; its smooth version blends the two with the hyperbolic-tangent weight and tends to the sharp one as the blending gets steeper. The rate-independent wrapper multiplies every rate by the interpolated ratio of the strain rate to the reference rate, being the identity for zero blending and at the reference rate.",
 ["inputs", "configurations"], "all thresholds, temperatures, strain rates (including mixed regimes in one batch), blending factors, inner models",
 "Tests place whole batches in one regime and never mix regimes or scalings.",
 ["pyoptmat/flowrules.py"], [("regime selection", "pyoptmat/flowrules.py:KocksMeckingRegimeFlowRule, SoftKocksMeckingRegimeFlowRule"), ("wrapper", "pyoptmat/flowrules.py:RateIndependentFlowRuleWrapper")])

prop("P13", "Hardening-model derivatives are the exact derivatives of the rates",
 "For every isotropic and kinematic hardening model and any superposition of kinematic models, the derivative of the hardening value with respect to the internal variables and the derivatives of the internal-variable rates with respect to stress, internal variables, inelastic strain rate and total strain rate are the true derivatives, for any state, sign of straining, temperature and batch shape.",
 ["inputs"], "all models, superpositions, parameters and states away from kinks",
 "Tests check a few random states with finite differences for one batch shape.",
 ["pyoptmat/hardening.py"], [("derivative methods", "pyoptmat/hardening.py: dvalue, dhistory_rate_*")])

prop("P14", "Hardening models evaluate their equations and agree where they coincide",
 "Hardening values and internal-variable rates equal the documented Voce, initial-slope Voce (with and without static recovery), Frederick-Armstrong and multi-backstress Chaboche equations (with and without static recovery) at every state, and equivalent parameterisations agree: both Voce forms, Frederick-Armstrong with zero recovery or default recovery, a one-term Chaboche model, and Chaboche versus a superposition of Frederick-Armstrong models. The hardening value stays between its start and its saturation value when integrated from below.",
 ["inputs", "histories"], "all parameters, states, temperatures, batch shapes and strain-rate histories",
 "Tests check values at single states for one shape, and no equivalences between classes.",
 ["pyoptmat/hardening.py"], [("rates", "pyoptmat/hardening.py: value, history_rate")])

prop("P15", "Damage models evaluate their equations with exact derivatives",
 "The damage rate of each damage model (none, constant, Hayhurst-Leckie, Larson-Miller) equals its documented function of stress, damage, time and temperature, is never negative, and the derivatives reported with respect to damage, stress and strain rate are exact for any sign of stress, any damage below one, any parameters and batch shape.",
 ["inputs"], "all models, parameters, stresses of both signs, damage values and temperatures",
 "Tests check a handful of states, mostly tensile with scalar parameters.",
 ["pyoptmat/damage.py"], [("rates and derivatives", "pyoptmat/damage.py: damage_rate, d_damage_rate_d_s, d_damage_rate_d_e")])

prop("P16", "Constitutive rates follow the governing equations with exact Jacobians",
 "The state rate of the (damaged) constitutive model equals the elastic law on the elastic strain rate, degraded by damage, together with the flow-rule history rates and the damage rate at the effective stress; the Jacobian with respect to the state and the derivative with respect to strain rate returned with it are exact. The same holds for the strain-controlled, stress-controlled and mixed-controlled systems that the integrator solves, whose Jacobians are exact derivatives of their rates at any point of the loading history.",
 ["inputs", "configurations"], "all flow rules, damage models, states, temperatures, strain and stress rates, control mixes and batch shapes",
 "Tests compare Jacobians with finite differences for a few models under strain control at one state.",
 ["pyoptmat/models.py"], [("model rates", "pyoptmat/models.py:InelasticModel.forward, DamagedInelasticModel.forward"), ("controlled systems", "pyoptmat/models.py:StrainBasedModel, StressBasedModel, BothBasedModel")])

prop("P17", "Strain control, stress control and mixed control agree",
 "Driving a model with a strain history and then driving it with the stresses obtained reproduces the strains and internal variables, and the reverse; solving a mixed batch gives every strain-controlled sample exactly its strain-controlled result and every stress-controlled sample its stress-controlled result. Time steps of zero duration with unchanged loading change nothing, including at the start, and the loading tensors are not modified.",
 ["inputs", "histories"], "all well-posed models, loading and temperature histories, control mixes, batch orders",
 "Tests compare the two controls for one or two models on one loading curve.",
 ["pyoptmat/models.py"], [("drivers", "pyoptmat/models.py:ModelIntegrator.solve_both, solve_strain, solve_stress")])

prop("P18", "Simulated histories satisfy the discretised constitutive equations",
 "At every time step of a simulated history the stress, internal variables and damage satisfy the implicit (or explicit) discretisation of the governing equations with the supplied strain, temperature and time increments, as evaluated by an independent scalar implementation of the same model. Loading below the flow threshold is linear elastic with zero inelastic change, and with no damage the damaged and undamaged models give the same history.",
 ["inputs", "histories"], "all flow rules, hardening and damage models, strain or stress histories, temperature histories, integrator options",
 "Tests compare final curves with a few stored results; a rate taken from a neighbouring step or sample changes them within their tolerance or is not sampled.",
 ["pyoptmat/models.py", "pyoptmat/ode.py", "pyoptmat/utility.py"], [("integration of the model", "pyoptmat/models.py:ModelIntegrator"), ("loading rates", "pyoptmat/utility.py:ArbitraryBatchTimeSeriesInterpolator")])

prop("P19", "Temperature-dependent parameters evaluate their formulas",
 "Every temperature-dependence (constant, shear-modulus scalings, mechanical-threshold scaling, the two activation-energy scalings including the rate-sensitivity cutoff, polynomial, piecewise linear, both Arrhenius forms) returns its documented function of temperature, with each parameter passed through its own scaling function and the result through the overall scaling, for scalar or batched parameters and any shape of temperature (a value that does not depend on temperature may be returned in a shape that broadcasts to it); the reported parameter shape is the true one.",
 ["inputs", "configurations"], "all parameter values, scalings, batch shapes, temperatures including interval end points",
 "Tests evaluate each formula at a few temperatures with identity scalings.",
 ["pyoptmat/temperature.py"], [("value", "pyoptmat/temperature.py: value, shape of each class")])

prop("P20", "Parameter scaling functions are invertible and respect their bounds",
 "The simple, bounded and log-bounded scaling functions map to and from physical parameters inversely on their range, are increasing, send zero and one to the lower and upper bound, and with clamping on never leave the bounds; transformed means and standard deviations follow the corresponding linear or logarithmic rules. The helper factories that build bounds around a mean, and scale, clamp or log-scale into bounds, agree with their definitions.",
 ["inputs"], "all bounds (including negative, tiny and huge ranges), arguments inside and outside the bounds, tensor shapes",
 "Tests check a few points for one pair of bounds.",
 ["pyoptmat/scaling.py", "pyoptmat/optimize.py"], [("scalings", "pyoptmat/scaling.py"), ("helpers", "pyoptmat/optimize.py: bound_factor, bounded_scale_function, clamp_scale_function, bound_and_scale, log_bound_and_scale")])

prop("P21", "Time-series interpolation is exact linear interpolation everywhere",
 "Every interpolator, batched or not, returns for each sample the piecewise-linear interpolant of that sample's own data at any time inside its range, hitting the data at the nodes and at both ends, for any extra leading dimensions of the query and any uneven grids; where a repeated time is allowed the value stays finite and one-sided.",
 ["inputs"], "all node grids, data, query times (nodes, end points, interior, shared or per sample), shapes",
 "Tests use a fixed grid with interior query times.",
 ["pyoptmat/utility.py"], [("interpolators", "pyoptmat/utility.py: *TimeSeriesInterpolator, timeseries_interpolate_*")])

prop("P22", "Numerical and automatic Jacobian helpers return the derivative",
 "The numerical differentiation helpers return the derivative of scalar-, vector- and matrix-valued functions of scalars, vectors and matrices in the documented index order for any batch shape, and the decorator that adds Jacobians to a batched function, as well as the neural-network ODE wrapper, returns the original value together with the exact Jacobian with respect to each chosen argument for every sample.",
 ["inputs", "programs"], "all function shapes and batch shapes, chosen arguments, nonlinear functions and networks",
 "Tests use two fixed functions; index-order mistakes vanish for square or symmetric cases.",
 ["pyoptmat/utility.py", "pyoptmat/neuralode.py"], [("differentiation", "pyoptmat/utility.py: differentiate, new_differentiate, batch_differentiate, jacobianize"), ("neural ODE", "pyoptmat/neuralode.py:NeuralODE")])

prop("P23", "Generated tension and creep tests have the requested loading",
 "The tension-test generator returns, for every sample, strain histories from zero to its strain limit at exactly its strain rate with the requested number of points and constant temperature, marked as strain-controlled; the creep-test generator returns stress histories that ramp to the stress at the requested loading rate and then hold it to the end time with strictly increasing times, linearly or logarithmically spaced, marked as stress-controlled.",
 ["inputs"], "all rates, temperatures, limits, stresses, hold times, numbers of steps, batch sizes",
 "Tests do not check the generated histories at all beyond using them in examples.",
 ["pyoptmat/experiments.py"], [("generators", "pyoptmat/experiments.py: make_tension_tests, make_creep_tests")])

prop("P24", "Random and normalised loading cycles follow their description",
 "Randomly generated tension and cyclic descriptions stay inside the requested ranges with consistent bounds; sampling a cycle description gives strictly consistent time, strain and cycle-number histories of the right length in which every ramp proceeds at the given strain rate, holds last the given time at the extreme strains, every cycle repeats with the same period, and the cycle counter increases exactly at cycle starts. Sampling a tension description gives a straight ramp at its rate to its maximum strain.",
 ["inputs"], "all strain ranges, ratios, rates, hold times (including zero), cycle counts and sampling densities",
 "Tests check lengths and a few values of one cycle description.",
 ["pyoptmat/experiments.py"], [("samplers", "pyoptmat/experiments.py: generate_random_tension, sample_tension, generate_random_cycle, sample_cycle_normalized_times")])

prop("P25", "Experiment loading and result conversion depend only on each test's own data",
 "Loading an experimental dataset maps times, temperatures, the driven quantity, the measured quantity, cycle numbers, test types and control modes of each test to the right column with the right code; converting a simulated history gives, for each test according to its type, the stress (or strain) itself, the normalised relaxation or creep response during the hold, the maximum per cycle, or the yield and ultimate values. The conversion of one test is not influenced by which other tests are in the batch or by their order.",
 ["inputs", "configurations"], "all mixes and orders of test types, numbers of tests, cycle structures, histories",
 "Tests use one stored dataset with one arrangement per type.",
 ["pyoptmat/experiments.py"], [("loading", "pyoptmat/experiments.py:load_results"), ("conversion", "pyoptmat/experiments.py:convert_results, format_*")])

prop("P26", "The deterministic model equals simulating and converting by hand",
 "A deterministic calibration model evaluated on an experiment batch returns exactly the converted result of simulating, with its current parameter values given by name, each test under its own control and loading; changing the parameters changes only the simulation, and its parameters appear under the given names as trainable quantities whose gradients equal those of the hand-built simulation.",
 ["inputs", "configurations"], "all parameter sets, test batches of mixed type and control, integrator options",
 "Tests only run one optimisation-style example and compare gradients loosely.",
 ["pyoptmat/optimize.py"], [("deterministic model", "pyoptmat/optimize.py:DeterministicModel")])

prop("P27", "The single-level statistical model defines the intended density",
 "The single-level statistical model draws every parameter from a normal distribution with its given location and scale, simulates the tests with those values and scores the observations with independent normals around the converted prediction with the given noise (one value or one per test type), over every time and test; with the option to ignore invalid simulations, NaN predictions are replaced by zeros. Its joint log-density therefore equals the sum written out by hand.",
 ["inputs", "configurations"], "all locations, scales, noise levels, mixes of test types, observed data, sampled parameter values",
 "Tests never evaluate the density; they run samplers and look at shapes.",
 ["pyoptmat/optimize.py"], [("statistical model", "pyoptmat/optimize.py:StatisticalModel")])

prop("P28", "The hierarchical statistical model defines the intended density and guide",
 "The hierarchical model draws population locations and scales per parameter component from the given priors, one set of parameter values per test from the population normal, an optional noise scale from its half-normal prior (otherwise the fixed noise), and scores the observations with independent normals around the converted simulation of each test with its own parameters, the contribution of each test (its parameter values and its observations) being weighted by its type; its joint log-density equals the sum written out by hand, whatever the order of the tests. The variational guide made from it samples exactly the same latent sites with learnable locations and positive scales, and the extra parameters handed to the adjoint integrator are exactly the per-test parameter samples.",
 ["inputs", "configurations"], "all priors, numbers and shapes of parameters, test mixes, weights, noise options, latent values",
 "Tests never evaluate the density; examples only check that inference roughly converges.",
 ["pyoptmat/optimize.py"], [("hierarchical model", "pyoptmat/optimize.py:HierarchicalStatisticalModel")])

prop("P29", "Vectorised evaluation equals evaluating one sample at a time",
 "Evaluating any material model component (temperature parameter, hardening, flow rule, damage model, full constitutive model) on a batch with any leading dimensions gives, for each entry, the values and derivatives obtained by evaluating that entry alone with its own parameters; evaluating twice gives the same answer and no argument is modified.",
 ["inputs", "configurations"], "all components, leading batch shapes, scalar and per-sample parameters, states",
 "Tests use one batch layout; broadcasting mistakes between time-chunk and sample dimensions vanish when sizes coincide or parameters are scalar.",
 ["pyoptmat/flowrules.py", "pyoptmat/hardening.py", "pyoptmat/damage.py", "pyoptmat/temperature.py", "pyoptmat/models.py"], [("broadcasting", "all component evaluation methods")])

prop("P30", "Material calibration gradients agree between adjoint and autodiff",
 "For a material model simulated under strain, stress or mixed control, the gradient of any smooth loss on the simulated history with respect to every material parameter (constants, batched, polynomial, piecewise, scaled) is the same with the adjoint option on and off and for any chunk size, is finite, and equals the finite-difference derivative of the loss.",
 ["inputs", "configurations"], "all flow rules, hardening and damage models, parameters, loading and temperature histories, integrator options",
 "Tests check a few models, mostly with one chunk size under strain control and a loose tolerance.",
 ["pyoptmat/models.py", "pyoptmat/ode.py"], [("adjoint through the model", "pyoptmat/models.py:ModelIntegrator (use_adjoint, extra_params)"), ("hand-coded Jacobians used by the adjoint", "pyoptmat/models.py, flowrules.py, hardening.py, damage.py")])

prop("P31", "Small tensor building blocks compute what they say",
 "The batched block product equals the matrix product over the last two axes for any leading dimensions, the positive-part and unit-step functions agree with their definitions at every point including zero, the absolute power has the right value and finite gradients at zero, adding the identity adds it to each trailing square block, and composing functions applies them in the documented order. The variance plot shows, for each strain, the mean and the band between the alpha and 1-alpha order statistics of the actual and of the predicted data.",
 ["inputs"], "all shapes and values",
 "Tests do not exercise them directly with varying shapes.",
 ["pyoptmat/utility.py"], [("helpers", "pyoptmat/utility.py: mbmm, heaviside, macaulay, abs_pow, add_id, compose, visualize_variance")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
