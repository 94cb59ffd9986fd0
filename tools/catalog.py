#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json. The properties are kept here, one record each."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, observe=observe or []))


IT, ND, ES = "ExpectationPropagation/Iterations.py", "ExpectationPropagation/Nodes.py", "MomentMatching/Estimator.py"
KF, GA, LA = "Filters/KalmanFilter.py", "StateModel/Gaussian.py", "Utils/linalg.py"
TT, UT, MC = "MomentMatching/TaylorLinearisation.py", "MomentMatching/UnscentedTransform.py", "MomentMatching/MonteCarloTransform.py"
DS, DB, ME, PL = "Systems/DynamicSystem.py", "Utils/Database.py", "Utils/Metrics.py", "Utils/Plot_Helper.py"
FS, SB, SL = "Experiments/EP_FullSweep.py", "Experiments/EP_Sweep_BearingsOnly.py", "Experiments/EP_Sweep_L96.py"
KB = "Experiments/IEKS_Sweep_BearingsOnly.py"

prop("C01", "One EP sweep with power 1 and damping 1 is the Kalman filter and smoother",
     "For every nonlinear Gaussian state-space model and measurement sequence, one forward-backward EP sweep from the vague "
     "initial graph with power 1 and damping 1 gives, after its forward half, the same means and covariances as the filter "
     "with the same moment matching, start time and inputs, and after its backward half those of the matching smoother. "
     "Both agree with the textbook extended or unscented Kalman filter and Rauch-Tung-Striebel smoother.",
     ["inputs", "configurations"],
     "All models (dimension, nonlinearity, time and input dependence, noises, priors), measurement sequences of any length, Taylor and unscented moment matching (different ones for motion and measurement).",
     "The tests compare one sweep with the smoother on two fixed models and seeds (UNGM and a linear one); nothing varies dimensions, times, inputs or the mix of transforms.",
     [IT, ND, ES, KF], [("sweep", IT + ": ep_fwd_back_updates"), ("node updates", ND + ": fwd_update, meas_update, back_update"),
                        ("filter and smoother", KF + ": kalman_filter, kalman_smoother")],
     "property-based testing: differential (EP sweep vs filter/smoother vs independent reference)",
     "Random models against an independent EKF/UKF/RTS implementation and the repository's own filter; tolerance 1e-7 plus the measured sensitivity of the reference.")
prop("C02", "Filtering and smoothing are exact on linear-Gaussian models",
     "On every linear (affine) Gaussian model, also with time- and input-dependent motion and measurement, any start time, "
     "time step and prior, the filter returns the exact conditional mean and covariance of each state given the measurements so "
     "far and the smoother those given all measurements. This holds for every moment matching that is exact on affine maps.",
     ["inputs", "configurations"], "All affine models, priors, start times, steps, constant inputs, measurement sequences; Taylor and unscented matching.",
     "Tests use one linear model and compare against stored or self-computed values; time dependence, priors and start times are not exercised.",
     [KF, TT, UT, GA], [("predict/correct/smooth", KF + ": predict, correct, smooth"), ("time bookkeeping", KF + ": kalman_filter, kalman_smoother")],
     "property-based testing: oracle by conditioning the joint Gaussian of the whole trajectory",
     "Oracle computed in one dense conditioning step, independent of recursion.")
prop("C03", "Power and damped EP reach the exact posterior on linear-Gaussian models",
     "On every linear (affine) Gaussian model, EP with any power in (0,1] reaches the exact smoothed means and covariances: "
     "after one sweep when damping is 1, and in the limit of repeated sweeps with damping below 1, or of repeated node-by-node updates. "
     "Further sweeps leave the exact solution where it is.",
     ["inputs", "configurations", "schedules"], "All affine models, measurement sequences, powers in (0,1], dampings, and both update schedules.",
     "Tests run power 1 and damping 1 only, on fixed models; power and damping need a fixed-point argument that no sample settles.",
     [IT, ND, ES], [("power-EP messages", ND + ": fwd_update, power_update"), ("noise scaled by power", ES + ": proj_trans, proj_meas, proj_back")],
     "property-based testing: oracle by exact conditioning, plus fixed-point (idempotence) relation",
     "Damped runs are compared after enough sweeps for geometric convergence; priors and noise moderate (see evidence assumptions).")
prop("C04", "Every belief is the product of its messages after any history of updates",
     "After any sequence of forward, measurement and backward updates in any order, with any power and damping, each node's belief "
     "is the initial vague belief times its three messages, each raised to one over the power. Updates of one node leave all other nodes unchanged.",
     ["histories", "inputs", "schedules"], "All sequences of single updates, partial passes and sweeps on nodes of graphs of nonlinear models, any power in (0,1] and damping in (0,1].",
     "Tests look at beliefs after one or a few fixed sweeps; the invariant is over all update orders.",
     [ND, GA], [("belief and factor updated together", ND + ": power_update, fwd_update"), ("Gaussian product/quotient/power", GA + ": __mul__, __truediv__, __pow__")],
     "stateful property-based testing: invariant after every step of a random update history",
     "Natural parameters compared to the rounding level of the cancelling terms.")
prop("C05", "A failed update changes nothing and no update leaves an improper belief",
     "When an update cannot be carried out because of a numerical failure (singular or indefinite matrices, an improper cavity, "
     "projection or new belief), the whole graph is left exactly as it was and later updates proceed as if it had not been attempted. "
     "After any update that is accepted, the belief it produced has a positive definite covariance, and an error of the user's own model is not swallowed.",
     ["fault_sequences", "histories", "inputs"], "All update histories with numerical failures injected at any of the updates (linear-algebra errors, indefinite or non-finite covariances, inflated cross-covariances, errors of the model).",
     "No test makes an update fail.",
     [ND, LA, ES], [("try/except around each update", ND + ": fwd_update, meas_update, back_update"), ("covariance validation", LA + ": validate_covariance")],
     "property-based fault injection over random histories: bit-for-bit comparison with a twin that never attempted the failed updates",
     "Faults are injected through the public moment-matching interface.")
prop("C06", "Each power-EP update with damping is the documented one",
     "Every forward, measurement and backward update computes exactly the documented power-EP step: cavity with the message's fraction "
     "removed, moment-matched projection with the noise divided by the power (and the prediction covariance scaled for the forward "
     "message), damped geometric message update and the belief changed by the message ratio raised to one over the power.",
     ["inputs", "histories", "configurations"], "All models, states of the graph reached by update histories and by rescaled messages, powers in (0,2], dampings, per-node times and inputs.",
     "The tests never use a power or damping other than 1 with an independent expectation.",
     [ND, ES, IT], [("updates", ND + ": fwd_update, meas_update, back_update, power_update"), ("projections", ES + ": proj_trans, proj_meas, proj_back")],
     "model-based property testing: every update of a random history recomputed by an independent implementation",
     "Updates whose reference cavity or projection is not safely positive definite are left to C05.")
prop("C07", "Products, quotients and powers of Gaussian beliefs are those of their densities",
     "For any beliefs given by moments or natural parameters, product, quotient and power give the belief whose log-density is the sum, "
     "difference or multiple of the operands' log-densities (up to a constant). The operations obey their algebraic laws, have the flat belief as unit, and leave their operands unchanged.",
     ["inputs", "programs"], "All expressions over products, quotients, powers and copies of Gaussians of any dimension and scale.",
     "Tests check a few fixed one- and two-dimensional products and quotients.",
     [GA, LA], [("algebra on natural parameters", GA + ": __mul__, __truediv__, __pow__")],
     "property-based testing: random expressions against exact natural parameters and pointwise log-densities",
     "Beliefs with precision trace below 1e-10 are documented as flat and excluded from moment comparison.")
prop("C08", "Moments and natural parameters describe one density in any order of reading",
     "A belief built from mean and covariance or from precision and shift reports the same density through all its properties, "
     "in whatever order and however often they are read, copied, compared or sampled. Reading never changes the belief or the caller's arrays; equality holds for close densities and fails for different ones.",
     ["inputs", "histories"], "All positive definite Gaussians in 1-8 dimensions over many scales, both constructors, all read orders.",
     "Tests read each property once in a fixed order for fixed values.",
     [GA, LA], [("lazy conversion", GA + ": mean, cov, precision, shift, natural_to_moment, moment_to_natural")],
     "stateful property-based testing: random read sequences against exact parameters",
     "Conversion accuracy is bounded relative to the condition number.")
prop("C09", "Error metrics are the root mean squared error and mean negative log-density",
     "For any list of beliefs and true states, as vectors or one-row matrices, the reported error is the square root of the mean squared "
     "Euclidean distance of the means to the true states, and the reported negative log-likelihood the mean negative log-density of the true states. "
     "The metrics of a graph are those of its beliefs.",
     ["inputs"], "All lists of beliefs (covariances of condition number up to 1e8, beyond which the density deliberately counts a direction as degenerate) and true states, any dimension and length.",
     "The tests do not check the metrics.", [ME, GA], [("metrics", ME + ": rmse, nll, node_metrics"), ("log density", GA + ": nll, squared_error")],
     "property-based testing: textbook formulas as oracle", "Log-density via slogdet and solve, independent of scipy's.")
prop("C10", "Samples of beliefs and noises follow their distribution and repeat with the seed",
     "Samples drawn from a belief or a noise source have its mean and covariance and joint Gaussian law, one row per sample, for any dimension "
     "and either parameterisation. The same global seed gives the same samples, and drawing does not change the source.",
     ["inputs"], "All Gaussians and noise sources (any mean and covariance, also singular noise), sample sizes and seeds.",
     "Tests check sampling once for a fixed one-dimensional case.", [GA, DS], [("sampling", GA + ": sample"), ("noise", DS + ": GaussianNoise.sample")],
     "property-based testing: statistical oracle (whitened moments, 7 standard errors)", "Statistical bounds of 7 standard errors with deterministic draws per case.")
prop("C11", "Every moment matching is exact on affine maps",
     "For every affine map between any dimensions and every Gaussian input, the Taylor and unscented transforms return the exact mean, covariance and "
     "input-output cross-covariance of the image, for every choice of parameters; the Monte Carlo transform returns them up to sampling error.",
     ["inputs", "configurations"], "All affine maps R^d to R^k, Gaussian inputs, unscented parameters, outputs as vectors or rows.",
     "Tests check one fixed linear map of one dimension.", [TT, UT, MC], [("transforms", "MomentMatching/*.py: _transform")],
     "property-based testing: closed-form oracle", "")
prop("C12", "The unscented transform is the weighted sigma-point rule of its parameters",
     "For every function, Gaussian input and parameters, the unscented transform evaluates the function at the mean and at the mean plus and minus the "
     "scaled columns of a square root of the covariance, and returns the weighted mean, covariance and cross-covariance with the standard weights of alpha, beta and kappa. "
     "Without parameters alpha is 1, beta 2 and kappa 1.",
     ["inputs", "configurations"], "All nonlinear maps, Gaussian inputs in up to 6 dimensions and parameters with positive spread.",
     "Tests compare with stored numbers for one setting.", [UT, LA], [("weights and points", UT + ": _weights, _sigma_points, _transform")],
     "property-based testing: explicit sigma-point sum as oracle, moments of the recorded inputs", "Uses the lower Cholesky root, as the code and the literature do.")
prop("C13", "The Taylor transform is the first-order expansion at the mean",
     "For every differentiable function and Gaussian input, the Taylor transform returns the function at the mean, the covariance J P J' and the "
     "cross-covariance P J' with J the Jacobian at the mean; for functions with vector or one-row outputs and with time or input arguments. "
     "The finite-difference Jacobian agrees with the analytic one to the order of a central difference.",
     ["inputs"], "All differentiable maps, Gaussian inputs, output shapes, step sizes.",
     "Tests check one fixed map.", [TT], [("linearisation", TT + ": _transform, numerical_jacobian")],
     "property-based testing: analytic Jacobians as oracle", "")
prop("C14", "The Monte Carlo transform reports the statistics of the samples it propagates",
     "The Monte Carlo transform draws the requested number of samples from the belief, passes them through the function and returns their sample mean, unbiased "
     "sample covariance and unbiased input-output cross-covariance. The samples follow the belief.",
     ["inputs"], "All nonlinear maps, Gaussian inputs and sample counts.",
     "Tests only check a loose tolerance on one map.", [MC, GA], [("sample covariance", MC + ": sample_covariance, _transform")],
     "property-based testing: recorded samples recomputed", "The samples that reach the user's function are recorded.")
prop("C15", "Filter and smoother are the textbook ones on every nonlinear model",
     "For every nonlinear model with time- and input-dependent motion and measurement, any prior, start time, time step and pair of moment matchings, the "
     "filter and smoother return the means and covariances of the textbook extended, unscented or mixed Kalman filter and Rauch-Tung-Striebel smoother, each step evaluated at its own time.",
     ["inputs", "configurations"], "All nonlinear models, measurement sequences of 1-25 steps, priors, start times, steps, inputs; Taylor and unscented matching in any pairing.",
     "Tests use two models at start time 0 with unit step.", [KF, TT, UT], [("filter", KF + ": kalman_filter, predict, correct"), ("smoother", KF + ": kalman_smoother, smooth")],
     "property-based testing: differential against an independent reference", "Tolerance includes the reference's measured sensitivity to rounding.")
prop("C16", "The iterated filter makes Gauss-Newton corrections of the measurement update",
     "Each inner iteration of the iterated filter is the Gauss-Newton step for the prior-plus-measurement least-squares problem, linearised at the current iterate, with "
     "the prediction as prior; one iteration is the extended Kalman filter. Where the iterations converge, the reported mean is a stationary point of that objective and the covariance the inverse Gauss-Newton Hessian.",
     ["inputs", "configurations"], "All nonlinear models, measurement sequences, iteration counts, priors, start times and inputs.",
     "The iterated filter has no test.", [KF], [("inner iteration", KF + ": IEKF")],
     "property-based testing: explicit Gauss-Newton reference and first-order optimality", "")
prop("C17", "The iterated smoother makes Gauss-Newton steps on the whole trajectory",
     "The first pass of the iterated smoother is the extended Kalman smoother and every further pass is the Gauss-Newton step of the joint trajectory problem, with motion "
     "and measurement linearised at the previous trajectory. Where it converges the trajectory is a stationary point of the posterior density, and a smoother object gives the same answer however it was used before.",
     ["inputs", "histories", "configurations"], "All nonlinear models, measurement sequences, iteration counts, and earlier uses of the same object.",
     "The iterated smoother has no test.", [KF], [("relinearisation", KF + ": IEKS")],
     "property-based testing: dense Gauss-Newton reference and first-order optimality", "Times start at 0, as the class offers no other.")
prop("C18", "Simulated trajectories follow the model",
     "A simulated trajectory starts from the given state or a draw of the initial distribution, each state is the motion of the previous one at its own time plus fresh system noise, and each "
     "measurement is the measurement of that state plus fresh measurement noise, independent over time and between the two. It has the requested length, repeats under the seed and leaves the caller's arrays unchanged.",
     ["inputs", "configurations"], "All models (time-dependent, nonlinear), noise means and covariances, start states, start times, steps, lengths, seeds.",
     "Tests fix one seed and compare shapes or stored values.", [DS], [("recursion", DS + ": simulate, _simulate"), ("noise", DS + ": GaussianNoise")],
     "property-based testing: exact recursion without noise, whitened residual statistics with noise", "Statistical bounds of 7 standard errors.")
prop("C19", "The growth and constant-velocity models are the published ones",
     "The univariate growth model moves x to x/2 + 25x/(1+x^2) + 8cos(1.2t) and measures x^2/20 with its documented noises; the constant-velocity model moves positions by velocity times the step, with the "
     "matching noise covariance, and measures the angle from each sensor to the target, between -pi and pi, in all four quadrants. Both give for a batch of states what they give for each one, for any step, noise level and sensor layout.",
     ["inputs", "configurations"], "All states, batches, times, steps, noise levels and sensor layouts.",
     "Tests touch the growth model at few points and not the tracking model.", ["Systems/UniformNonlinearGrowthModel.py", "Systems/BearingsOnlyTracking.py"],
     [("models", "Systems/UniformNonlinearGrowthModel.py, Systems/BearingsOnlyTracking.py: f, h and constructors")],
     "property-based testing: published formulas, complex-argument bearings, symmetry relations", "")
prop("C20", "The turning-target model moves on circular arcs and measures bearings",
     "The turning target moves along the exact circular arc of its turn rate (a straight line at turn rate zero, continuously near it), keeping speed and turn rate; moving by a then b equals moving by a+b, and rotating the state rotates the "
     "motion. Its noise covariance, start distribution and bearings (between -pi and pi) are the documented ones for any step, sensor layout and noise level (one for all sensors or one each), for one state or a batch, and its derivative is finite and correct at every turn rate.",
     ["inputs", "configurations"], "All states incl. zero and tiny turn rates, steps, batches, noise levels, sensor layouts.",
     "No test covers this model.", ["Systems/BearingOnlyTrackingTurn.py"], [("motion and bearings", "Systems/BearingOnlyTrackingTurn.py: f, h and constructor")],
     "property-based testing: complex-exponential oracle, metamorphic relations (composition, rotation, conserved speed)", "")
prop("C21", "The Lorenz 96 model integrates the documented equation",
     "One step of the Lorenz 96 model is the classical fourth-order Runge-Kutta step of the documented cyclic equation for any dimension, forcing and step, for one state or a batch, and it commutes with cyclic "
     "shifts and keeps the constant equilibrium. Its measurement squares each component, its noises are the given ones, and its start is the saved state when there is one and otherwise the documented integration from the perturbed equilibrium.",
     ["inputs", "configurations"], "All states, dimensions 1-40, forcings, steps, batches, noise levels and saved starts.",
     "No test covers this model.", ["Systems/L96.py"], [("Runge-Kutta step and start", "Systems/L96.py: f, generate_L96_initial_condition, L96")],
     "property-based testing: index-by-index reference step, order check by step halving, symmetry relations", "Chaotic starts are held to the attractor's bounds rather than pointwise.")
prop("C22", "The result store returns what was stored, once per key, and keeps committed data",
     "Trajectories and results read back from the store equal what was stored: arrays with their shape, type and values, lists of arrays, and numbers. The first entry of a key is never replaced or duplicated by a later one, "
     "and committed entries survive rollback, reopening and process death while uncommitted ones disappear.",
     ["histories", "crash_points", "inputs"], "All histories of table creation, inserts (repeated keys, arrays of any shape and type), commits, rollbacks, reopenings and process deaths, on both result layouts.",
     "No test covers the store.", [DB, SB], [("adapters", DB + ": adapt_array, convert_array, adapt_list, convert_list"), ("unique keys", DB + ": create_*_table, insert_*")],
     "model-based stateful property testing with process death", "Array dtypes of the usual numeric kinds; PyPy's pickle limits (two empty arrays in one list) are avoided.")
prop("C23", "The iteration log has one row per finished sweep and survives a crash",
     "Running EP with logging makes the same sweeps as running it without, and adds after every finished sweep exactly one row (one per component group in the turning-target experiment) numbered on from the given iteration, with that "
     "sweep's error and negative log-likelihood and the run's setting. Rows of finished sweeps survive the death of the process or an error inside a later sweep, and rows of other runs are not touched.",
     ["histories", "crash_points", "inputs"], "All models, powers, dampings, sweep counts, starting iteration numbers, earlier rows, and crash points inside any sweep.",
     "No test covers logging.", [IT, SB, DB], [("log after each sweep and commit", IT + ": ep_iterations; " + SB + ": ep_iterations")],
     "property-based testing with crash injection: unlogged twin run as oracle", "")
prop("C24", "An experiment sweep records exactly the configured runs, resumes and overrides",
     "An experiment sweep simulates each seed's trajectory from that seed, stores it, and records for every combination of moment matching, power and damping the same errors as running that configuration on its own. Running it again, in parts or after a crash "
     "completes what is missing, skips configurations recorded up to the fiftieth sweep and leaves recorded results as they were, unless override is given, in which case they are replaced by fresh results; a failing configuration does not stop the others.",
     ["histories", "configurations", "crash_points"], "All sweep configurations (seeds, moment matchings, powers, dampings, iteration counts, systems), splits, crashes, reruns and overrides, and the command line.",
     "No test covers the experiment drivers.", [FS, SB, SL], [("drivers", FS + ": full_sweep, power_sweep, select_transform, main; " + SB)],
     "stateful property-based testing: independent per-configuration pipeline as oracle, crash and rerun histories", "Monte Carlo runs that are not the first of their seed are compared by key only, because they share the random stream.")
prop("C25", "Estimates do not depend on the units or coordinates of states and measurements",
     "Rewriting a model in other state coordinates or other measurement units (any invertible affine change for Taylor matching, lower-triangular state changes for the unscented rule) changes the filter's, smoother's, iterated filter's and smoother's and EP's estimates "
     "by exactly that change, for any power and damping.",
     ["inputs", "configurations"], "All nonlinear models, measurement sequences, invertible affine state and measurement changes, powers and dampings.",
     "A metamorphic relation over all models; tests have none.", [KF, ES, ND, TT, UT], [("moment-based updates", ES + "; " + KF)],
     "property-based testing: metamorphic relation", "")
prop("C26", "Filtered estimates use the past only and every step gets one estimate",
     "The filtered estimate of a step does not change when later measurements are changed, added or removed, in the filter, the iterated filter and the forward pass of EP. Each measurement gets exactly one filtered and one smoothed estimate in order, the last smoothed estimate is the last filtered one, and "
     "smoothing leaves the filtered results unchanged.",
     ["inputs", "histories"], "All nonlinear models, measurement sequences, cut points and later values.",
     "Tests check lengths on fixed data.", [KF, IT, ND], [("recursions", KF + ": kalman_filter, kalman_smoother; " + IT + ": kalman_filter")],
     "property-based testing: metamorphic relation (prefix and altered-future runs)", "")
prop("C27", "Runs are repeatable and independent; nothing handed in is changed or shared",
     "Filtering, smoothing, their iterated versions, EP and simulation leave measurements, noise covariances, priors and moment-matching rules as they were. Two problems that share a model, moment matching, estimator or filter object give the same results interleaved in any order as on their own, and "
     "Monte Carlo runs repeat under their seed.",
     ["schedules", "histories", "inputs"], "All interleavings of sweeps, filters, smoothers, iterated runs and simulations of two problems on shared objects.",
     "Tests run one problem per fresh object.", [KF, ND, ES, DS, TT, UT, MC], [("no hidden state", "all estimators, transforms and models")],
     "stateful property-based testing: interleaved against separate runs", "")
prop("C28", "A factor graph means the same however it was put together",
     "A graph assembled in one call or in pieces in any order, with measurements in any container, gives the same results. Its nodes form a chain in time order, each with its own measurement, time and input (time 0 growing by the model's step and input 0 unless given) and the initial distribution in front; equipping it with another "
     "estimator, model or data makes later updates use the new one.",
     ["programs", "configurations", "histories"], "All orders of assembly, containers, lengths 1-8, explicit or default times and inputs, and changes of equipment between sweeps.",
     "Tests build one graph one way.", [ND], [("assembly", ND + ": build_nodes, node_estimator, node_system")],
     "stateful property-based testing: assembly programs against the plain assembly", "")
prop("C29", "The numerical helpers keep their contracts on ill-conditioned matrices",
     "For every symmetric matrix, the jittered factorisation returns a triangular factor (lower by default) of the matrix plus the jitter on its diagonal or fails, the jittered solve solves that system, symmetrisation averages a matrix with its transpose, and covariance validation accepts "
     "exactly the numerically positive definite ones. None changes its arguments.",
     ["inputs"], "All symmetric positive definite, nearly singular, singular and indefinite matrices in 1-8 dimensions over many scales; asymmetric matrices for symmetrisation.",
     "No test covers the helpers.", [LA], [("helpers", LA + ": jittered_chol, jittered_solve, symmetrize, validate_covariance")],
     "property-based testing: residual bounds and algebraic laws", "")
prop("C30", "Plotted bands are the beliefs' own means and 95 percent intervals",
     "Plots of beliefs draw the means and the band of 1.96 standard deviations around them at each step, with the true states where given, on the axes given. Plots of a set of curves draw their mean and a band of one standard deviation, and no band for a single curve.",
     ["inputs"], "All lists of beliefs (by moments or natural parameters) and sets of curves.",
     "No test covers plotting.", [PL], [("plots", PL + ": plot_gaussian, plot_gaussian_node, plot_1d_data")],
     "property-based testing: vertices read back from the figure", "Beliefs of graphs are plotted in one dimension, which is what the function supports.")
prop("C31", "Data never increases uncertainty and covariances stay proper",
     "On every nonlinear model with non-negative moment-matching weights, all filtered and smoothed covariances, also of the iterated filter and of one EP sweep with power and damping 1, are symmetric and positive definite; filtered covariances never exceed the predicted ones and smoothed never the filtered ones (as matrices). "
     "On linear models they do not depend on the measured values, and less measurement noise never gives larger ones.",
     ["inputs", "configurations"], "All nonlinear models and measurement sequences with condition numbers up to 1e8.",
     "An inequality over all inputs; tests check values on fixed data.", [KF, ES, UT, TT], [("gain and covariance updates", KF + ": correct, smooth; " + ES)],
     "property-based testing: invariant (matrix ordering) and metamorphic relations", "Orderings to 1e-7 relative.")
prop("C32", "Component metrics separate position, velocity and turn rate",
     "The tracking experiments report for position, velocity and turn rate separately the root mean squared error and mean negative log-density of exactly those components of the true states under the beliefs' marginals, correlations within a group included.",
     ["inputs"], "All lists of five-dimensional beliefs and true states, for the graph and the smoother version.",
     "No test covers them.", [SB, KB], [("component metrics", SB + ": node_metrics; " + KB + ": componentwise_metrics")],
     "property-based testing: exact marginals and textbook formulas as oracle", "")
prop("C33", "The printed comparison summarises exactly the saved results of each setting",
     "The results report prints, for every experiment and setting it names, the mean and standard deviation over seeds of exactly the saved rows of that transform, power, damping, quantity, dimension and iteration, with error and log-likelihood in their own columns, whatever other rows are saved.",
     ["inputs", "configurations"], "All contents of the result stores.",
     "No test covers the report.", ["Experiments/DisplayResults.py"], [("queries and statistics", "Experiments/DisplayResults.py")],
     "property-based testing: random stores against directly computed statistics", "The settings are those hard-coded in the script.")

prop("C34", "Smoother and Lorenz experiments record exactly what they ran, run by run",
     "Each experiment script for the iterated smoother and for EP on Lorenz 96 records one row per run of its setting (seed, dimension, quantity, power, damping, iteration) with the error and mean negative log-likelihood of the estimates for the trajectory simulated from exactly that seed. A stopped script keeps every finished run, and rows already saved stay as they are.",
     ["inputs", "configurations", "crash_points"], "All seeds, Lorenz starts, earlier contents of the store, stopping points and second runs.",
     "No test covers the experiment scripts.", [KB, "Experiments/IEKS_Sweep_UNGM.py", "Experiments/IEKS_Sweep_L96.py", SL],
     [("scripts", "Experiments/IEKS_Sweep_*.py, " + SL + ": module body")],
     "property-based testing: scripts run unchanged on shortened problems against an independent run per seed", "Problem sizes are cut by wrapping class methods (see evidence assumptions).")


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            if p["observe"]:
                anchors["observe_at"] = p["observe"]
            anchors["hook_needed"] = None
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                                "anchors": anchors}) + "\n")
    checks = []
    for p in P:
        checks.append({"property": p["id"], "quick_cmd": "./check " + p["id"],
                       "thorough_cmd": "VERIF_TIER=thorough ./check " + p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "exploration",
                       "level_note": ("Random search with shrinking against an explicit oracle; no violation among the cases generated, "
                                      "no proof. " + p["note"]).strip()})
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [],
         "notes": "Hypothesis (python3-vt) generates and shrinks; a worker under the repository's own interpreter imports /repo's "
                  "working tree and decides. No hooks in /repo are needed."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    design()


def design():
    """Fills the generated parts of DESIGN.md."""
    import glob
    import re
    import importlib.util
    import sys
    import types
    stub = types.ModuleType("side")  # only the constants of the case files are wanted
    stub.G = stub.W = stub.np = None
    stub.st, stub.composite = None, lambda f: f
    sys.modules["side"] = stub
    sys.path.insert(0, VERIF)
    sys.dont_write_bytecode = True
    text = []
    for p in P:
        spec = importlib.util.spec_from_file_location(p["id"], os.path.join(VERIF, "props", p["id"].lower() + ".py"))
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        text.append("**%s. %s.** Decided by %s. %s%s%s Cases: %d quick, %d thorough. Beyond the tests: %s" % (
            p["id"], p["title"], p["technique"], mod.RULE, " " + p["note"] if p["note"] else "",
            " Assumes: " + "; ".join(mod.ASSUMPTIONS) + "." if getattr(mod, "ASSUMPTIONS", None) else "", mod.N["quick"], mod.N["thorough"], p["why"]))
    caught = {}
    path = os.path.join(VERIF, "tools", "caught.json")
    if os.path.exists(path):
        caught = json.load(open(path))
    rows = ["| change | property | needs | reported by |", "|---|---|---|---|"]
    for f in sorted(glob.glob(os.path.join(VERIF, "seeded", "*", "meta.json"))):
        id, m = os.path.basename(os.path.dirname(f)), json.load(open(f))
        by = sorted(k for k, v in caught.get(id, {}).items() if v)
        by = [k for k in by if k == m["property"]] + [k for k in by if k != m["property"]]
        rows.append("| %s | %s | %s | %s |" % (id, m["property"], m["needs"], " ".join(by) or "-"))
    path = os.path.join(VERIF, "DESIGN.md")
    s = open(path).read()
    for mark, body in (("properties", "\n\n".join(text)), ("bugs", "\n".join(rows))):
        s = re.sub(r"<!-- %s -->.*?<!-- end -->" % mark, lambda _: "<!-- %s -->\n%s\n<!-- end -->" % (mark, body), s, flags=re.S)
    open(path, "w").write(s)


main()
