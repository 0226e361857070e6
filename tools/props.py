"""Writes properties.jsonl (the list is edited here)."""
import json
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe),
                               hook_needed=None)))


S = "bayesian_sde_solver/"
prop("C01", "The random-ODE drivers chain their steps over the exact time grid",
     "For every number of steps N, step length delta and state (array or tuple of arrays), both SDE drivers return the N+1 grid times 0, delta, ..., N delta, a trajectory of N+1 states that starts with the given state, and N sets of Brownian coefficients (where returned). "
     "The state recorded after a step is what the ODE integrator returned for the state recorded before it, integrated over a horizon of exactly delta; the Brownian approximation is drawn for the same delta.",
     ["inputs", "configurations"], "all problems, N, delta, scalar and tuple states, eager / jit / vmap execution",
     "tests run a handful of fixed N and delta and look at final moments with loose tolerances; none inspects horizon, chaining or the tuple layout step by step",
     [S + "sde_solver.py", S + "ssm_parabola/ssm_parabola_ode.py", S + "utils/insert.py", S + "utils/progress_bar.py"],
     [("scan over (index, key, time)", S + "sde_solver.py: sde_solver"), ("initial state prepended", S + "utils/insert.py: insert")],
     [("x", "carried state", S + "sde_solver.py: body"), ("ts", "grid of times", S + "sde_solver.py: sde_solver")],
     ["return value of sde_solver / ssm_parabola_ode_solver"])
prop("C02", "Each step integrates the random ODE of that step in absolute time",
     "The vector field handed to the ODE integrator on the k-th step equals, at every state z and local time t in [0, delta], drift(z, k delta + t) + sigma(z, k delta + t) W'(t), where W is the Brownian approximation on [0, delta] with exactly the coefficients the driver reports for that step. "
     "The driver with marginalised coefficients hands over the drift and the diffusion shifted to the same absolute time.",
     ["inputs", "configurations"], "all drifts and diffusions (time dependent, any Brownian dimension), all Brownian approximations, all steps, states and local times",
     "existing tests use autonomous drifts and diffusions, so a wrong or missing time shift, or coefficients of another step, is invisible to them",
     [S + "sde_solver.py", S + "ssm_parabola/ssm_parabola_ode.py", S + "foster_polynomial.py"],
     [("vector_field", S + "sde_solver.py: body"), ("drift_shifted, sigma_shifted", S + "ssm_parabola/ssm_parabola_ode.py: body")],
     [("coeffs_k", "Brownian coefficients of the step", S + "sde_solver.py: body"), ("t_k", "start time of the step", S + "sde_solver.py: body")],
     ["vector_field argument of the ODE integrator", "reported coefficients"])
prop("C03", "Randomness: no key is used twice, and runs are functions of their key",
     "Within one run, the keys given to the Brownian approximation and to the ODE solver are pairwise different over all steps and both purposes and differ from the caller's key, and the driving noise of a solver is never repeated between steps or coordinates. "
     "Repeating a call with the same key gives the same result, also when jit-compiled or batched with vmap; a different key gives a different result.",
     ["inputs", "histories"], "all keys, numbers of steps, SDE solvers and execution modes",
     "tests only look at moments over many keys, which hardly change when two steps or purposes share a key",
     [S + "sde_solver.py", S + "ssm_parabola/ssm_parabola_ode.py", S + "sde_solvers/euler_maruyama.py", S + "sde_solvers/diag_15_scheme.py", S + "sde_solvers/hypoelliptic_diffusion__diag_15_scheme.py", S + "foster_polynomial.py", S + "utils/ivp.py"],
     [("split per step, then per purpose", S + "sde_solver.py: body"), ("split per step", S + "sde_solvers/euler_maruyama.py: solver")],
     [("used", "keys consumed so far", "argument of get_coeffs and ode_int")], ["keys received by user callables", "noise increments"])
prop("C04", "Ito and Stratonovich conversions are exact and mutually inverse",
     "For every differentiable (possibly time dependent, non-square) diffusion sigma, the Stratonovich drift is drift_i - 1/2 sum_{j,k} sigma_jk d(sigma_ik)/dx_j and the Ito drift is obtained by adding the same correction, evaluated at the state and time passed. "
     "Converting back and forth returns the original drift, the diffusion is unchanged, and additive noise needs no correction.",
     ["inputs"], "all drifts and diffusions, states and times, any state and Brownian dimension",
     "tests use a few diagonal or scalar diffusions, for which transposed indices or a missing sum agree with the right formula",
     [S + "ito_stratonovich.py"], [("drift_correction", S + "ito_stratonovich.py")], [], ["return values of to_ito, to_stratonovich, drift_correction"])
prop("C05", "The Brownian parabola has the right shape and law",
     "With coefficients (a, b) the parabola on [0, dt] is a u + sqrt(6) b u (1-u) with u = t/dt: it is 0 at 0 and a at dt, and its time integral is dt (a/2 + b/sqrt(6)). "
     "The sampled coefficients are independent centred Gaussians of variance dt for a and dt/2 for b, independent across coordinates and keys, in the requested dimension, also for batches of keys and step lengths.",
     ["inputs"], "all dt, dimensions, keys, coefficients and times",
     "tests check moments of one configuration; the scaling in dt, the independence and the polynomial at every time are not covered",
     [S + "foster_polynomial.py"], [("get_approx", S + "foster_polynomial.py")], [], ["coefficients and values of the approximation"])
prop("C06", "Coarse parabolas preserve increment and area of the fine path they summarise",
     "When the parabola is built from a fine Brownian path or from N fine parabolas, its increment is exactly the increment of the fine path over dt and its time integral is exactly that of the fine path (trapezoidal for the piecewise linear path), for every N, dt, dimension and key. "
     "The returned fine increments are the ones used (standard normal for the path; Brownian increments and areas on dt/N for the fine parabolas), and the coarse coefficients have the law of the parabola coefficients.",
     ["inputs"], "all keys, N, dt, dimensions",
     "tests check means and variances, which do not reveal that the coarse coefficients fail to match the returned fine path",
     [S + "foster_polynomial.py"], [("get_approx_and_brownian", S + "foster_polynomial.py"), ("get_approx_fine, update_eps", S + "foster_polynomial.py")],
     [("eps_0, eps_1", "running increment and area", S + "foster_polynomial.py: update_eps")], ["returned coefficients and fine increments"])
prop("C07", "Euler-Maruyama follows its recursion, keyed or pathwise",
     "Every step is x + h drift(x, t_k) + sigma(x, t_k) dW_k with t_k = k h, from the given state, with N+1 states and times returned; in the keyed solver dW_k are independent N(0, h I) of the dimension of the Brownian motion. "
     "The pathwise solver uses the given increments as they are, or scaled by sqrt(h) when they are declared standard, and does not modify the caller's arrays.",
     ["inputs", "histories"], "all drifts, diffusions (time dependent, non-square), increments, h, N and keys, repeated calls",
     "tests compare moments for autonomous problems; time arguments, increments' scaling and aliasing are not covered",
     [S + "sde_solvers/euler_maruyama.py"], [("solver", S + "sde_solvers/euler_maruyama.py"), ("solver_pathwise", S + "sde_solvers/euler_maruyama.py")],
     [("x", "state", S + "sde_solvers/euler_maruyama.py: body")], ["returned times and trajectory"])
prop("C08", "The diagonal-noise scheme is the strong Ito-Taylor scheme of order 1.5",
     "For autonomous drifts and diagonal diffusions in which each diffusion coefficient depends on its own coordinate only (or is constant), every step equals the strong order 1.5 Ito-Taylor step for the pair (Brownian increment, time integral of Brownian motion) drawn for that step, including the multiplicative-noise terms. "
     "That pair is Gaussian with variances h, h^3/3 and covariance h^2/2 per coordinate, independent over coordinates and steps.",
     ["inputs"], "all such drifts and diffusions, dimensions, h, N, keys",
     "tests use additive noise or coarse moments; terms with derivatives of the diffusion or cross-coordinate derivatives of the drift are unchecked",
     [S + "sde_solvers/diag_15_scheme.py"], [("solver", S + "sde_solvers/diag_15_scheme.py")], [("x", "state", S + "sde_solvers/diag_15_scheme.py: body")], ["returned trajectory"])
prop("C09", "The hypoelliptic scheme has the order-1.5 conditional mean and covariance",
     "Given the current state, the next state of the hypoelliptic scheme is Gaussian with mean x + h b + h^2/2 (Db) b + h^2/4 tr(sigma sigma^T Hess b) and covariance with blocks (d_u a GG^T d_u a^T) h^3/3, (d_u a GG^T) h^2/2 and GG^T h, where a is the first (smooth) coordinate of the drift b, u the remaining coordinates and G the diffusion of u. "
     "This holds at every step, from the given initial state, on the grid k h, with independent noise per step.",
     ["inputs"], "all autonomous hypoelliptic problems (smooth first coordinate), dimensions, h, N, keys",
     "tests use two linear problems with constant diffusion, where the Hessian and state dependent terms vanish",
     [S + "sde_solvers/hypoelliptic_diffusion__diag_15_scheme.py"], [("solver", S + "sde_solvers/hypoelliptic_diffusion__diag_15_scheme.py")], [("x", "state", "body")], ["returned trajectory"])
prop("C10", "Extended Kalman filtering is exact Gaussian conditioning",
     "Each step of the filter pushes the Gaussian through x -> A x + xi plus noise of covariance Q and then conditions it on the observation function, linearised at the predicted mean and evaluated at that step's parameters, being zero up to noise of covariance R. "
     "The mean, covariance, innovation and innovation covariance it returns are the exact ones, for every number of steps; the covariance stays symmetric positive semi-definite and never grows by conditioning.",
     ["inputs"], "all A, xi, Q, R, observation functions (nonlinear, time dependent, scalar or vector valued), initial Gaussians (also singular), numbers of steps",
     "the tests exercise xi = 0 and R = 0 on two small examples",
     [S + "ode_solvers/probnum/ekf.py", S + "ode_solvers/ekf.py"], [("predict, update, ekf", S + "ode_solvers/probnum/ekf.py"), ("observation_function", S + "ode_solvers/ekf.py: _solver")],
     [("m, P", "filtered mean and covariance", S + "ode_solvers/probnum/ekf.py: body")], ["returned moments"])
prop("C11", "Square-root filtering gives the same result as standard filtering",
     "Started from a square root of the same covariance and given the same prior and observation noise, the square-root filter returns the same mean and a matrix L with L L^T equal to the covariance of the standard filter, for the filter core and for every Gaussian ODE and SDE solver built on it. "
     "This includes singular covariances (zero initial covariance, zero-padded priors) and non-zero observation noise.",
     ["inputs", "configurations"], "all problems, priors, noises and solvers with a square-root option",
     "tests compare the two forms on one example with no observation noise",
     [S + "ode_solvers/probnum/ekf.py", S + "ode_solvers/ekf.py", S + "ode_solvers/ekf0.py", S + "ode_solvers/ekf1.py", S + "ode_solvers/ekf0_2.py", S + "ode_solvers/ekf1_2.py", S + "ssm_parabola/ekf.py"],
     [("tria, predict, update", S + "ode_solvers/probnum/ekf.py"), ("factors of Q, R and the initial covariance", S + "ode_solvers/ekf.py: _solver")], [("P_or_cholP", "covariance or a factor", "ekf")], ["returned moments"])
prop("C12", "Fresh-prior EKF0 and EKF1 solve the ODE from the exact initial derivatives",
     "The solver starts at the given state with the exact first derivative f(y0, 0), the exact second derivative (including the time derivative of f) when the prior has it, and unit-variance zero means for further derivatives, all other initial variances being zero; it then filters N steps of length h with observations y'(jh) = f(y(jh), jh) at times h, ..., N h. "
     "EKF1 linearises f at the predicted mean and EKF0 uses no derivative of f; without a key the final filtered mean of y is returned, for every dimension, prior order, prior increment and observation noise, and the default prior is the once integrated Brownian motion with step h.",
     ["inputs", "configurations"], "all (time dependent) vector fields, dimensions, h, N, priors with 2, 3, 4 or more states, noises",
     "tests use linear autonomous fields and two-state priors; longer priors, default priors and time dependent fields are not run",
     [S + "ode_solvers/ekf0.py", S + "ode_solvers/ekf1.py", S + "ode_solvers/ekf.py"], [("initialisation", S + "ode_solvers/ekf0.py: solver"), ("observation_function", S + "ode_solvers/ekf.py: _solver")],
     [("init", "initial law", S + "ode_solvers/ekf1.py: solver")], ["returned value with key=None"])
prop("C13", "The Gaussian-mixture EKF0 and EKF1 start from the previous posterior",
     "Given (sample, mean, covariance), the solver starts the filter at the mean with its exact first derivative and at the joint covariance obtained by propagating the covariance of y through the Jacobian of f (EKF1) or with zero covariance for the derivative (EKF0); the sample passed in has no influence. "
     "It returns a sample, the filtered mean and the filtered covariance of y; without a key the sample is the mean, and on request also the full posterior and the last innovation with its covariance.",
     ["inputs", "histories"], "all vector fields, input Gaussians, dimensions, priors, noises, sqrt and standard, chained over steps",
     "end to end tests look at moments of samples only", [S + "ode_solvers/ekf0_2.py", S + "ode_solvers/ekf1_2.py", S + "ode_solvers/probnum/_utils.py"],
     [("joint initial covariance", S + "ode_solvers/ekf1_2.py: solver"), ("interlace_matrix", S + "ode_solvers/probnum/_utils.py")], [("(sample, mean, covariance)", "state carried between steps", S + "ode_solvers/ekf1_2.py: solver")], ["returned tuple"])
prop("C14", "Samples drawn by the solvers follow the filtered Gaussian law",
     "With a key, every Gaussian ODE solver (fresh prior, mixture, marginalised parabola; standard and square-root) returns a sample of exactly the Gaussian law whose mean and covariance the filter computed for the returned quantities, jointly over coordinates. "
     "Singular covariances are handled, degenerate directions receiving no noise.",
     ["inputs"], "all problems, dimensions, keys, forms",
     "tests average over samples of one problem with loose bounds", [S + "ode_solvers/ekf0.py", S + "ode_solvers/ekf1.py", S + "ode_solvers/ekf0_2.py", S + "ode_solvers/ekf1_2.py", S + "ssm_parabola/ekf0.py", S + "ssm_parabola/ekf1.py"],
     [("m + sqrtP @ noise", S + "ode_solvers/ekf1.py: solver")], [], ["returned samples over many keys"])
prop("C15", "Uncertainty calibration returns the maximum-likelihood diffusion",
     "For innovations z_n with covariances S_n the calibration returns the average over the N steps of z_n^T S_n^{-1} z_n divided by the dimension, the maximiser of the Gaussian likelihood in the common scale; scaling all S_n by c divides it by c, scaling z_n by c multiplies it by c^2. "
     "The innovations and covariances that the mixture solvers return for it are those of the last filtering step (y' - f at the predicted mean, and its predictive variance).",
     ["inputs", "histories"], "all innovation sequences, dimensions, solvers", "no test covers calibration",
     [S + "ode_solvers/probnum/calibration.py", S + "ode_solvers/probnum/ekf.py", S + "ode_solvers/ekf0_2.py", S + "ode_solvers/ekf1_2.py"], [("mle_diffusion", S + "ode_solvers/probnum/calibration.py"), ("body_return_UC", S + "ode_solvers/probnum/ekf.py")], [], ["returned estimate", "returned innovations"])
prop("C16", "The integrated Brownian / OU prior is the exact transition of its SDE",
     "For every order q, step dt, scale sigma, drift parameter theta and dimension, the transition matrix is exp(F dt) of the q times integrated OU process and the covariance is sigma^2 times the exact covariance of the q times integrated Brownian motion (exact for theta = 0, leading order otherwise), block diagonal over coordinates, with zero increment. "
     "For theta = 0 two steps of length dt compose to one step of length 2 dt.",
     ["inputs"], "all q, dt, theta, sigma, dim", "tests use q = 1, theta = 0 in one dimension", [S + "ode_solvers/probnum/IOUP.py"], [("transition_function", S + "ode_solvers/probnum/IOUP.py")], [], ["returned (increment, covariance, matrix)"])
prop("C17", "Matern and general linear priors are discretised and composed correctly",
     "For a linear SDE dX = (F X + u) dt + L dW the discretisation returns exp(F h), the integral over [0,h] of exp(F s) u and the integral of exp(F s) L L^T exp(F s)^T, and the Matern prior of smoothness k + 1/2 is this for the companion matrix of (x + sqrt(2 k + 1)/length)^(k+1), also in its closed form, replicated independently over coordinates. "
     "Padding a prior adds zero rows and columns only, and the independent product of priors is block diagonal in the given order.",
     ["inputs"], "all F, u, L, h; all k, length, magnitude, dim; all priors to pad or combine", "the tests never call these with k other than 1",
     [S + "ode_solvers/probnum/matern.py", S + "ode_solvers/probnum/transition_function.py"], [("transition_function", S + "ode_solvers/probnum/transition_function.py"), ("matern", S + "ode_solvers/probnum/matern.py"), ("pad_prior, get_independently_factorized_prior", S + "ode_solvers/probnum/transition_function.py")], [], ["returned (increment, covariance, matrix)"])
prop("C18", "The marginalised parabola filter conditions state and coefficients jointly",
     "The filter with the parabola coefficients in its state starts from y0, drift(y0, 0), zero coefficients, the prior law of the coefficients (variances delta and delta/2) and the joint covariance of y' with them (4/delta sigma sigma^T, sigma, sqrt(6)/2 sigma), and at times h, ..., N h observes that y' equals drift + sigma W'(t) for the parabola W over [0, delta]. "
     "EKF1 linearises in the state and the coefficients, EKF0 only in the coefficients; the coefficients themselves never move under prediction, and the solver returns state, increment and area, their means when no key is given.",
     ["inputs", "configurations"], "all drifts, square diffusions, delta, h, N, dims, priors (with increment), noises, sqrt and standard",
     "tests look at moments of the end point for a few problems with loose tolerances",
     [S + "ssm_parabola/ekf.py", S + "ssm_parabola/ekf0.py", S + "ssm_parabola/ekf1.py"], [("extended_vector_field, pol, block", S + "ssm_parabola/ekf.py: _solver")], [("mean, var", "law of (y, y', increment, area)", S + "ssm_parabola/ekf.py: _solver")], ["returned means", "filtered moments"])
prop("C19", "The progress bar is transparent and accounts for every iteration",
     "Wrapping a scan body in the progress bar leaves carry and outputs unchanged for every number of iterations, body and input form (index alone or tuple). "
     "Exactly one bar of that length with the given message is opened at the first iteration, its updates sum to exactly the number of iterations, never exceeding it, and it is closed once, after the last update.",
     ["inputs", "schedules"], "all numbers of iterations (also above 1000, with and without remainder), all scan bodies",
     "tests never look at the bar, and use fewer than 1000 iterations",
     [S + "utils/progress_bar.py"], [("print_rate, remainder", S + "utils/progress_bar.py: progress_bar"), ("_update_progress_bar, close_tqdm", S + "utils/progress_bar.py")], [("tqdm_bars", "the open bar", S + "utils/progress_bar.py")], ["calls on the tqdm bar", "scan results"])
prop("C20", "The benchmark problems' reference moments match their own coefficients",
     "For each benchmark SDE, the reference means and variances it returns are those of the SDE given by the drift and diffusion it returns from its initial state: exact where stated as exact, and equal to the Taylor expansion in t to the stated order otherwise. "
     "The square-diffusion variants have the same drift, initial state and diffusion covariance as their originals. The random linear problem is dX = std1 M X dt + std2 S dW with independent standard normal matrices M and S that depend on the key only.",
     ["inputs"], "all times t (and the whole table of problems)", "tests use the references as oracles and do not check them against the drift and diffusion",
     [S + "utils/ivp.py"], [("fhn, ibm, double_ibm, harmonic_oscillator, gbm, synaptic_conductance, ...", S + "utils/ivp.py")], [], ["returned functions"])
prop("C21", "The Euler ODE solver performs N explicit steps of length h from time zero",
     "The Euler solver returns y_N of the recursion y_{j+1} = y_j + h f(y_j, j h), j = 0, ..., N-1, for every (time dependent) vector field, dimension, h and N. "
     "For linear fields this is exact algebra, and splitting a run in two with the time shifted gives the same result.",
     ["inputs"], "all vector fields, states, h, N", "tests compare with the exact solution of one problem at a tolerance that hides a shifted time argument",
     [S + "ode_solvers/euler.py"], [("solver", S + "ode_solvers/euler.py")], [("x", "state", S + "ode_solvers/euler.py: body")], ["returned state"])
prop("C22", "Multi-dimensional solves respect the coordinate layout",
     "Solving a system of uncoupled equations with any Gaussian ODE solver, or with the marginalised parabola filter and a diagonal diffusion, gives coordinate by coordinate the result of the one-dimensional solves, and permuting the coordinates of a problem permutes the result. "
     "Interlacing vectors and covariance blocks puts derivative j of coordinate i next to derivative j+1 of the same coordinate, and all derivatives of the first coordinate before those of the second.",
     ["inputs"], "all uncoupled systems, permutations, dimensions, solvers, numbers of states", "tests are almost all in dimension one or two with symmetric data",
     [S + "ode_solvers/probnum/_utils.py", S + "ode_solvers/ekf.py", S + "ode_solvers/ekf0.py", S + "ode_solvers/ekf1.py", S + "ssm_parabola/ekf.py"], [("interlace, interlace_matrix", S + "ode_solvers/probnum/_utils.py"), ("strided access", S + "ode_solvers/ekf.py: _solver")], [], ["returned moments"])
prop("C23", "Whole runs of the SDE solvers are compositions of their exact one-step laws",
     "In a run of the driver with any Brownian approximation and any of the ODE solvers, every recorded state is the exact one-step result (Euler step sequence, or filtered mean without sampling, or filtered mean and covariance for the mixture solvers) for the random ODE of that step, started from the recorded previous state with the reported coefficients. "
     "For additive noise without drift the recorded increment is sigma times the reported Brownian increment up to the discretisation error of the solver, so solutions follow the given Brownian path.",
     ["inputs", "histories"], "all problems, approximations, solvers, N, delta, numbers of inner steps", "tests compare end point moments or convergence orders for fixed problems",
     [S + "sde_solver.py", S + "ode_solvers/ekf0.py", S + "ode_solvers/ekf1.py", S + "ode_solvers/ekf0_2.py", S + "ode_solvers/ekf1_2.py", S + "ode_solvers/euler.py", S + "foster_polynomial.py", S + "ssm_parabola/ssm_parabola_ode.py"],
     [("body", S + "sde_solver.py: sde_solver"), ("solvers", S + "ode_solvers")], [("x", "state or (sample, mean, covariance)", S + "sde_solver.py: body")], ["recorded trajectory and coefficients"])

if __name__ == "__main__":
    from pathlib import Path
    out = Path(__file__).resolve().parent.parent / "properties.jsonl"
    out.write_text("".join(json.dumps(p) + "\n" for p in P))
    print(len(P))
