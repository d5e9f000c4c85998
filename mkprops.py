"""Writes properties.jsonl (kept as a generator so that the JSON stays valid)."""
import json
M='fides/minimize.py'; H='fides/hessian_approximation.py'; S='fides/steps.py'; T='fides/trust_region.py'; B='fides/stepback.py'; P='fides/subproblem.py'; K='fides/constants.py'; L='fides/logging.py'
R=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    R.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],hook_needed=None)))
I,HI,CF,FS,SC=['inputs'],['inputs','histories'],['inputs','configurations'],['inputs','fault_sequences'],['schedules']

p('C01','Only points within the bounds become iterates',
 'The start point that is used and every later point adopted as current solution satisfies lb <= x <= ub in every coordinate. A start or adopted point with any coordinate outside its bounds, by however little, or not comparable (NaN), makes minimize fail with a RuntimeError and exit flag EXCEEDED_BOUNDARY; minimize neither goes on to another evaluation with such a point as its iterate nor returns it.',
 HI,'all objectives, bounds, start points and run histories','Tests only run two 2-D objectives in three boxes; no test produces a point outside the box.',
 [M],[('bounds check of x0 and of each accepted point','Optimizer.check_in_bounds, called in minimize() and update()')],['Optimizer.minimize() result/exception','Optimizer.exitflag'])
p('C02','Every trial step is stepped back from the bounds',
 'Whatever subspace solver and boundary strategy produced it, the last segment of every candidate step is multiplied by min(1, theta*b), b being the smallest ratio, over all coordinates that move, of the distance from the point where the segment starts to the bound ahead of it (upper or lower) to the move in that coordinate. A reflected candidate starts on the break point of the step it reflects; a truncated one moves the variables that reach a bound first theta of the way there. Nothing lengthens or alters a segment afterwards, and the evaluated trial point is exactly the current point plus the segments of the chosen candidate. theta is max(theta_max, 1 - max_i |v_i g_i|) with v the Coleman-Li scaling vector.',
 CF,'all states, solvers (2D, full, scg) and strategies (reflect_single, reflect, truncate, mixed, refine)','Tests check only that runs end near the optimum; a wrong breakpoint in one strategy or coordinate merely slows them or is caught by luck.',
 [S,B,T,M],[('step back','Step.step_back, called by every calculate()'),('theta','Optimizer.minimize loop')],['points passed to the objective'])
p('C03','Points on a bound are moved into the interior',
 'A start point (integer-valued ones included) or accepted point with coordinates on a bound, or within rounding (about 1e-14) of it, is moved by a tiny amount (at most 1e-10) strictly towards the interior in exactly these coordinates, away from that bound; all other coordinates keep their values. For the start point this happens before the bounds check and the first evaluation.',
 I,'all start points, boxes and coordinates','No test starts on a bound or uses integer start points in a box that matters.',
 [M],[('nudge','Optimizer.make_non_degenerate')],['first point passed to the objective','Optimizer.x'])
p('C04','Accepted steps strictly decrease the objective',
 'A trial point replaces the current one only if its objective value is finite and strictly smaller than the current value. Hence values of successive iterates are strictly decreasing and minimize never returns a value above the one at the start point.',
 HI,'all objectives, options and histories','Tests compare only the final value with the best seen one on two smooth objectives.',
 [M],[('acceptance by trust region ratio','Optimizer.update_tr_radius return value guards update()')],['Optimizer.fval over iterations'])
p('C05','Rejected steps leave the optimization state untouched',
 'If a trial point is not adopted, the current point, value, gradient and Hessian (approximation), as well as the state of the Hessian update scheme and the previous residuals used by residual-based schemes, are exactly what they were before. Either all of them change in an iteration or none.',
 HI,'all objectives and run histories, including failed evaluations','Tests never inspect the state around a rejected step.',
 [M],[('update only if accepted','Optimizer.minimize: if accepted')],['Optimizer.x, fval, grad, hess','calls to the update scheme'])
p('C06','Returned value, point, gradient and Hessian belong together',
 'minimize returns, and stores as current solution, the value and gradient the objective produced in one and the same evaluation, together with the point of that evaluation (up to the tiny inward move of points on a bound); without an update scheme the Hessian is from this evaluation too, with one it is the scheme\'s current matrix. The four results are returned in the order value, point, gradient, Hessian.',
 HI,'all objectives, update schemes and histories','Tests check closeness of results to known optima where all recent evaluations agree to tolerance.',
 [M],[('atomic commit','Optimizer.update and Optimizer.minimize')],['return value of Optimizer.minimize'])
p('C07','The best evaluated point is tracked over all evaluations',
 'fval_min is the smallest finite value over the start point and every trial point of the run that did not abort the run, accepted or not; x_min and grad_min are point and gradient of that very evaluation (up to the tiny inward move of points on a bound). A later evaluation replaces them only if its value is finite and strictly smaller.',
 HI,'all objectives and histories including rejected and failed trial points','Tests use smooth objectives where the final point is almost always the best.',
 [M],[('minimum tracking','Optimizer.track_minimum')],['Optimizer.x_min, fval_min, grad_min'])
p('C08','Non-finite objective output never enters the optimization',
 'A non-finite value, gradient or Hessian at the start point, a finite value with non-finite gradient or Hessian at a trial point, and a non-finite Hessian (approximation) at the beginning of an iteration make minimize raise RuntimeError with exit flag NOT_FINITE before any further evaluation. A trial point with non-finite value is rejected and the trust region shrinks.',
 FS,'all sequences of evaluation failures in any component and at any iteration','The only failing objective in the tests fails at random, so that which component fails when is not controlled, and any RuntimeError satisfies them.',
 [M],[('finiteness checks','Optimizer.check_finite calls; update_tr_radius')],['exceptions and exitflag'])
p('C09','Convergence is reported exactly when a documented test holds',
 'A run stops as converged at the end of an iteration if and only if one of these holds: (FTOL) the ratio exceeds mu and |f_new - f| < fatol + frtol*|f|; (XTOL) iteration > 1 and the scaled step is shorter than xtol; (GTOL) the gradient norm at the point that is kept is <= gatol or <= grtol*|f|, f being the value before the step. The exit flag then names a test that held, and converged is true in no other case.',
 HI,'all objectives, tolerances and histories, including rejected last steps','Tests check the flag only for MAXITER and MAXTIME, never that a convergence claim is true.',
 [M],[('convergence tests','Optimizer.check_convergence')],['Optimizer.exitflag, converged'])
p('C10','Iteration, time and radius limits stop a run, with the right flag',
 'Before each iteration a not converged run stops with flag MAXITER if maxiter iterations were made, MAXTIME if the time left is less than the mean time per iteration so far, DELTA_TOO_SMALL if the trust region radius is below machine precision, and goes on otherwise. Each iteration evaluates the objective exactly once and counts once, so that there are at most maxiter + 1 evaluations.',
 CF,'all objectives, limits and histories','One test checks two flags on one objective; evaluations are never counted.',
 [M],[('loop condition','Optimizer.check_continue')],['number of evaluations, exitflag'])
p('C11','Step computation always terminates',
 'For every input, including objectives, Hessians and radii that overflow or turn to NaN in intermediate quantities, every loop inside the computation of a step (subproblem root finding, conjugate gradients, reflections, truncations), and every other loop of the package except the main iteration over trust region steps, makes a number of passes that is bounded by problem size or a constant, and no recursion is unbounded.',
 I,'all inputs, including NaN and overflow in intermediate results','Tests use well scaled 2-D problems; a hang needs overflow, NaN or a special geometry.',
 [S,B,P],[('counted loops','TRStepSteihaug.conj_grad, stepback_reflect, stepback_truncate, solve_nd_trust_region_subproblem')],['minimize returns'])
p('C12','The trust region radius follows the ratio test',
 'With ratio = (f - f_new - 1/2 s\'diag(dv*|g_new|)s) / (predicted decrease), taken as 0 if the predicted decrease is not positive or f_new is not finite: the radius is multiplied by gamma2 exactly if ratio >= eta and the scaled step s has at least 0.9 times the radius; otherwise it becomes min(gamma1*radius, |s|/4) exactly if ratio <= mu or f_new is not finite; otherwise it keeps its value. It starts each run at delta_init, nothing else changes it, and the radius used for a step is the current one.',
 HI,'all ratios, steps, options and histories','Tests observe only end results; wrong radii slow convergence but the test problems still converge.',
 [M],[('radius update','Optimizer.update_tr_radius')],['Optimizer.delta, delta_iter, history tr_radius'])
p('C13','The best of all required candidate steps is taken',
 'The step taken is one with the smallest predicted model value among all candidates computed in the iteration, the subspace solver\'s own step always being one of them. If that step was cut back at a bound and there is more than one variable, the candidates include the scaled gradient step and what the strategy stands for: reflect_single one reflection, reflect reflections, truncate truncations, mixed both, refine the refined step (if the subspace has more than one dimension). Reflections and truncations are repeated, each continuing the last one, until one is not cut back (or no subspace is left to a truncation) or there are as many as variables; the solver chosen by the subspace option computes the first one.',
 CF,'all solvers and strategies and all inputs where steps hit bounds','Tests do not look at candidates; any descending step makes them pass.',
 [T,B],[('candidate list and argmin','trust_region()')],['trust_region() result'])
p('C14','Predicted decrease belongs to the step that is taken',
 'For every candidate, the model value used for choosing and for the ratio test is 1/2 d\'Bd + g\'d with scaled gradient g = D*grad and scaled Hessian B = D*hess*D + diag(|grad|*dv), D the scaling matrix, at the total scaled displacement d of all segments after step back. Scaled and unscaled form of every segment correspond through D, so that the trial point is x + D*d.',
 CF,'all solvers, strategies and inputs, notably steps cut back, reflected or truncated at bounds','A model value for another step than the one taken only degrades the ratio test, which no test observes.',
 [S,T],[('parallel update of s/ss and s0/ss0; qpval after step back','Step.calculate, step_back, TRStepReflected, TRStepTruncated, CGStep, RefinedStep')],['Step.qpval, s, s0, ss, ss0'])
p('C15','Subproblem solutions stay within the trust region',
 'The n-dimensional solver (symmetric B) returns only steps no longer than the radius up to 1e-6, and its interior solution -B^-1 g only if all eigenvalues are positive and it is that short; a zero radius gives the zero step; such an interior solution is returned as it is, and other steps solve (B + mI)s = -g for the multiplier m found, up to the rescaling of steps that are too long and a step in the null space in the hard case. The 1-dimensional solver returns the unconstrained minimizer along the line only if the curvature is positive and the total step fits into the radius, otherwise the better of the two points where the line meets the sphere of this radius. Step computation hands the first one what earlier segments of length p leave of the current radius, (max(radius^2 - p^2, 0))^(1/2), and the second one the radius and the earlier segments; iterates of conjugate gradients that are returned without such a solve are within the radius.',
 I,'all symmetric B, gradients, radii, directions and offsets','Tests solve a handful of 3-D diagonal problems.',
 [P,S],[('norm guards on returns','solve_nd_trust_region_subproblem'),('boundary roots','solve_1d_trust_region_subproblem, get_1d_trust_region_boundary_solution')],['solver results'])
p('C16','Each step is computed from current data with Coleman-Li scaling',
 'The subproblem of an iteration is posed at the current point with the current gradient, Hessian (approximation), radius and bounds. The scaling is D = diag(|v|^(1/2)) with v_i = x_i - ub_i if g_i < 0 and ub_i is finite, v_i = x_i - lb_i if g_i >= 0 and lb_i is finite, and |v_i| = 1 otherwise; its derivative dv_i is 1 in the first two cases and 0 otherwise.',
 HI,'all points, gradient signs (zero included) and mixes of finite and infinite bounds','Tests use either all finite or all infinite bounds.',
 [M],[('affine scaling','Optimizer.get_affine_scaling; call of trust_region')],['arguments of the step computation'])
p('C17','Hessian updates satisfy their secant equation',
 'For every step s and gradient difference y for which the update is not skipped, BFGS, DFP, Broyden, SR1, BG and BB yield a matrix with B_new s = y, and the structured schemes SSM, TSSM and (in its structured branch) GNSBFGS one with B_new s = C s + yb, C the Gauss-Newton matrix and yb the structured difference. BFGS, DFP and Broyden(phi) are the members phi = 0, phi = 1 and phi of the Broyden class. After every update, also a skipped one, the matrix of SSM is C + A, that of TSSM C + |r| A, and that of GNSBFGS C + A if yb\'s / s\'s exceeds hybrid_tol and C + |r| I otherwise, A being the structured part and r the residuals.',
 I,'all matrices, steps and gradient differences','Tests only check that optimizations with each scheme converge on one objective, where even the identity works.',
 [H],[('update formulas','broyden_class_update and _compute_update/update of the schemes')],['get_mat() after update()'])
p('C18','Symmetric update schemes keep the approximation symmetric',
 'If the initial matrix (and each matrix supplied by the objective) is symmetric, the matrix of BFGS, DFP, Broyden, SR1, SSM, TSSM, GNSBFGS, and of the hybrid schemes with such a scheme inside, is symmetric after any number of updates, in exact arithmetic. The Hessian of a residual objective, as computed from the residual derivative, is symmetric too.',
 HI,'all update histories','No test looks at the matrices.',
 [H,M],[('symmetric rank one/two terms','broyden_class_update, SR1._compute_update, structured updates')],['get_mat()'])
p('C19','Updates that would lose positive curvature are skipped',
 'With curvature enforcement (the default), an update of BFGS, DFP, Broyden, SSM, TSSM or GNSBFGS whose y\'s (with the scheme\'s own y) is not positive leaves the iteratively updated matrix unchanged, BB is left unchanged if its denominator is not positive, and SR1 is unchanged if |(y-Bs)\'s| < 1e-8 |s| |y-Bs| approximately. The enforcement setting given to a scheme reaches its update; without enforcement only the denominator itself limits the update.',
 I,'all steps and gradient differences, all schemes and enforcement settings','Convergence tests on convex-ish regions rarely produce negative curvature and do not look at the matrix.',
 [H],[('curvature condition','broyden_class_update enforce_curv_cond; SR1/BB guards')],['get_mat() before and after update()'])
p('C20','Reported Hessian changes equal the actual changes',
 'After every update, for every scheme, get_diff() equals get_mat() minus its value before the update, and for structured schemes get_structured_diff() equals the change of the structured part. In particular an update that is reported is applied.',
 I,'all schemes and updates, all branches','Reported updates only feed history statistics that no test reads.',
 [H],[('difference book-keeping','_apply_update, _update_hess_and_store_diff, structured updates')],['get_mat(), get_diff(), get_structured_diff()'])
p('C21','Hybrid schemes switch as documented and never back',
 'HybridFixed and HybridFraction use the supplied Hessian until they switch and the iterative approximation, which is updated with every step from the beginning, from the next update on; once switched they stay switched for the rest of the run. HybridFixed switches when at least switch_iteration iterations passed since the last trust region update; HybridFraction when more than 25 iterations were made and the given share of iterations without trust region update exceeds the threshold. FX uses the supplied matrix, and restarts the iterative scheme from it, if the relative decrease of the squared residual is at least hybrid_tol, and the iterative update otherwise.',
 HI,'all update histories and thresholds','The tests run hybrid schemes on problems that converge either way.',
 [H],[('switching','HybridSwitchApproximation, HybridFixed.update, HybridFraction.update, FX.update')],['get_mat()'])
p('C22','Update schemes get the data of the accepted step',
 'With each accepted step, and only then, the Hessian scheme gets exactly one update, with s the displacement between the iterates, y the difference of their gradients, the new Hessian and residual, the previous residual where used, and as structured difference (J_new - J)\'r_new, scaled by |r_new|/|r| for TSSM and GNSBFGS, or for FX gamma = H_new s + (J_new - J)\'r_new. The iterations then use the updated matrix, and the counters for hybrid schemes are the iterations since the last radius change, the iterations with ratio strictly between mu and eta, and the iteration number.',
 HI,'all schemes and histories, rejected steps in between included','Schemes that get slightly wrong data still converge on the test problems.',
 [M],[('dispatch','Optimizer.update')],['arguments of update()'])
p('C23','Invalid options are rejected at construction, valid ones accepted',
 'For every option and every way of naming it (enum member or its string), the constructor accepts values of the documented kind (numbers, Python or numpy scalars; integer-valued numbers for maxiter; members or their strings for solver and strategy; string or path for the history file) and rejects others: unknown names and unknown solver or strategy values with ValueError, values of wrong type with TypeError.',
 ['configurations'],'all option names in both forms and all kinds of values','One test tries four combinations.',
 [K,M],[('validation','validate_options, called in Optimizer.__init__')],['Optimizer constructor'])
p('C24','Every option takes effect and has its documented default',
 'For each documented option the value given by the user, under the enum member or its string, is the one that governs the behaviour the option documents, and the default is used exactly if the user gave none: maxiter 1000, maxtime inf, fatol = frtol = 1e-8, xtol = 0, gatol = 1e-6, grtol = 0, 2D solver, reflect strategy, theta_max 0.95, delta_init 1, mu 0.25, eta 0.75, gamma1 0.25, gamma2 2, no history file.',
 ['configurations'],'all options, values and combinations','Tests set six options and observe the effect of three.',
 [K,M],[('lookup with default','Optimizer.get_option, DEFAULT_OPTIONS')],['behaviour of minimize'])
p('C25','Unsuitable objectives and incompatible settings raise ValueError early',
 'An objective that does not return a tuple of the number of values its update scheme and resfun flag call for raises ValueError at that evaluation; at the start point a value (number or array) that is no scalar, a gradient that is no vector of the length of x or a Hessian that is no square matrix of this size raises ValueError before any trial point is evaluated, and so do x0 that is not a vector and an initial Hessian of wrong shape. Combining scg with refine, or resfun with a scheme that does not expect it or vice versa, raises ValueError at construction.',
 CF,'all shapes of outputs, schemes, and combinations of settings','Tests try six shapes and a few schemes.',
 [M,H],[('checks','FunEvaluator.__call__, Funout.checkdims, Optimizer.__init__, HessianApproximation._init_mat')],['exceptions'])
p('C26','Runs do not depend on earlier runs',
 'What minimize evaluates and returns depends only on the constructor arguments, current options and arguments of this call, not on earlier runs of the same optimizer or of the same Hessian scheme object. Exit flag, converged, iteration count, history, start id and best point describe the latest run only, even if it fails in its first evaluation.',
 ['histories'],'all sequences of runs on one optimizer and scheme object','Tests reuse optimizers but only check final tolerances.',
 [M,H],[('reset','Optimizer._reset, HessianApproximation._init_mat')],['results of repeated runs'])
p('C27','Arrays of caller and optimizer are isolated from each other',
 'Arrays passed in (x0, lb, ub, hess0, matrices and vectors passed to update schemes) are never modified, and modifying them, the arrays handed to or returned by the objective, or the matrices obtained from a scheme\'s getters has no effect on the optimizer or scheme.',
 HI,'all objectives that modify or reuse arrays, all callers','No test modifies an array it passed or got.',
 [M,H],[('copies','FunEvaluator.__call__, Optimizer.__init__/minimize, getters and setters of schemes')],['later results after modifying arrays'])
p('C28','Runs are deterministic up to the time limit',
 'Two runs with the same inputs evaluate the same points in the same order and return the same results: no random numbers, wall clock (except for the maxtime stop), process or interpreter state (hash or set order, object ids, environment) influence them.',
 HI,'all inputs, repeated in any process','A test would have to compare runs across processes and times; none does.',
 [M,T,S,B,P,H],[('pure computation','the whole step computation')],['evaluated points and results'])
p('C29','Optimizers share no mutable state; each run has its own logger',
 'Optimizer and scheme objects do not influence each other: constructing, configuring or running one never changes module level or class level data or objects owned by another, defaults included, so independent optimizers can run in different threads. Each run gets a logger whose name no other run in the process has, also if runs start concurrently.',
 ['schedules','histories'],'all interleavings of runs of different optimizers','Tests run one optimizer at a time.',
 [L,M,H,K],[('logger counter under lock','create_logger')],['logger names, other optimizers'])
p('C30','Exceptions of the objective reach the caller unchanged',
 'An exception raised by the objective, at the start or at any trial point, ends the run and reaches the caller of minimize as it is: it is neither swallowed, replaced nor retried, and the bounds and finiteness errors of the optimizer are not swallowed either.',
 ['fault_sequences'],'all exceptions at all evaluations','No test has an objective that raises.',
 [M],[('no handlers around evaluations','FunEvaluator.__call__ and callers')],['exception seen by the caller'])
p('C31','History has one complete row per iteration of each run',
 'If a history file is set, every run that returns appends to that file one group, named by its start id, in which every quantity has exactly one entry per iteration, in order, accepted or not; earlier groups are kept. Entries for fval, tr_ratio, tr_radius and accept are the trial value, its ratio, the radius the step was computed with and whether it was accepted. normstep, theta, alpha, reflections, truncations, step_type, subspace_dim and cond_shess describe the step that was tried, normgrad, hess_min_ev, hess_max_ev and cond_hess the gradient and Hessian (approximation) that are kept afterwards, hess_update_*_ev and hess_struct_update_*_ev the change made to the approximation (0 for rejected steps, NaN without scheme or structure).',
 HI,'all objectives, schemes and histories','One test counts groups for one scheme.',
 [M],[('tracking','Optimizer.track_history and end of minimize')],['history file'])
p('C32','Residual objectives are treated as half the squared residual norm',
 'With resfun, value, gradient and Hessian used for a point are 1/2 r\'r, J\'r and J\'J with r and J from one evaluation at this point; otherwise they are the values the objective returned, in the order value, gradient, Hessian. The objective gets the point and exactly the extra keyword arguments given at construction.',
 I,'all objectives of each kind','Tests use one residual objective and check end points only.',
 [M],[('evaluation','FunEvaluator.__call__')],['values used by the optimizer'])
p('C33','The approximation starts from the matrix asked for',
 "With an update scheme, the Hessian at the start of the first iteration is exactly the matrix given as hess0, the objective's Hessian at the start point if hess0 is 'hess' (and the objective supplies one), and the identity of the size of x0 if no hess0 is given, whatever earlier runs left behind; the iterative scheme inside a hybrid one starts from the same matrix, and no change is reported before the first update. set_mat() of every scheme makes exactly the given matrix the current approximation. A matrix that is not square of the size of the problem raises ValueError in both places and is not used; one of integers works like the same matrix of floats. The structured part of SSM, TSSM and GNSBFGS starts from a positive multiple of the identity.",
 HI,'all schemes, initial matrices of any shape and histories','Tests start from the identity or a Hessian on problems that converge from any start.',
 [H,M],[('initialisation','HessianApproximation._init_mat, HybridApproximation._init_mat, called in Optimizer.minimize'),('assignment','set_mat')],['get_mat() after _init_mat() and set_mat()','Optimizer.hess'])
p('C34','Update schemes have their documented default parameters',
 'Leaving out a parameter of an update scheme is the same as passing its documented default: curvature enforcement on (BFGS, DFP, Broyden, SSM, TSSM, GNSBFGS), phi = 0 (SSM, TSSM), hybrid_tol = 1e-6 for GNSBFGS and 0.2 for FX, switch_iteration = 20 for HybridFixed, switch_threshold = 0.8 for HybridFraction, and a BFGS scheme of its own as iterative scheme of each hybrid. phi outside of [0, 1], and no other value, causes a warning.',
 I,'all schemes and subsets of parameters that are left out, for all later updates','Changed defaults change the iterates but not the solutions the tests look for.',
 [H],[('constructors','__init__ of all schemes')],['get_mat() after update()'])
p('C35','Each subspace solver searches the directions documented for it',
 'The full solver searches the whole space. The 2D solver searches an orthonormal basis of the Newton step and the scaled gradient if the scaled Hessian is positive semidefinite (the Newton step alone if it is shorter than the radius or parallel to the gradient), and otherwise of the eigenvector of the smallest eigenvalue and the scaled signs of the gradient; with a single variable any direction that is finite for every Hessian. Gradient steps search the scaled gradient, reflected steps the reflected step with exactly the variables at the breakpoint reversed, truncated steps the directions of the step they continue without exactly the variables at the bound. Steihaug steps follow the conjugate gradient recurrences from 0 until the residual norm is below min(0.5, sqrt(|sg|)) |sg|, or up to the radius at a direction of non-positive curvature or when an iterate would leave it. Refined steps minimize the model of the step they refine, over its directions, within the radius and theta times the way to the bounds, starting from that step.',
 I,'all gradients, Hessians, scalings, radii and steps that are continued','Other directions of descent lead to the same solutions, only slower or not from all starts; each case of the definition needs its own Hessian, radius and bounds to be entered.',
 [S],[('directions','constructors of the Step classes'),('conjugate gradients','TRStepSteihaug.conj_grad'),('refinement','RefinedStep.calculate')],['Step.subspace','returned step'])
# not decided statically
p('C40','Runs converge to points satisfying first order conditions',
 'For smooth objectives with bounded second derivatives and enough iterations, the scaled gradient at the returned point tends to zero.',
 I,'all smooth objectives','Asymptotic statement over all objectives.',[M,T],[('trust region theory','whole algorithm')])
p('C41','Subproblem solutions are global minimizers of the model',
 'The n-dimensional solver returns, up to rounding, the global minimizer of the quadratic model within the radius, for every symmetric B including the hard case.',
 I,'all symmetric matrices and gradients','Tests sample diagonal 3-D problems.',[P],[('secular equation','solve_nd_trust_region_subproblem')])
p('C42','Trial points are feasible in floating point arithmetic',
 'Every point at which the objective is evaluated lies within the bounds and has no NaN, in floating point arithmetic.',
 I,'all states and rounding errors','Needs rare roundings or overflow.',[S,M],[('step back and final check','Step.step_back')])
p('C43','Approximations stay positive definite in floating point arithmetic',
 'BFGS, DFP and Broyden with phi in [0,1] keep a positive definite matrix numerically positive definite under curvature enforcement.',
 HI,'all update histories','Rounding dependent.',[H],[('curvature condition','broyden_class_update')])
p('C44','The time limit is honoured in wall-clock time',
 'A run ends before maxtime seconds have passed, up to one evaluation longer than average.',
 ['inputs','schedules'],'all evaluation times','Depends on run times.',[M],[('time check','Optimizer.check_continue')])
p('C45','A crash while writing leaves earlier history groups readable',
 'If the process dies while a run is appended to the history file, groups of earlier runs stay readable.',
 ['crash_points'],'all crash points during the write','Tests never crash.',[M],[('h5py append','end of Optimizer.minimize')])
with open('/verif/properties.jsonl','w') as f:
    for r in R: f.write(json.dumps(r)+'\n')
for r in R: assert len(r['title'])<=80
print(len(R))
