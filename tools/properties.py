#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for ids, titles and statements)."""
import json, os
I = "include/boost/numeric/odeint/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[I+f for f in files],
                     mechanism=[dict(name=n, where=I+w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

p("C01", "integrate_const observes exactly the equidistant grid with the matching states",
  "For every stepper kind, step size of either sign and interval, integrate_const with an observer calls it exactly at start, start+dt, start+2dt, ... up to the last such point that does not pass the end (and once at the start if the interval is empty), each time with the approximation of the solution belonging to that time, and the grid does not drift by accumulated rounding. Steps are contiguous and in the direction of dt; plain steppers step by exactly dt, controlled steppers are made to land on every grid point, dense-output steppers interpolate without stepping past the end, and the returned number is the number of steps performed. The caller's state ends as the approximation at the last grid point, and steps, return value and final state are the same when no observer is supplied.",
  ["inputs", "histories"], "all stepper categories x both directions x all interval/step-size ratios x all accept/reject and step-size behaviours of the stepper",
  "The tests integrate a few fixed intervals with one or two steppers and mostly compare observation counts; rejection patterns, direction and divisibility are sampled at a handful of points.",
  ["integrate/integrate_const.hpp","integrate/detail/integrate_const.hpp","util/detail/less_with_sign.hpp"],
  [("per-category observation loops","integrate/detail/integrate_const.hpp"),("sign-aware time comparison","util/detail/less_with_sign.hpp")],
  ["observer calls","stepper calls made by the integrate function","return value","caller's state"])

p("C02", "integrate_n_steps observes n+1 grid points and ends exactly at start+n*dt",
  "For every stepper kind, step sign and n >= 0, integrate_n_steps calls the observer exactly n+1 times, at start+k*dt for k = 0..n without accumulated drift, each time with the approximation belonging to that time, and returns start+n*dt. The caller's state is left at the approximation for start+n*dt, and that value does not depend on whether an observer was supplied. Adaptive and dense-output steppers never evaluate a step that goes beyond start+n*dt.",
  ["inputs", "histories"], "all stepper categories x both directions x all n x all step-size behaviours of the stepper",
  "Tests use one n and forward integration; the final state for dense-output steppers and backward integration are never compared.",
  ["integrate/integrate_n_steps.hpp","integrate/detail/integrate_n_steps.hpp"],
  [("per-category loops","integrate/detail/integrate_n_steps.hpp")],
  ["observer calls","stepper calls","return value","caller's state"])

p("C03", "integrate_adaptive covers the interval contiguously and ends exactly at the end",
  "For every stepper kind and direction, integrate_adaptive observes the start and then the state after every accepted step, each step starting where the previous one ended, never goes beyond the end time, and finishes exactly at the end time with the caller's state equal to the last observed state. Rejected attempts are retried with the proposed smaller step and are neither observed nor counted; the returned number is the number of accepted steps. The final step is shortened to hit the end, and if the interval is empty the only observation is the start and the state is unchanged.",
  ["inputs", "histories"], "all stepper categories x both directions x all accept/reject/step-size histories",
  "Every accept/reject history matters; tests only run a few smooth problems whose histories are almost all accepts.",
  ["integrate/integrate_adaptive.hpp","integrate/detail/integrate_adaptive.hpp","integrate/integrate.hpp"],
  [("adaptive loops","integrate/detail/integrate_adaptive.hpp")],
  ["observer calls","stepper calls","return value","caller's state"])

p("C04", "integrate_times observes each requested time once, in order, with its state",
  "For every stepper kind, direction and ordered (possibly repeating) sequence of time points, integrate_times calls the observer exactly once per point, in order, at that point and with the approximation belonging to it, and ends at the last point, which is never stepped past. Plain and controlled steppers shorten a step to hit a point but afterwards continue with the full step size (the given one, or the one proposed by the step-size control); dense-output steppers interpolate. Iterator-pair and range calls agree, the caller's state ends at the last point, and the number of steps performed is returned.",
  ["inputs", "histories"], "all stepper categories x both directions x all ordered time sequences x all accept/reject histories",
  "Tests use regular increasing sequences and never look at which steps were taken between them.",
  ["integrate/integrate_times.hpp","integrate/detail/integrate_times.hpp","util/detail/less_with_sign.hpp"],
  [("per-category loops","integrate/detail/integrate_times.hpp"),("min_abs/max_abs","util/detail/less_with_sign.hpp")],
  ["observer calls","stepper calls","return value","caller's state"])

p("C05", "Integration without progress is stopped by an exception, and only then",
  "When a stepper keeps rejecting, every adaptive driver (integrate functions, dense-output steps, iterators) gives up with an exception after a bounded number of consecutive rejections (about 500, about 1000 for iterators) and never loops forever, whereas rejections separated by an accepted step never add up. When a maximum-steps checker is supplied, the integrate functions throw a no-progress error once more steps than its limit are performed between two observer calls (checkers count from zero again after each observation) and otherwise behave exactly as without the checker.",
  ["fault_sequences", "histories"], "all patterns of accepted and rejected steps, all checker limits, all integrate functions and stepper categories",
  "Tests provoke one overflow per function with one limit; resets between observations and off-by-some drift of the counters need long histories.",
  ["integrate/max_step_checker.hpp","integrate/check_adapter.hpp","integrate/detail/integrate_adaptive.hpp","integrate/detail/integrate_times.hpp","stepper/dense_output_runge_kutta.hpp","iterator/impl/adaptive_iterator_impl.hpp"],
  [("failed_step_checker","integrate/max_step_checker.hpp"),("checked_stepper/checked_observer","integrate/check_adapter.hpp")],
  ["thrown exceptions","number of step attempts and observer calls before the throw"])

p("C06", "Iterators visit the same points as the integrate functions",
  "Traversing a const-step, n-step, adaptive or times iterator range (state-only or state-and-time, as iterator pair or range, for every supported stepper kind and either direction) yields, for the same arguments, the same sequence of times that an observer of the corresponding integrate function sees, each with the state belonging to that time (the very state of the integrate function for plain steppers, adaptive ranges and dense-output steppers traversed step by step). The traversal then compares equal to the end iterator exactly once past the last point, an interval whose end lies before its start yields an end iterator at once, and dereferencing never advances the integration. Stepper arguments passed by reference are advanced in place while those passed by value are left untouched.",
  ["inputs", "histories"], "all four iterator families x stepper categories x directions x interval shapes",
  "Tests compare a few hand-written points; equality with the integrate functions over all interval shapes is not tested.",
  ["iterator/detail/ode_iterator_base.hpp","iterator/impl/adaptive_iterator_impl.hpp","iterator/impl/const_step_iterator_impl.hpp","iterator/impl/n_step_iterator_impl.hpp","iterator/impl/times_iterator_impl.hpp","iterator/const_step_iterator.hpp"],
  [("increment()","iterator/impl/const_step_iterator_impl.hpp"),("equal/dereference","iterator/detail/ode_iterator_base.hpp")],
  ["dereferenced (state,time) pairs","stepper calls","iterator equality"])

p("C07", "A controlled step is atomic: rejected changes nothing, accepted advances fully",
  "Whenever any controlled stepper rejects a step, the caller's state and time are exactly what they were and the proposed step size has the same sign and is strictly smaller in magnitude (by a bounded factor); when it accepts, time advances by exactly the attempted step and the state is exactly what the underlying stepper produces for that step, independent of earlier rejections, and the proposed next step is not smaller than allowed nor grown beyond the allowed factor. The in-place and out-of-place call forms, with or without supplied derivative, agree, and the out-of-place forms never modify their input. A configured maximum step size (given with the sign of the direction of integration; the PID controller takes its magnitude) is never exceeded by an attempted step: a larger request is refused and replaced by the maximum without evaluating the step.",
  ["histories", "inputs"], "all sequences of accepts and rejects, all call forms, both directions, with and without maximum step size, all controlled steppers",
  "The tests look at isolated try_step calls; interleavings of rejections, acceptances, call forms and directions are not enumerated.",
  ["stepper/controlled_runge_kutta.hpp","stepper/rosenbrock4_controller.hpp","stepper/bulirsch_stoer.hpp","stepper/controlled_adams_bashforth_moulton.hpp"],
  [("try_step overloads","stepper/controlled_runge_kutta.hpp"),("try_step","stepper/rosenbrock4_controller.hpp")],
  ["result, state, time and dt after every try_step call","arguments seen by the error checker and the step adjuster","rhs evaluations"])

p("C08", "The error measure and step-size law are the documented ones",
  "A step is accepted exactly when the largest component of |error| / (eps_abs + eps_rel*(a_x*|x| + a_dxdt*|dt|*|x'|)) does not exceed one, whatever component it is in and whatever the dimension. After a rejection the step is multiplied by max(0.9*err^(-1/(error_order-1)), 1/5); after acceptance with err < 1/2 it is multiplied by 0.9*max(err,5^-order)^(-1/stepper_order), and otherwise left alone, always limited by the configured maximum. The multistep (PID, with the coefficient table of the library) and Rosenbrock controllers follow their laws with the same kind of bounds, keep the sign of the step, and produce step sizes that depend only on the errors and steps seen.",
  ["inputs", "histories"], "all error magnitudes, dimensions, orders, directions, tolerances and maximum steps",
  "Tests check one or two numeric values of the adjuster.",
  ["stepper/controlled_runge_kutta.hpp","stepper/rosenbrock4_controller.hpp","stepper/detail/pid_step_adjuster.hpp","stepper/detail/pid_step_adjuster_coefficients.hpp","algebra/default_operations.hpp"],
  [("default_error_checker, default_step_adjuster","stepper/controlled_runge_kutta.hpp"),("error, try_step","stepper/rosenbrock4_controller.hpp"),("adjust_stepsize","stepper/detail/pid_step_adjuster.hpp")],
  ["accept/reject decision and new dt for chosen error vectors"])

p("C09", "Carried-over derivatives always belong to the current state",
  "In every method that reuses the derivative at the end of one step at the start of the next, the derivative used at the start of a step equals the system function evaluated at the state and time at which that step starts, for every history of steps, rejections, call forms, resets, re-initialisations and changes of dimension made through the documented interface. It is obtained with the documented economy: no evaluation is repeated at the start of a step that directly follows an accepted step.",
  ["histories"], "all interleavings of accepted/rejected steps, overloads, initialize/reset calls and size changes",
  "Whether a stale derivative is used depends on the call history; tests use one call form per object.",
  ["stepper/base/explicit_error_stepper_fsal_base.hpp","stepper/controlled_runge_kutta.hpp","stepper/dense_output_runge_kutta.hpp","stepper/velocity_verlet.hpp"],
  [("m_first_call / initialize / reset","stepper/base/explicit_error_stepper_fsal_base.hpp"),("FSAL try_step","stepper/controlled_runge_kutta.hpp"),("current/old derivative toggling","stepper/dense_output_runge_kutta.hpp")],
  ["arguments of every system-function call","step results"])

p("C10", "Explicit one-step methods compute their published scheme in every call form",
  "For every right-hand side, state, time and step size (of either sign), each explicit Runge-Kutta stepper evaluates the system at exactly its published stage times and stage states and returns exactly the published combination of stage derivatives, and its error estimate is exactly the published difference formula. All call forms (in place or out of place, with or without supplied derivative, with or without error estimate) give the same result; out-of-place calls do not modify the input and aliasing of input and output is harmless. User-supplied tableaux (generic Runge-Kutta) are obeyed coefficient by coefficient.",
  ["inputs", "programs"], "all right-hand sides (autonomous or not), states, times, steps, dimensions and call forms",
  "Tests check one scalar or Lorenz step against a tolerance that hides small or rarely weighted coefficient errors and look at one call form each.",
  ["stepper/euler.hpp","stepper/runge_kutta4.hpp","stepper/runge_kutta4_classic.hpp","stepper/runge_kutta_cash_karp54.hpp","stepper/runge_kutta_cash_karp54_classic.hpp","stepper/runge_kutta_dopri5.hpp","stepper/runge_kutta_fehlberg78.hpp","stepper/explicit_generic_rk.hpp","stepper/explicit_error_generic_rk.hpp","stepper/detail/generic_rk_algorithm.hpp","stepper/base/explicit_stepper_base.hpp","stepper/base/explicit_error_stepper_base.hpp","stepper/base/explicit_error_stepper_fsal_base.hpp","stepper/modified_midpoint.hpp"],
  [("do_step_impl","stepper/runge_kutta_dopri5.hpp"),("generic stage loop","stepper/detail/generic_rk_algorithm.hpp"),("do_step overload families","stepper/base/explicit_error_stepper_base.hpp")],
  ["every system-function call (arguments)","step result and error estimate"])

p("C11", "Steppers have the order they advertise",
  "Every explicit Runge-Kutta stepper satisfies all rooted-tree order conditions up to its advertised order, and its embedded error estimate is the difference to a companion solution satisfying all conditions up to its advertised error order. The same holds along every supported way of obtaining higher order: multistep methods integrate polynomials up to their step count exactly, the variable-step Adams method does so for every sequence of step sizes, one degree higher, with the error estimate making up the difference, extrapolation methods of advertised order 2k satisfy the conditions up to 2k, and the advertised order numbers are the published ones.",
  ["inputs", "configurations"], "all smooth right-hand sides (via order conditions) x all methods x all template orders",
  "Convergence tests can only sample problems and step sizes; a weakened order on some elementary differential stays invisible.",
  ["stepper/runge_kutta_dopri5.hpp","stepper/runge_kutta_fehlberg78.hpp","stepper/runge_kutta_cash_karp54.hpp","stepper/runge_kutta4.hpp","stepper/extrapolation_stepper.hpp","stepper/detail/adams_bashforth_coefficients.hpp","stepper/detail/adams_moulton_coefficients.hpp","stepper/adaptive_adams_bashforth_moulton.hpp"],
  [("coefficients","stepper/runge_kutta_fehlberg78.hpp"),("order_value","stepper/base/explicit_error_stepper_base.hpp"),("extrapolation weights","stepper/extrapolation_stepper.hpp")],
  ["step results for probing right-hand sides","order()/stepper_order()/error_order()"])

p("C12", "Dense-output Runge-Kutta steppers track one trajectory and interpolate it",
  "After initialize, every step starts at the current time and state and ends at the new current time and state, which become the previous ones at the next step; the returned pair is that interval, the states equal those of stepping the underlying method directly, and re-initialisation at the current point continues identically except for the new step size. Evaluating the interpolant changes nothing, reproduces the previous and current state at the interval's ends, and inside is the published continuous extension of the method (Dormand-Prince, or the method's own), for every point, dimension and direction. Rejections inside a step are invisible except for the step size.",
  ["histories", "inputs"], "all histories of initialize, do_step, calc_state in any order and direction, with all accept/reject patterns",
  "Tests compare a few points of one trajectory; swapping of buffers over histories and re-initialisation is not enumerated.",
  ["stepper/dense_output_runge_kutta.hpp","stepper/runge_kutta_dopri5.hpp","stepper/euler.hpp"],
  [("toggle of current/old state","stepper/dense_output_runge_kutta.hpp"),("calc_state","stepper/runge_kutta_dopri5.hpp")],
  ["current/previous state and time, step size, interpolated states, system-function calls"])

p("C13", "Adams-Bashforth uses the exact k-step formula on the true derivative history",
  "After construction, reset, or a change of dimension handled by its resizing policy, an Adams-Bashforth stepper of k steps performs k-1 steps with its starting method and from then on every step adds exactly dt times the published k-step combination of the derivatives at the last k step starts, newest first, for all k from 1 to 8 and arbitrarily many steps. Explicit initialisation performs exactly the k-1 starting steps and advances the given time and state accordingly. In-place and out-of-place steps agree, and each regular step evaluates the system exactly once.",
  ["histories", "configurations"], "all k, all lengths of history, all positions of reset/initialize/size change",
  "Tests run a handful of steps with few k; wrap-around of the history after reset or resize is not covered.",
  ["stepper/adams_bashforth.hpp","stepper/detail/adams_bashforth_coefficients.hpp","stepper/detail/adams_bashforth_call_algebra.hpp","stepper/detail/rotating_buffer.hpp"],
  [("do_step_impl","stepper/adams_bashforth.hpp"),("rotating buffer","stepper/detail/rotating_buffer.hpp"),("coefficients","stepper/detail/adams_bashforth_coefficients.hpp")],
  ["system-function calls","step results"])

p("C14", "Adams-Bashforth-Moulton is the exact predict-evaluate-correct scheme",
  "Once started, every Adams-Bashforth-Moulton step of k steps predicts with the k-step Adams-Bashforth formula, evaluates the system at the prediction and the end time, and returns exactly the published k-step Adams-Moulton combination of that and the stored derivatives, for all k from 1 to 8 and any history. Start-up, initialisation and size changes behave as for Adams-Bashforth with the starting method's steps uncorrected. The stand-alone Adams-Moulton corrector applies exactly its published combination.",
  ["histories", "configurations"], "all k, all lengths of history, all positions of initialize and size change, in place and out of place",
  "Tests run few steps with few k and compare with loose tolerances.",
  ["stepper/adams_bashforth_moulton.hpp","stepper/adams_moulton.hpp","stepper/detail/adams_moulton_coefficients.hpp","stepper/detail/adams_moulton_call_algebra.hpp"],
  [("do_step_impl","stepper/adams_bashforth_moulton.hpp"),("coefficients","stepper/detail/adams_moulton_coefficients.hpp")],
  ["system-function calls","step results"])

p("C15", "Variable-step Adams integrates polynomials exactly and adapts order in bounds",
  "The adaptive Adams-Bashforth-Moulton stepper, after any history of accepted steps of any (non-constant) sizes, uses an order between 1 and its maximum that grows by at most one per step, and integrates exactly every right-hand side that is a polynomial in time of degree up to its current order. The error estimate is the difference of corrected and predicted value. Its controlled version hands true estimates for the neighbouring orders to the order choice, changes order by at most one per accepted step within the allowed range (down only for a smaller, up only for a clearly smaller estimate), leaves state, time and history untouched on rejection so that a repeated attempt equals a first attempt, and advances fully on acceptance. Every starting procedure records derivatives at the times they belong to, and resetting discards the history and returns to order one.",
  ["histories", "configurations"], "all step-size histories, maximum orders, rejection patterns and resets",
  "Tests check convergence rates on one problem with constant steps; step-ratio histories and rejections are not enumerated.",
  ["stepper/adaptive_adams_bashforth_moulton.hpp","stepper/controlled_adams_bashforth_moulton.hpp","stepper/detail/adaptive_adams_coefficients.hpp","stepper/detail/pid_step_adjuster.hpp"],
  [("predict/step/confirm","stepper/detail/adaptive_adams_coefficients.hpp"),("order adjuster","stepper/controlled_adams_bashforth_moulton.hpp")],
  ["system-function calls","step results","order"])

p("C16", "Bulirsch-Stoer steps are the exact extrapolation and control stays in bounds",
  "Every accepted step of the Bulirsch-Stoer stepper returns exactly the polynomial extrapolation to zero of midpoint-rule results over the full step with the published subdivision sequence, and it is accepted only when the scaled difference of the last two extrapolations is below one. Every history of accepts, rejects, resets, copies and maximum step (given with the sign of the direction) keeps the number of stages within the permitted range; a rejection leaves state and time untouched and shrinks the step, no step grows right after a rejection, and a maximum step size is respected. The choice of order and step depends only on the errors seen since the last reset (or change of step size or dimension), and is the same in either direction of time.",
  ["histories", "inputs"], "all right-hand sides, histories of accept/reject, tolerances, directions and maximum steps",
  "Tests integrate a few smooth problems; the order control is never observed.",
  ["stepper/bulirsch_stoer.hpp","stepper/modified_midpoint.hpp"],
  [("try_step","stepper/bulirsch_stoer.hpp"),("extrapolate","stepper/bulirsch_stoer.hpp")],
  ["system-function calls grouped into midpoint evaluations","result, state, time, dt"])

p("C17", "Bulirsch-Stoer dense output tracks one trajectory and interpolates its nodes",
  "After initialize, each step of the dense-output Bulirsch-Stoer stepper advances contiguously in the direction of the step (including backward), reports that interval, exposes matching current and previous states, and gives up with an exception instead of looping if no step can be accepted. The interpolant is built from the stages of the accepted attempt only; it reproduces states and derivatives at the ends of the interval to the accuracy of the step (exactly for every polynomial solution the accepted stages can resolve), and evaluating it changes nothing. The choice of order and step depends only on the errors seen since initialize and is the same in either direction of time.",
  ["histories", "inputs"], "all histories of initialize/do_step/calc_state, directions and reject patterns",
  "Tests compare one forward trajectory at loose tolerance.",
  ["stepper/bulirsch_stoer_dense_out.hpp","stepper/modified_midpoint.hpp"],
  [("try_step / do_step","stepper/bulirsch_stoer_dense_out.hpp"),("prepare_dense_output / do_interpolation","stepper/bulirsch_stoer_dense_out.hpp")],
  ["current/previous state and time","interpolated states","attempted steps"])

p("C18", "Modified midpoint and extrapolation steppers compute the exact scheme",
  "For every substep count the modified-midpoint stepper performs exactly the Gragg recursion (start, leapfrog stages at equidistant times, smoothing at the end) in every call form, and the dense variant additionally records exactly the stage derivatives and midpoint value it promises. The extrapolation stepper of order 2k returns exactly the Aitken-Neville extrapolation of those results for substeps 2,4,...,2k, and its error estimate is the difference to the next lower extrapolation.",
  ["inputs", "configurations"], "all right-hand sides, states, times, step signs, substep counts and orders",
  "Tests sample one problem with tolerance.",
  ["stepper/modified_midpoint.hpp","stepper/extrapolation_stepper.hpp"],
  [("do_step_impl","stepper/modified_midpoint.hpp"),("extrapolation","stepper/extrapolation_stepper.hpp")],
  ["system-function calls","step results and error"])

p("C19", "Rosenbrock stepper, controller and dense output are consistent",
  "Every Rosenbrock step solves exactly its published four-stage (plus embedded) linear systems built from the given Jacobian, time derivative and right-hand side, so it is exact on the published order conditions for autonomous and non-autonomous systems, and its error estimate is the published difference. The controller leaves state and time untouched on rejection, advances fully on acceptance, keeps the step within the documented factors and maximum; the dense-output stepper tracks one contiguous trajectory, reproduces both interval ends and interpolates between them with the published formula without side effects.",
  ["inputs", "histories"], "all systems with Jacobian, states, times, steps, accept/reject histories and dimensions",
  "Tests do one step and one stiff run.",
  ["stepper/rosenbrock4.hpp","stepper/rosenbrock4_controller.hpp","stepper/rosenbrock4_dense_output.hpp"],
  [("do_step, calc_state","stepper/rosenbrock4.hpp"),("try_step","stepper/rosenbrock4_controller.hpp"),("toggling","stepper/rosenbrock4_dense_output.hpp")],
  ["system/Jacobian calls","step results, error, interpolants"])

p("C20", "Implicit Euler solves its implicit equation",
  "For every system with its Jacobian, the implicit Euler stepper returns a state x1 with x1 = x0 + dt*f(x1, t+dt) to within its accuracy parameter whenever the equation is linear or the Newton iteration converges; for linear systems the result is exact after a single Newton correction. The system and Jacobian are evaluated at the end time of the step, and no state of a previous step influences the result.",
  ["inputs", "histories"], "all linear and mildly nonlinear systems, steps, dimensions and consecutive calls",
  "The test performs a single linear step in two dimensions.",
  ["stepper/implicit_euler.hpp"],
  [("do_step (Newton iteration)","stepper/implicit_euler.hpp")],
  ["system/Jacobian calls","residual of the implicit equation"])

p("C21", "Symplectic and Verlet steppers apply their exact kick/drift composition",
  "Every symplectic stepper alternates position updates by the velocity of the current momenta and momentum updates by the force at the just-updated positions with exactly its published coefficients, for separable systems given as a pair or as a single force, with in-place, out-of-place, pair-of-references and separate-argument forms agreeing; as a consequence each step preserves the symplectic form for every linear system and the composition has its published order. Velocity Verlet performs exactly its scheme with the acceleration at the step start belonging to the current positions however it was obtained (first call, reset, initialisation or previous step).",
  ["inputs", "histories"], "all separable systems, states, steps, dimensions, call forms and histories",
  "Tests run a harmonic oscillator with loose tolerance in few call forms.",
  ["stepper/base/symplectic_rkn_stepper_base.hpp","stepper/symplectic_euler.hpp","stepper/symplectic_rkn_sb3a_mclachlan.hpp","stepper/symplectic_rkn_sb3a_m4_mclachlan.hpp","stepper/velocity_verlet.hpp"],
  [("do_step_impl","stepper/base/symplectic_rkn_stepper_base.hpp"),("coefficients","stepper/symplectic_rkn_sb3a_mclachlan.hpp"),("do_step","stepper/velocity_verlet.hpp")],
  ["system-function calls","step results"])

p("C22", "Dimension changes never leave stale or mis-sized temporaries",
  "A stepper with the always-resize policy gives, for every sequence of steps with changing dimensions, the results a freshly constructed stepper would give on the same data (apart from documented history such as multistep values, which restart); with the initially-resize policy the same holds as long as the dimension stays that of the first use, and with the never-resize policy after the user sized the stepper explicitly. Temporaries handed to the system function always have the dimension of the state being stepped, and internal storage is resized only when needed.",
  ["histories", "configurations"], "all steppers x resizing policies x sequences of dimensions",
  "Tests count resizes for a few steppers; result equality after dimension changes is not tested.",
  ["util/resizer.hpp","util/resize.hpp","util/same_size.hpp","util/state_wrapper.hpp","util/is_resizeable.hpp","stepper/base/explicit_stepper_base.hpp","stepper/dense_output_runge_kutta.hpp","stepper/controlled_runge_kutta.hpp"],
  [("adjust_size","util/resizer.hpp"),("resize_impl of every stepper","stepper/base/explicit_stepper_base.hpp")],
  ["sizes of all states passed to the system function","step results compared with fresh steppers"])

p("C23", "Copies of steppers are independent and continue identically",
  "Copying or assigning any stepper at any point of its history yields an object that, given the same further calls, produces exactly the same results as the original would, and using either one afterwards never changes the behaviour of the other. In particular a copy remains valid after the original is destroyed, and dense-output copies keep their own current, previous and interpolation data.",
  ["histories"], "all steppers x all points of the history at which to copy or assign x all continuations",
  "Tests check that copies have different addresses in a few steppers, not that behaviour is equal and independent after histories.",
  ["stepper/dense_output_runge_kutta.hpp","stepper/controlled_runge_kutta.hpp","stepper/adams_bashforth.hpp","stepper/adams_bashforth_moulton.hpp","stepper/detail/rotating_buffer.hpp","stepper/rosenbrock4_dense_output.hpp","stepper/bulirsch_stoer_dense_out.hpp","stepper/velocity_verlet.hpp"],
  [("copy constructors / assignment","stepper/dense_output_runge_kutta.hpp"),("rotating buffer copy","stepper/detail/rotating_buffer.hpp")],
  ["results of original and copy under diverging continuations"])

p("C24", "All algebras and operations compute the same element-wise result",
  "For every container type odeint supports out of the box, every number of operands and every size (including empty and single-element), the algebra applies the operation to each corresponding element exactly once and touches nothing else, and the maximum norm is the largest absolute value over all elements. The built-in operations (weighted sums of 1 to 14 terms, the sum that swaps, scaling, relative-error forms) compute exactly their documented formula, so a step gives the same result whichever algebra and container hold the state.",
  ["inputs", "configurations"], "all algebras x operand counts x sizes x operations",
  "Tests exercise for_each1..7 with one size and rarely check higher operand counts.",
  ["algebra/range_algebra.hpp","algebra/array_algebra.hpp","algebra/fusion_algebra.hpp","algebra/vector_space_algebra.hpp","algebra/multi_array_algebra.hpp","algebra/default_operations.hpp","algebra/detail/for_each.hpp","algebra/detail/norm_inf.hpp","external/openmp/openmp_range_algebra.hpp","external/openmp/openmp_nested_algebra.hpp","external/eigen/eigen_algebra.hpp"],
  [("for_eachN","algebra/range_algebra.hpp"),("scale_sumN","algebra/default_operations.hpp")],
  ["operands after the call","argument tuples seen by a recording operation"])

p("C25", "Splitting and parallel states are lossless and equal to sequential ones",
  "Splitting a sequence into any number of parts yields contiguous parts that cover it exactly once in order, and joining them gives the original back, for all sizes and part counts including fewer elements than parts. Copying, resizing and size comparison of split states act on every part, and integrating a split (OpenMP or MPI) state gives exactly the result of the sequential integration for any number of threads.",
  ["inputs", "schedules", "configurations"], "all lengths x part counts x thread counts",
  "Tests use one length divisible by the number of parts.",
  ["util/split.hpp","util/split_adaptor.hpp","external/openmp/openmp_state.hpp","external/openmp/openmp_nested_algebra.hpp","external/openmp/openmp_range_algebra.hpp","external/mpi/mpi_state.hpp"],
  [("split_offsets","util/split_adaptor.hpp"),("split/unsplit","external/openmp/openmp_state.hpp")],
  ["parts and joined sequence","trajectories of split and plain states"])

p("C26", "By-value arguments are isolated, by-reference arguments are really used",
  "Systems, observers and steppers passed by value to steppers, integrate functions and iterators are copied and the caller's objects stay unmodified, while those passed through a reference wrapper (of either library) are used in place, including through every overload, controller, dense-output stepper, iterator and checker, without ever being copied. An observer collection calls each of its observers once per observation, in order, with the observed state and time.",
  ["programs", "configurations"], "all entry points x {system, observer, stepper} x {value, boost::ref, std::ref}",
  "Tests use reference wrappers in a few places only.",
  ["util/unwrap_reference.hpp","util/bind.hpp","integrate/detail/functors.hpp","integrate/observer_collection.hpp","integrate/integrate_const.hpp","iterator/detail/ode_iterator_base.hpp"],
  [("unwrap_reference","util/unwrap_reference.hpp"),("observer_collection","integrate/observer_collection.hpp")],
  ["call and copy counters of instrumented functors and steppers"])

p("C27", "Generation functions build the stepper they promise, with its parameters",
  "make_controlled and make_dense_output, in all forms, return a controller or dense-output stepper around the given stepper whose absolute and relative tolerance and maximum step size are exactly those passed, so that it behaves call for call like one constructed by hand, for every stepper they support and for custom controllers registered by the user. The convenience integrate function behaves exactly like adaptive integration with the default Dormand-Prince controlled stepper.",
  ["configurations", "inputs"], "all supported steppers x tolerances x maximum steps x forms",
  "Tests only check result types or that it compiles.",
  ["stepper/generation/make_controlled.hpp","stepper/generation/make_dense_output.hpp","stepper/generation/generation_controlled_runge_kutta.hpp","stepper/generation/generation_dense_output_runge_kutta.hpp","stepper/generation/generation_rosenbrock4.hpp","stepper/generation/generation_controlled_adams_bashforth_moulton.hpp","integrate/integrate.hpp"],
  [("controller_factory","stepper/generation/generation_controlled_runge_kutta.hpp"),("dense_output_factory","stepper/generation/generation_dense_output_runge_kutta.hpp")],
  ["try_step/do_step behaviour of generated and hand-built steppers"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P: f.write(json.dumps(x) + "\n")
