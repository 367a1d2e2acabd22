#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P=[]
def add(id,title,statement,over,qtext,why,files,mech,observe=(),state=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=list(over),text=qtext),why_tests_cant=why,
      anchors=dict(files=list(files),
        mechanism=[dict(name=a,where=b) for a,b in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        observe_at=list(observe),hook_needed=None)))
C='common/include/'
RA='Radau5-NG/include/Radau5cc.hpp'; RO='Rodas-NG/include/Rodascc.hpp'
K4='Rock4-NG/include/Rock4.hpp'; TO='Rock4-NG/include/ToolOMP.hpp'; KL='Rock4-L/include/Rock4L.hpp'
SD='SDIRKL/include/Sdirkl.hpp'; SY='SymplecticRK/include/SymplecticRK.hpp'
SMOKE="The shipped tests only run example programs on a few fixed problems and check that they end; no computed number is compared with anything, so "

add('C01','Matrix storage is the LAPACK layout, for every index and band shape',
 "For every size and band shape, every element (row, column) of a full, banded, complex or complex banded matrix object lives in its own slot, inside the object's storage, exactly where the linear algebra library expects that element. Writing one element changes no other element, and building 'shift minus Jacobian' negates every stored element and adds the shift to the diagonal only.",
 ['inputs','configurations'],"all element indices, all values, every (size, lower band, upper band) up to the stated bound, real and complex",
 SMOKE+"an index slip in a band shape the examples do not use, or in one corner of the band, passes.",
 [C+'fortranArray.hpp',C+'fortranComplexArray.hpp',C+'fortranRectangularArray.hpp',C+'fortranRectangularComplexArray.hpp'],
 [('column-major addressing',C+'fortranArray.hpp operator()'),('band addressing',C+'fortranRectangularArray.hpp operator()'),('complex addressing',C+'fortranRectangularComplexArray.hpp Re/Im/set')],
 ['element reads after writes through the public accessors','raw storage handed to LAPACK'])
add('C02','Hessenberg factorisation solves the shifted real system',
 "With the Hessenberg option the solvers' real linear systems are solved exactly as without it: for every nonsingular matrix reduced to Hessenberg form, factorising 'shift times identity minus matrix' and back-solving returns the vector that satisfies the original system. An exactly singular matrix is reported instead of producing a result.",
 ['inputs'],"all real Hessenberg matrices, reflector scalars and right-hand sides at the stated sizes, every pivoting pattern",
 SMOKE+"a wrong sign or pivot row in one elimination branch only degrades a result nobody compares; the branch taken depends on the values.",
 [C+'Hessenberg.hpp',C+'Matrices.hpp'],[('real elimination','Hessenberg.hpp dech/solh'),('reflector application','Hessenberg.hpp householder'),('use','Matrices.hpp specialisation <true,true>')],
 ['the solution vector of the solve'])
add('C03','Hessenberg factorisation solves the shifted complex system',
 "For every nonsingular complex Hessenberg system made of a real matrix and a complex shift, factorisation and back substitution return the complex vector that satisfies the original system, whichever pivots are chosen and whichever parts of the entries are zero. An exactly singular complex matrix is reported to the caller and never silently used.",
 ['inputs'],"all complex Hessenberg matrices and right-hand sides at the stated sizes, every pivoting pattern and every zero pattern of real/imaginary parts",
 SMOKE+"the branches for purely real or purely imaginary multipliers are data dependent and hardly ever taken by the examples.",
 [C+'Hessenberg.hpp',C+'Matrices.hpp'],[('complex elimination','Hessenberg.hpp dechc/solhc'),('complex shift','Matrices.hpp decomc')],['the solution vector','the return code / exception'])
add('C04','Linear-system layer solves (shift*I - J) x = b in every storage mode',
 "Whatever the matrix option chosen by the problem (full, banded with any bandwidths, Hessenberg), the real and the complex linear solves used by the implicit integrators return the solution of the shifted Jacobian system for the Jacobian that was supplied, and the Jacobian supplied is not altered in full or banded mode. When the factorisation reports failure the integrator throws.",
 ['inputs','configurations'],"all Jacobian entries, shifts and right-hand sides at the stated sizes; all storage options; LAPACK taken by its contract",
 SMOKE+"each example uses one size and one storage mode, with one family of Jacobians.",
 [C+'Matrices.hpp',C+'Hessenberg.hpp',C+'fortranRectangularArray.hpp'],[('factorise/solve wrappers','Matrices.hpp decomr/decomc/solvereal/solvecomplex')],['solution vectors','exceptions'])
add('C05','Vector kernels compute the stated combinations and only touch their target',
 "Every vector operation (copy, fill, sum, scaled sums of one to five vectors, in-place addition, export to a plain array, storage exchange) yields in each component exactly the stated combination of its operands' components, also after storage has been exchanged between vectors. Operands that are not the target keep their values.",
 ['inputs','configurations','histories'],"all component values and coefficients, sizes up to the bound, operand aliasing used by the solvers, before and after storage exchange",
 SMOKE+"a wrong component or operand only shows as slightly different numbers.",
 [C+'fortranVector.hpp'],[('kernels','fortranVector.hpp fortranVectorF'),('address exchange','fortranVector.hpp switchadr')],['vector components after each call'])
add('C06','Numerical Jacobian is the finite-difference Jacobian of the right-hand side',
 "When the solver builds the Jacobian itself, every stored entry is the forward difference quotient of the matching right-hand side component with respect to the matching unknown, for full and banded problems alike, and the state vector is left exactly as it was. For an affine right-hand side the result equals its matrix, for every increment-size regime.",
 ['inputs','configurations'],"all states, all affine right-hand sides, all sizes/band shapes within the bound; both implicit solvers",
 SMOKE+"an inexact Jacobian only slows convergence, which no test notices.",
 [RA,RO],[('finite differences',RA+' Jacobian()'),('finite differences',RO+' Jacobian()')],['the matrix passed to the factorisation','arguments of right-hand side calls'])
add('C07','Rodas: a step is an order-4 stiffly accurate Rosenbrock step, all methods',
 "One accepted step with any of the three coefficient sets, for any problem size, autonomous or not, agrees with the exact solution's Taylor expansion up to and including order four, with an embedded error estimate that is of order four in the step size (third-order comparison solution). On the linear test equation the step is damped to zero in the stiff limit.",
 ['inputs','configurations'],"all right-hand sides (through their Taylor coefficients), all states, all step sizes (as power series), three methods, autonomous/non-autonomous, analytical/numerical time derivative",
 SMOKE+"losing two orders of accuracy still lets the adaptive integrator finish the examples.",
 [RO],[('coefficients',RO+' rocoe'),('stages',RO+' operator() and slvrod'),('time derivative',RO+' DF_X')],['result vector','arguments of the right-hand side calls'])
add('C08','Rodas: result is delivered at the requested end point',
 "When an integration returns normally, the caller's state array holds the numerical solution at the returned time, and that time is the requested end time (up to rounding), for forward and backward integration and for any initial step proposal; steps never overshoot the end. In one-step mode exactly one accepted step is made and time and state advance together.",
 ['inputs','histories'],"all start/end times in both directions, all initial steps, all step-acceptance outcomes within the bound on attempts",
 SMOKE+"the examples only integrate forward and do not look at the returned state.",
 [RO],[('time loop',RO+' operator()'),('export',C+'fortranVector.hpp put')],['y[] and x on return','last argument times'])
add('C09','Rodas: step acceptance and step-size control follow the error estimate',
 "A step is accepted exactly when the weighted root-mean-square of the error estimate is at most one; the proposed next step stays within the documented ratio limits and follows the safety-factor (and, when enabled, predictive) formula; after a rejection the step is retried from the unchanged state with a strictly smaller step and the next accepted step does not grow. The counters of steps, accepted and rejected steps, Jacobians and decompositions equal what happened.",
 ['inputs','histories'],"all error values, tolerances, states; all accept/reject histories up to the bound",
 SMOKE+"a controller that accepts steps it must reject finishes sooner and passes.",
 [RO],[('error norm and controller',RO+' operator()')],['step sizes used','counters','state after a rejected attempt'])
add('C10','Tolerances and solver settings take effect per component, as documented',
 "Scalar and per-component tolerances give every component exactly the tolerance supplied for it, equal per-component tolerances behave like the scalar ones, no tolerance outside the supplied arrays is read, and each documented setting (safety factor, step ratio limits, predictive controller, Newton limits, maximal number of steps) influences the integration it is set for.",
 ['inputs','configurations'],"all tolerance values and settings, both implicit solvers, sizes within the bound",
 SMOKE+"all examples use scalar tolerances and default settings.",
 [RA,RO],[('setters',RA+' setTestPolicy,set*'),('setters',RO+' setTestPolicy,set*')],['acceptance decisions','array accesses'])
add('C11','Implicit integrators always terminate',
 "For every right-hand side, however badly behaved, an integration call of the implicit solvers performs a bounded number of step attempts: it returns, or it throws once the step count exceeds the configured maximum or the step size becomes negligible. Repeated step rejection or Newton failure never loops forever.",
 ['inputs','histories'],"all right-hand side values, all histories of rejections and Newton failures",
 SMOKE+"the examples never meet a right-hand side for which every step is rejected.",
 [RA,RO],[('step limit',RA+' operator()'),('step limit',RO+' operator()')],['number of right-hand side evaluations','exceptions'])
add('C12','Radau5: an accepted step satisfies the Radau IIA collocation equations',
 "For linear problems (non-autonomous, any size, any storage mode) one accepted step equals the three-stage order-five Radau IIA step: it reproduces the method's rational stability function, integrates polynomials of degree up to four exactly, and an exact Jacobian makes the very first Newton iteration exact. For nonlinear problems every accepted step solves the collocation equations to the Newton tolerance.",
 ['inputs','configurations'],"all matrices, states, forcing polynomials and step sizes at the stated sizes; full, banded and Hessenberg storage",
 SMOKE+"a wrong transformation coefficient makes Newton slower or the order lower but the examples still finish.",
 [RA],[('transformed Newton system',RA+' Newton, slvrad, doNewtonMatrices'),('coefficients',RA+' constructor')],['result vector','right-hand side call arguments'])
add('C13','Radau5: Newton failure and rejection never corrupt or skip part of the interval',
 "Only steps whose Newton iteration converged and whose error estimate is below one are accepted; after a failed Newton iteration or a rejected step the integration continues from the unchanged state with a smaller step, and the integration returns only when the end time has been reached. This holds in both directions of time, for every admissible iteration limit and every sequence of failures, including failures on the last step.",
 ['inputs','histories'],"all Newton-iterate and error values, all sequences of failures up to the bound, both directions",
 SMOKE+"the examples seldom have a failure on the last step and never check the reached time.",
 [RA],[('Newton exit handling',RA+' Newton, operator()'),('last step logic',RA+' operator()')],['x and y[] on return'])
add('C14','Radau5: step-size control, one-step mode and counters are as documented',
 "The next step size obeys the configured ratio limits and the safety/predictive formula driven by the error estimate; in one-step mode exactly one accepted step is made and time, state and counters advance together; reported step, acceptance, rejection, Jacobian, decomposition, function-call counts and first/last step sizes equal what happened.",
 ['inputs','histories','configurations'],"all error values and settings, all histories up to the bound",
 SMOKE+"counters and step proposals are printed, not compared.",
 [RA],[('controller',RA+' operator()'),('counters',RA+' get*')],['getters','x, y[]'])
add('C15','Integrations are history independent',
 "Calling an integrator object again (after a previous integration, a change of step, or a failed call) gives the same result as a fresh object given the same inputs, for every solver of the library whose documentation does not say otherwise.",
 ['histories','inputs'],"all pairs of consecutive calls within the bound, all inputs of the first call",
 SMOKE+"no example compares a repeated call with a fresh object.",
 [RA,RO,K4,KL,SD],[('per-call reinitialisation','operator() prologues')],['result of the second call'])
add('C16','Rock4: the selected stage number is stable and its coefficients are in bounds',
 "For every step size and spectral radius the selected number of stages is one of the tabulated ones, its coefficient sets lie inside the tables, and its stability interval covers step size times spectral radius; if the largest tabulated method is insufficient the step is reduced (or, for the linear variant, an exception is thrown).",
 ['inputs'],"all nonnegative step sizes and spectral radii, including huge ones; both variants",
 SMOKE+"one spectral radius is used, and too few stages show only as instability.",
 [K4,KL,'Rock4-NG/include/Rock4Coeffs.hpp','Rock4-L/include/Rock4Coeffs.hpp'],[('degree selection',K4+' operator(), mdegre'),('table access','Rock4Coeffs.hpp')],['NbStages','table indices','step used'])
add('C17','Rock4: every tabulated method is of order four with an embedded estimate',
 "For each of the fifty tabulated methods one step satisfies all order conditions up to order four, and its error estimate vanishes to order three, for every autonomous right-hand side; the finishing stages see the arguments the composition rule prescribes.",
 ['inputs','configurations'],"all right-hand sides (all rooted trees to order four), all fifty methods",
 SMOKE+"one or two of the fifty methods are executed, and their accuracy is not measured.",
 [K4,TO,'Rock4-NG/include/coeffs-rock4'],[('recurrence and finishing',K4+' kernel'),('vector operations',TO)],['result vector','error estimate'])
add('C18','Rock4 methods are damped on the whole announced negative real interval',
 "For every tabulated method the amplification factor on the linear test equation has modulus at most one (and the recurrence's well inside one) on the whole negative real interval that the stage selection relies on, both for the general and for the linear variant.",
 ['inputs','configurations'],"all real z in the announced stability interval, all tabulated methods",
 SMOKE+"an unstable coefficient in one method of fifty is never executed.",
 [K4,KL,'Rock4-NG/include/coeffs-rock4','Rock4-L/include/coeffs-rock4'],[('coefficients','coeffs-rock4')],['result vector'])
add('C19','Rock4: adaptive time loop reaches the end time and keeps rejected states',
 "Integration ends exactly at the requested end time with the accepted solution in the caller's array, never overshoots, and does not fail spuriously on the last step; a rejected attempt leaves solution and stored derivative untouched and is retried with a smaller step; accepted growth and shrinkage stay within the documented factors; counters match.",
 ['inputs','histories'],"all intervals and initial steps, all error outcomes, up to the bound of attempts; bit-precise for the final-step arithmetic",
 SMOKE+"the final-step rounding cases and rejection paths are input dependent.",
 [K4],[('time loop',K4+' operator()'),('address exchange','common/include/switchAdr.hpp')],['y, counters, times'])
add('C20','Rock4: parallel loops are race free and equal to the serial computation',
 "With threading enabled, in every parallel loop no two iterations touch the same memory location with at least one write (except through a declared reduction), so for every number of threads and every schedule the results are those of the serial code up to summation order.",
 ['schedules','inputs'],"all pairs of iterations of every parallel region reached, i.e. all schedules and thread counts",
 SMOKE+"a lost update in the error sum is timing dependent and is not compared.",
 [TO,K4],[('omp loops',TO)],['memory accesses of parallel regions'])
add('C21','Rock4-L: linear variant applies the Rock4 polynomial of the same method',
 "For a linear right-hand side, each step of the linear variant multiplies the state by the same stability polynomial as the general Rock4 method with the same number of stages, for every matrix and step size; over several steps up to the end time, the total time advanced equals the interval, including the shortened last step.",
 ['inputs','configurations','histories'],"all matrices/vectors via the operator algebra, all fifty methods, all step sizes and interval lengths within the bound on steps",
 SMOKE+"the comparison printed by the example is not checked.",
 [KL,'Rock4-L/include/coeffs-rock4'],[('linear kernel',KL+' kernel1'),('Horner coefficients',KL+' makeHornerCoeffs')],['result vector, Time()'])
add('C22','Rock4-L: affine variant equals the homogenised linear problem',
 "For a right-hand side 'A y + b' with constant b, each step of the affine variant equals the general Rock4 step for that right-hand side, so that an equilibrium of the affine system is left unchanged and order four is kept; calling the variant that does not match the declared kind throws.",
 ['inputs','configurations'],"all A, b, y via the operator algebra, all fifty methods",
 SMOKE+"the affine example only prints its result.",
 [KL],[('affine kernel',KL+' kernel2')],['result vector'])
add('C23','SDIRK steps equal the Runge-Kutta step of the tableau, linear and affine',
 "For every linear operator and constant forcing, one step of the diagonally implicit solver equals the Runge-Kutta step defined by the chosen tableau: its amplification is the tableau's stability function and a steady state of the forced problem is left unchanged. Repeated steps compose and no step depends on data left by earlier ones.",
 ['inputs','configurations'],"all operators (through their action), all vectors, forcing terms and step sizes, all shipped tableaux, both modes",
 SMOKE+"results are printed or ignored.",
 [SD],[('stage recursion',SD+' step'),('zero weight skipping',SD+' doNew')],['inout vector','arguments of the operator'])
add('C24','Shipped SDIRK tableaux have their documented order and consistency',
 "Each shipped diagonally implicit method is consistent: row sums match its abscissae, its equal diagonal is positive, the final combination is the one of a method with its documented classical order, and its linear amplification stays bounded by one on the negative real axis.",
 ['configurations','inputs'],"all shipped tableaux; all order conditions up to the documented order; all negative real z for the amplification bound",
 SMOKE+"a wrong digit lowers the order silently.",
 ['SDIRKL/include/CrN.hpp','SDIRKL/include/EulerImp.hpp','SDIRKL/include/RKMethod1.hpp','SDIRKL/include/RKMethod2.hpp','SDIRKL/include/RKRS.hpp'],[('tableaux','constructors')],['result of one step'])
add('C25','Gauss coefficients are symplectic and of full order in both precisions',
 "For every supported number of stages and both floating types, the coefficients conserve quadratic invariants (the symplecticity identity holds for all pairs of stages), satisfy the quadrature and collocation conditions of the Gauss methods, and after any change of step size they are exactly the original ones multiplied by the new step.",
 ['configurations','inputs','histories'],"all stage counts 2..16, both precisions, all step sizes and sequences of changes",
 SMOKE+"only one stage count is run; energy is printed, not checked.",
 ['SymplecticRK/include/GaussianMethod.hpp','SymplecticRK/include/icoeffs.hpp','SymplecticRK/sage/generated_coeffs.hpp'],[('tables','generated_coeffs.hpp'),('rescale','GaussianMethod.hpp change_h')],['coefficients'])
add('C26','Symplectic step solves the stage equations or reports failure',
 "A step that reports success has stages that are a fixed point of the Gauss equations to the iteration's tolerance and adds the quadrature of the stage derivatives to the state with compensated accumulation (state plus stored correction equals the exact sum); a step that reports failure leaves the caller's state unchanged. The iteration count never exceeds the configured maximum.",
 ['inputs','histories'],"all states, right-hand side values and step sizes; all iteration outcomes within the bound; several consecutive steps",
 SMOKE+"convergence failures never happen in the examples.",
 [SY,'SymplecticRK/include/Ftest.hpp'],[('fixed point iteration',SY+' step'),('stopping test','Ftest.hpp')],['u[], return value, maxIter()'])
add('C27','Symplectic starting values: correct layout, and no influence on the result',
 "With extrapolated starting values, every stage component is initialised from the same component of state and stored derivatives, by continuing the collocation polynomial of the previous step, within the arrays' bounds for every problem size and stage count; switching the extrapolation on or changing the step size never changes which solution a converged step delivers.",
 ['inputs','configurations','histories'],"all problem sizes/stage counts within the bound, all stored derivatives, all step-size changes",
 SMOKE+"the starting value only influences the iteration count unless memory is overrun.",
 ['SymplecticRK/include/Extrap.hpp','SymplecticRK/include/extrapcoeffs.hpp',SY],[('extrapolation','Extrap.hpp operator()')],['first right-hand side arguments of the second step'])
add('C28','Memory safety over the whole life of every solver and container object',
 "Constructing, configuring, using, copying where copying is offered, and destroying solver and container objects performs no out-of-bounds, use-after-free, double-free, mismatched release, leak or decision on uninitialised data, also when an exception ends an integration.",
 ['inputs','configurations','histories'],"all input values on all explored paths, sizes within the bound including one, all storage options, both allocation modes",
 SMOKE+"out-of-bounds and uninitialised reads usually do not crash the examples.",
 [C+'fortranVector.hpp',C+'fortranArray.hpp',C+'Matrices.hpp',C+'AllocateDestroyVector.hpp',RA,RO,K4,KL,SD,SY],[('ownership','constructors/destructors')],['every memory access'])
# not claimed
add('C29','Logged events reflect what the integrator did',
 "With logging enabled, the event log lists every step-size change, rejection and Newton failure in order with the time and step number at which it happened, and is emptied at the start of each integration; its text can be restricted to one type of event. (Rodas, Radau5: changes of the step size, rejections, Newton failures; Rock4: one entry per accepted or rejected step.)",
 ['histories'],"all histories",SMOKE+"the log is only printed.",
 [C+'logger.hpp',RA,RO,K4],[('event list',C+'logger.hpp')],['log text'])
add('C30','Global accuracy: the delivered solution is within the requested tolerance scale',
 "On every sufficiently smooth problem the global error of the adaptive integrators decreases proportionally with the tolerance.",
 ['inputs'],"all smooth problems and tolerances",SMOKE+"accuracy is never measured.",
 [RA,RO,K4],[('error control','controllers')],['result'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P))
for p in P: assert len(p['title'])<=80,p['id']
