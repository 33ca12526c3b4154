import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=(),hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=list(obs)
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
PD="src/Optimization/hiopAlgPrimalDecomp.cpp"; PDH="src/Optimization/hiopAlgPrimalDecomp.hpp"
IPM="src/Optimization/hiopAlgFilterIPM.cpp"; NLP="src/Optimization/hiopNlpFormulation.cpp"; FR="src/Optimization/hiopFRProb.cpp"
VEC="src/LinAlg/hiopVectorPar.cpp"; MAT="src/LinAlg/hiopMatrixDenseRowMajor.cpp"; KKT="src/Optimization/hiopKKTLinSys.cpp"
p("C01","Primal decomposition evaluates every recourse term exactly once per iteration",
 "In every outer iteration of the primal decomposition solver each recourse term's value and gradient are evaluated exactly once over all processes, at the coupled variables of the most recent master solution. The recourse model handed to the master problem carries exactly the average over all terms of those values and gradients, expanded at that same point. This holds for any number of processes, either work-distribution mode, and any timing of workers and messages.",
 ["schedules","configurations"],"all interleavings of ranks, message delivery delays and test outcomes; 1..9 ranks; any number of terms >= workers; both accumulation modes; coupled subset or all variables",
 "The stable tests run the decomposition on one fixed problem with 1 or 2 MPI ranks (so at most one worker); the work queue, last-round draining and buffer reuse only become contended with several workers and unlucky timing.",
 [PD,PDH,"src/Interface/hiopInterfacePrimalDecomp.hpp","src/Interface/hiopInterfacePrimalDecomp.cpp"],
 [("dynamic work distribution loop on the master rank",PD+": run(), run_local()"),("worker receive-evaluate-send loop",PD+": run(), run_local()"),("recourse quadratic model","src/Interface/hiopInterfacePrimalDecomp.cpp: RecourseApproxEvaluator")],
 [("idx/finish_flag/last_loop","next term to hand out and which workers are drained",PD)],["user callbacks eval_f_rterm/eval_grad_rterm/set_recourse_approx_evaluator/solve_master"])
p("C02","Primal decomposition always terminates on every process, with nothing in flight",
 "A primal decomposition solve returns on every process after at most the configured maximum number of outer iterations, whatever the speed of individual processes and messages. No schedule leaves a process waiting for a message that never comes, all processes stop in the same outer iteration, and when the solve returns no message is left undelivered and no communication request unfinished. A following solve on the same communicator is therefore not disturbed by the previous one.",
 ["schedules","configurations"],"all fair schedules, message delays, eager and synchronous send modes, 1..9 ranks, iteration limits and tolerances, repeated solves on one communicator",
 "A deadlock, a lost end-signal or a leftover message needs a specific interleaving; the tests see one schedule of 2 ranks per run.",
 [PD],[("end signal and stop broadcast",PD+": run(), run_local()"),("stopping criteria",PD+": stopping_criteria")],[("end_signal","stop decision broadcast to workers",PD)],["return value on each rank","message layer state at return"])
p("C03","Primal decomposition result does not depend on process count or timing",
 "For the same problem and options the primal decomposition solver follows the same sequence of master solutions, up to round-off, and reports the same objective and solution, on any number of processes, in either accumulation mode and under any timing, as when it runs on a single process. In particular reruns on the same number of processes under different timing agree.",
 ["schedules","configurations"],"ranks 1..9, both accumulation modes, all schedules and reduction orders",
 "Tests compare one objective value from one 1- or 2-rank execution against a stored number.",
 [PD,PDH,"src/Interface/hiopInterfacePrimalDecomp.cpp"],[("serial reference path",PD+": run_single"),("asynchronous path",PD+": run"),("local accumulation path",PD+": run_local"),("curvature and convergence bookkeeping",PD+": HessianApprox")],(),["master problem callbacks","get_objective/get_solution"])
p("C04","Buffers of messages in flight stay alive and untouched; requests are completed",
 "While a non-blocking send or receive is pending its buffer stays allocated, in scope and unmodified by the library, and the library reads received data only after completion. Every non-blocking request is completed before its buffer is reused or released and before the solve returns, and every message sent is received with matching type and size. This holds for every delivery order and delay a conforming message layer may produce.",
 ["schedules"],"all delivery orders and delays, eager vs rendezvous transfer, any number of ranks and recourse terms",
 "A real MPI on shared memory completes small transfers immediately, so a premature reuse or dead buffer is practically never observed by the tests.",
 [PD,PDH],[("non-blocking request wrappers",PDH+": ReqRecourseApprox, ReqContingencyIdx"),("post/test/wait/delete ordering",PD+": run(), run_local()")],(),["message layer: every post, completion, free and stack unwinding"])
p("C05","Distributed solves give the same answer on any number of processes",
 "Solving a problem whose variables are distributed over processes gives, up to round-off, the same status, iterates, objective, solution and multipliers as solving it on one process, for any assignment of variables to processes including processes that own none. All processes leave the solver with the same status, iteration count, objective and constraint information, and no schedule makes them diverge or deadlock.",
 ["schedules","configurations","inputs"],"any column partition over 1..8 ranks (including empty parts), any schedule, any admissible reduction order, quasi-Newton options",
 "Tests run fixed examples with an even 2-way split; uneven or empty parts and per-rank differences in bounds never occur.",
 [IPM,NLP,VEC,MAT,"src/Optimization/hiopHessianLowRank.cpp",KKT,"src/Optimization/hiopIterate.cpp","src/Optimization/hiopResidual.cpp","src/Optimization/hiopNlpTransforms.cpp","src/Optimization/hiopDualsUpdater.cpp","src/Optimization/hiopLogBarProblem.hpp"],
 [("global reductions",VEC),("distributed dense products",MAT),("low-rank secant Hessian on distributed columns","src/Optimization/hiopHessianLowRank.cpp"),("bounds preprocessing and scaling",NLP)],(),["iterate callback on each rank","solver getters on each rank"])
p("C06","Stop or failure reported by user code ends a distributed solve on all processes",
 "When user code reports a failure or requests a stop on all processes at the same call of a distributed solve, every process returns from the solver with the same documented status, at any point of the solve. No process is left waiting in a communication, aborts or keeps calling user code after reporting the outcome.",
 ["schedules","fault_sequences","crash_points"],"failure or stop at any call of any callback, 2..6 ranks, any schedule and message delay",
 "No test lets a callback fail, and none runs failing code on several ranks.",
 [IPM,NLP,FR],[("error propagation in the main loop",IPM+": hiopAlgFilterIPMQuasiNewton::run, startingProcedure"),("evaluation wrappers",NLP+": eval_*")],(),["return status per rank","message layer state"])
p("C07","A failing or stopping user callback ends the solve with a documented status",
 "If any user-supplied function reports failure at any point of a solve (including first evaluation, line search, second-order correction and feasibility restoration) the solve returns the error-in-user-function status, and if the iterate callback asks to stop it returns the user-stopped status at that iteration. It never crashes, aborts or exits the process, loops forever or returns a success status instead. The same solver and problem objects can be destroyed or used for another solve afterwards.",
 ["fault_sequences","crash_points","configurations"],"a failing, NaN-producing or stopping return at any call index of any callback; dense, mixed dense-sparse and sparse formulations; quasi-Newton and Newton; with and without restoration",
 "In every test all callbacks succeed at every call.",
 [IPM,NLP,FR,"src/Optimization/hiopNlpTransforms.cpp"],[("evaluation error paths",IPM+": run(), evalNlp*, apply_feasibility_restoration, apply_second_order_correction"),("restoration problem evaluations",FR),("failure reporting",NLP+": eval_f/eval_c/eval_d/eval_Jac_*")],(),["return status","process exit","callback history"])
p("C08","Success is only reported at a point that satisfies the optimality conditions",
 "Whenever a solve returns a success status, the returned point satisfies the bounds, the constraints and, together with the returned multipliers, the first-order optimality conditions of the user's problem to the requested tolerances. This holds for every formulation and option setting, and also when internal factorizations fail or are inaccurate, function values are temporarily invalid, or restoration phases were needed. Conversely, a problem is only reported as infeasible at a point that violates its constraints.",
 ["fault_sequences","inputs","configurations"],"random problems, options and starting points; transient linear-solver failures, wrong inertia reports, perturbed solves and invalid function values at any point",
 "Tests compare a handful of objective values of well-behaved examples and never disturb the linear algebra.",
 [IPM,NLP,"src/Optimization/hiopResidual.cpp",KKT,"src/Optimization/hiopKKTLinSysMDS.cpp","src/Optimization/hiopIterate.cpp","src/Optimization/hiopFilter.cpp","src/Optimization/hiopDualsUpdater.cpp","src/Optimization/hiopHessianLowRank.cpp","src/Optimization/hiopPDPerturbation.cpp"],
 [("optimality error and termination test",IPM+": evalNlpAndLogErrors, checkTermination"),("residual computation","src/Optimization/hiopResidual.cpp"),("scaling and bound relaxation",NLP)],(),["solution callback","getters","user functions re-evaluated at the returned point"])
p("C09","User functions are only evaluated inside the bounds; iterates stay interior",
 "Every point at which the solver evaluates user functions after projecting the starting point lies within the variable bounds declared by the user, up to the documented tiny relaxation. Every iterate reported to the user is strictly inside the relaxed bounds with positive bound multipliers. This also holds during line search, second-order correction, feasibility restoration and recovery from failed linear solves. An evaluation announced to the user function as being at an unchanged point is at the point of the previous evaluation, in every language binding.",
 ["histories","fault_sequences","configurations"],"all evaluation points of all runs; random bounds of all kinds (one-sided, two-sided, fixed, free), starting points, option settings and linear-solver faults",
 "No test looks at the points passed to callbacks.",
 [IPM,NLP,FR,"src/Optimization/hiopIterate.cpp","src/Optimization/hiopLogBarProblem.hpp","src/Optimization/hiopNlpTransforms.cpp"],
 [("fraction to the boundary",'src/Optimization/hiopIterate.cpp: fractionToTheBdry'),("projection into bounds",IPM+": startingProcedure"),("restoration objective",FR)],(),["arguments of every user callback"])
p("C10","What the solver reports to the user is consistent with what it evaluated",
 "The objective, solution, constraint values, multipliers and iteration count that the solver reports through the iterate callback, the solution callback, the getters and the language bindings agree with one another and with the user's own functions evaluated at the reported point. They are expressed in the user's original variables, constraint order and scaling, whatever internal transformation is active and however the solve ended.",
 ["histories","configurations","fault_sequences"],"all iterations of all runs; scaling on/off, fixed-variable treatments, formulations, endings by convergence, iteration limit, user stop and failures",
 "Tests check the final objective of unscaled examples only.",
 [IPM,NLP,"src/Optimization/hiopNlpTransforms.cpp","src/Interface/chiopInterface.cpp","src/Interface/hiopFortranInterface.c","src/Optimization/hiopIterate.cpp"],
 [("iterate and solution callbacks",NLP+": user_callback_solution, user_callback_iterate"),("getters",IPM+": getObjective, getSolution, getDualSolutions"),("C bindings","src/Interface/chiopInterface.cpp")],(),["callback arguments","getters","user functions re-evaluated"])
p("C11","Independent solves do not influence each other and solves are repeatable",
 "Several solver instances living in one process, created, run and destroyed in any interleaved or nested order, each behave bit for bit as if they were alone. Running the same solve again, on a fresh or on the same solver object, reproduces the same iterates and result, and no result depends on the previous contents of memory.",
 ["schedules","histories"],"all interleavings of 2..4 instances at callback granularity, nested solves from callbacks, reruns, arbitrary initial contents of allocated memory",
 "Each test process runs one instance once, start to end.",
 [IPM,NLP,"src/Optimization/hiopPDPerturbation.cpp","src/Optimization/hiopFilter.cpp","src/Optimization/hiopHessianLowRank.cpp","src/Optimization/hiopKKTLinSys.cpp","src/Utils/hiopRunStats.hpp","src/LinAlg/LinAlgFactory.cpp"],
 [("reinitialization for a new run",IPM+": reInitializeNlpObjects, resetSolverStatus"),("per-instance state",IPM)],(),["sequence of all callback arguments and results per instance"])
p("C12","Options: file values win, invalid or damaged input never changes valid settings",
 "A value given in the options file takes precedence over values set through the API, and unknown names, malformed lines and out-of-range values are ignored with the previous valid value kept. A missing, truncated, unreadable or damaged options file never crashes the solver and never changes an option other than those it validly names, apart from the documented adjustments that make options consistent; every option always holds a value within its documented range. How a value that only starts with a number (as in 1e3x) is read is left open.",
 ["fault_sequences","inputs","histories"],"any sequence of file loads with truncation, read errors, garbage and API calls in any order, for all options of all solver option sets",
 "Tests only use defaults and a few in-range API calls.",
 ["src/Utils/hiopOptions.cpp","src/Utils/hiopOptions.hpp"],[("options file parser","src/Utils/hiopOptions.cpp: load_from_file"),("setters and precedence","src/Utils/hiopOptions.cpp: SetNumericValue, SetIntegerValue, SetStringValue"),("consistency adjustments","src/Utils/hiopOptions.cpp: ensure_consistence")],(),["GetNumeric/GetInteger/GetString after every step"])
p("C13","A solve restarted from a saved checkpoint continues exactly where it was saved",
 "After a crash at any moment, including in the middle of a save, restarting from the latest completely saved checkpoint with the same number of processes continues with the same iterates as the uninterrupted run and reaches the same solution. A missing, torn or mismatching checkpoint is not used: the solve then behaves on every process exactly as one started without it. Saving never changes the running solve, and a failing save does not disturb it; state saved to and loaded from caller-supplied groups behaves the same way.",
 ["crash_points","fault_sequences","configurations"],"crash at any storage operation; lost, torn, missing or mismatching files; read and write errors on any process; save intervals; other problems and numbers of processes; repeated runs with the same objects; ranks 1..4",
 "Checkpointing is not even compiled in the tested build.",
 [IPM,"src/Utils/SidreHelper.hpp","src/Optimization/hiopHessianLowRank.cpp","src/Optimization/hiopAlgFilterIPM.hpp"],[("saving state",IPM+": save_state_to_sidre_group, checkpointing_stuff"),("loading state",IPM+": load_state_from_sidre_group"),("view copies and checks","src/Utils/SidreHelper.hpp")],(),["iterate callback trace before and after restart"])
p("C14","Distributed vectors and matrices compute what sequential ones compute",
 "For every distribution of a vector or matrix over processes, including empty parts, each operation on it returns, up to round-off, the value the same operation gives on the undistributed object, and every process obtains the same result of a global operation. Operations on vectors, dense matrices and sparse (triplet, compressed-row) and mixed dense-sparse matrices that every process holds whole give there the value of their definition. All processes execute the same communications in the same order, so that no operation can deadlock.",
 ["schedules","configurations","inputs"],"all public operations, random partitions over 1..8 ranks with empty parts, random contents including zeros and extreme values, any schedule and reduction order",
 "Tests use equal local sizes on 1-2 ranks and mostly constant-filled vectors, so a missing or doubled contribution can cancel out.",
 [VEC,MAT,"src/LinAlg/hiopVectorPar.hpp","src/LinAlg/hiopMatrixDenseRowMajor.hpp","src/LinAlg/hiopMatrixSparseTriplet.cpp","src/LinAlg/hiopMatrixSparseCSRSeq.cpp","src/LinAlg/hiopMatrixMDS.hpp"],[("reductions over processes",VEC),("distributed matrix products",MAT)],(),["operation results on each rank"])
p("C15","Time never influences results",
 "Iterates, results and statuses do not depend on the wall clock: slow, stalled, skewed, jumping or backward-running clocks change at most the reported timings. The solver terminates under any clock behaviour.",
 ["schedules","fault_sequences"],"any per-process sequence of clock readings, including jumps in both directions, at any reading",
 "Tests run under one steady clock.",
 ["src/Utils/hiopTimer.hpp","src/Utils/hiopRunStats.hpp",IPM,PD],[("timers","src/Utils/hiopTimer.hpp"),("run statistics","src/Utils/hiopRunStats.hpp")],(),["callback history under different clock behaviours"])
p("C16","Failing factorizations are regularized, retried and recovered from",
 "When a factorization fails, is singular or has wrong inertia, the solver regularizes and retries with a bounded number of attempts instead of using the bad factorization. Once the faults stop it goes on and still solves the problem; under persistent failure it returns a documented failure status within a bounded number of attempts, without crash or endless loop.",
 ["fault_sequences","configurations"],"singularity, wrong inertia, internal failure reported by the linear solver at any factorization, in bursts or persistently; Newton and quasi-Newton; all KKT formulations and regularization options",
 "The examples in the tests rarely or never meet a failing factorization.",
 [KKT,"src/Optimization/hiopPDPerturbation.cpp","src/Optimization/hiopFactAcceptor.cpp","src/LinAlg/hiopLinSolverSymDenseLapack.hpp","src/Optimization/hiopKKTLinSysMDS.cpp",IPM],[("factorize with inertia correction",KKT+": hiopKKTLinSysCurvCheck::factorize"),("regularization schedule","src/Optimization/hiopPDPerturbation.cpp"),("acceptance tests","src/Optimization/hiopFactAcceptor.cpp")],(),["linear solver calls seen at the LAPACK boundary","return status"])
p("C17","Every solve ends within its iteration limit and keeps its bookkeeping monotone",
 "Every solve ends after at most the configured number of iterations with a documented status, and the iteration numbers reported to the user increase one by one from zero. In each solve the barrier parameter reported to the user never increases from one iteration to the next outside of restoration, step lengths stay within (0,1], and function-evaluation work per iteration stays bounded whatever values user functions return.",
 ["histories","fault_sequences","configurations"],"all runs with random problems, options, infeasible or unbounded problems, and invalid function values at any call",
 "Tests only run examples that converge quickly.",
 [IPM,"src/Optimization/hiopFilter.cpp",NLP,FR],[("main loop",IPM+": run()"),("barrier update",IPM+": updateLogBarrierParameters"),("line search termination",IPM+": run()"),("restoration",IPM+": apply_feasibility_restoration, solve_feasibility_restoration")],(),["iterate callback history"])
p("C18","Diagnostic output, or its failure, never changes a solve",
 "Verbosity, option printing, solution and linear-system dumps affect only what is written: iterates, results and status are identical at every verbosity level and with every dump option. Failing output (full disk, closed stream, unwritable directory) never crashes the solver or changes its result.",
 ["fault_sequences","configurations"],"all verbosity levels and dump options; write, open and close failures at any output operation; 1..4 ranks",
 "Tests do not vary verbosity, and never let output fail.",
 ["src/Utils/hiopLogger.cpp","src/Utils/hiopCSR_IO.hpp",IPM,NLP,KKT,VEC,MAT],[("logger","src/Utils/hiopLogger.cpp"),("KKT dump","src/Utils/hiopCSR_IO.hpp"),("print methods",VEC)],(),["callback history and result with output on, off and failing"])
p("C19","Solves release what they obtain, whatever happens, and stay within it",
 "However a solve ends (success, failure, stop request, failing user functions, invalid values, failing factorizations, restoration, any number of processes, any binding), destroying the solver and problem objects releases every block of memory and closes every file obtained on the way; solving again with the same objects does not accumulate memory; and nothing is written beyond the end of a block.",
 ["histories","fault_sequences","inputs"],"all solves and repeated solves, with a fault at any call of a user function or of the linear solver, through the C++, C and Fortran interfaces and the primal decomposition",
 "Tests solve once and exit without looking at memory; leaks on error paths, in restoration and on repeated use stay invisible.",
 [IPM,NLP,KKT,FR,"src/Optimization/hiopAlgPrimalDecomp.cpp","src/Interface/chiopInterface.cpp","src/Interface/hiopFortranInterface.c",VEC,MAT],[("solver and problem objects",IPM),("KKT systems",KKT),("bindings","src/Interface/hiopFortranInterface.c")],(),["blocks and files still held when all objects are destroyed; blocks held after each of several identical solves; guard zones behind every block"])
p("C20","Primal decomposition stops when it should, with its curvature in the limits",
 "A primal decomposition solve ends exactly when one of its stopping rules holds: the model of the previous outer iteration agrees with the evaluated function (change of the predicted objective, or of the gradient) within the tolerance; or it does so within the acceptable tolerance for the configured number of consecutive outer iterations; or the maximum number of outer iterations is reached. The curvature of every recourse model is the same for all coupled variables, lies between the configured minimum and maximum, and is adapted to how well the previous model predicted the objective. Limits given in the options file or through the API are honoured, and the master solver is given the configured options file.",
 ["schedules","histories","configurations"],"random separable master and recourse problems, tolerances, counts, curvature limits and ratios, from the options file or the API; 1..5 ranks, all three engines, all schedules, failing master solves and terms",
 "Tests run two fixed problems to convergence and compare one objective value; an early stop, a missed stop or a wrong curvature changes it by less than the tolerance of the comparison or only the number of iterations.",
 [PD,PDH,"src/Utils/hiopOptions.cpp"],[("stopping rules",PD+": stopping_criteria, consecutive count in run, run_local, run_single"),("agreement of model and function",PD+": HessianApprox::check_convergence_grad, check_convergence_fcn, compute_base"),("curvature adaptation",PD+": HessianApprox::update_ratio, update_ratio_tr, get_alpha_f")],[("accp_count","consecutive acceptable iterations",PD),("ratio_, alpha_","curvature state",PDH)],["recourse models and options file handed to the master solver, number of master solves"])
p("C21","Starting points and warm starts are used as the user provides them",
 "The first iterate is the user's starting point, moved into the bounds only where it is closer to them than the documented distance, or the origin if the user provides none; multipliers and slacks are the user's when provided and the documented defaults otherwise. With a warm start all variables are exactly the ones given. A warm start that is asked for but not provided, or reported as not available after a part of it was written, leaves a solve that is bit for bit the one without the request, in particular one that does not depend on memory nobody has written.",
 ["inputs","fault_sequences","configurations"],"random problems, bounds, starting points (inside, on, outside of the bounds), multipliers, slacks, projection parameters and all ways of providing or withholding them; arbitrary initial contents of allocated memory",
 "Tests start from fixed points and look at the final objective, which hardly depends on the start; none withholds a requested warm start.",
 [IPM,NLP,"src/Optimization/hiopIterate.cpp","src/Optimization/hiopNlpTransforms.cpp",VEC,"src/Interface/hiopInterface.hpp"],[("starting procedure",IPM+": startingProcedure"),("requests to the user",NLP+": get_starting_point, get_warmstart_point"),("projection","src/Optimization/hiopIterate.cpp: projectPrimalsXIntoBounds, projectPrimalsDIntoBounds"),("transformation of given multipliers","src/Optimization/hiopNlpTransforms.cpp")],(),["first iterate callback of a solve"])
# listed but out of reach of the technique
p("N01","Complex local linear algebra kernels compute the mathematically correct result",
 "Sequential complex kernels return the exact mathematical result up to round-off for every valid input shape and content.",
 ["inputs"],"all shapes and contents","Tests use constant-filled inputs of a few sizes.",
 ["src/LinAlg/hiopMatrixComplexDense.cpp","src/LinAlg/hiopMatrixComplexSparseTriplet.cpp"],[("kernels","src/LinAlg")])
p("N02","Kron reduction of a complex admittance matrix equals the Schur complement",
 "The Kron reduction returns the Schur complement of the admittance matrix with respect to the non-aux buses for every nonsingular input.",
 ["inputs"],"all admittance matrices","Only one fixed matrix is tested.",
 ["src/Utils/hiopKronReduction.cpp","src/LinAlg/hiopLinSolverUMFPACKZ.cpp"],[("Kron reduction","src/Utils/hiopKronReduction.cpp")])
p("N03","GPU and RAJA back ends agree with the host back end",
 "Every device kernel and device linear solver gives the host result up to round-off.",
 ["inputs","configurations"],"all kernels and devices","No device back end can be built in this environment.",
 ["src/LinAlg/hiopVectorRajaImpl.hpp","src/LinAlg/hiopMatrixDenseRajaImpl.hpp","src/ExecBackends/ExecSpace.hpp"],[("device kernels","src/LinAlg")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
