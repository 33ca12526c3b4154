"""per-property parameters of the checks"""
COMMON_ASSUMPTIONS = [
    "seeded search, not exhaustive: schedules, faults and problems outside the seeds run are not covered",
    "library compiled with g++ -O1 and assertions active (as in the repository's own build); message layer replaced by the simulated MPI",
    "local arithmetic uses the installed reference BLAS/LAPACK",
]
PRIDEC_REAL = ["hiopAlgPrimalDecomposition (run, run_local, run_single, HessianApprox)", "hiopInterfacePriDecProblem::RecourseApproxEvaluator", "hiopOptionsPriDec", "hiopLogger", "hiopVectorPar / hiopVectorIntSeq"]
PRIDEC_STUB = ["MPI (simulated point-to-point and collectives)", "clock", "user problem: closed-form box-constrained quadratic master, smooth recourse terms", "standard output -> /dev/null"]
PRIDEC_RULE = ("one case = one seeded simulated execution of one or two consecutive primal decomposition solves (1-7 ranks, 1-15 terms, both work-distribution modes, "
               "random worker durations, stalls, message delays, eager/rendezvous sends, clock faults); non-trivial = at least two outer iterations completed; distinct = different event history")
SOLVE_REAL = ["hiopAlgFilterIPMQuasiNewton / hiopAlgFilterIPMNewton", "hiopNlpFormulation (dense, MDS), transformations, scaling", "hiopKKTLinSys*, hiopHessianLowRank, hiopLinSolverSymDenseLapack", "hiopFRProb (feasibility restoration)", "hiopIterate, hiopResidual, hiopLogBarProblem, hiopFilter, hiopDualsUpdater, hiopPDPerturbation", "hiopOptions, hiopLogger", "reference BLAS/LAPACK"]
SOLVE_STUB = ["MPI (simulated)", "clock", "user problem: generated nonlinear programs with injected failures, invalid values and stop requests", "standard output -> /dev/null"]
FULL_REAL = ["sparse formulations (hiopNlpSparse, hiopNlpSparseIneq), hiopKKTLinSysSparse*, hiopKKTLinSysSparseCondensed, hiopMatrixSparseTriplet / CSR, hiopLinSolverSymSparseMA57, hiopFRProbSparse"]
FULL_STUB = ["MA57 (sparse formulations only): stand-in with the same calling conventions, dense factorization and inertia"]
SOLVE_RULE = ("one case = one seeded simulated solve: a generated nonlinear program (dense quasi-Newton, mixed dense-sparse Newton or sparse Newton, C++ or C interface style, split or one-call constraints, 1-12 variables, 0-6 constraints, "
              "any bound pattern, fixed variables, nonconvex terms, bad scaling, degenerate or infeasible constraints), random solver options, and a fault plan (NaN/Inf values, failing user functions, stop requests); ")
DIST_RULE = ("one case = one seeded simulated dense solve distributed over 2-6 (thorough: 8) processes with a random assignment of variables (empty parts included), random process speeds, message delays and reduction order, "
             "and for C06 a user failure or stop request on all processes at one call; ")
SAME_RULE = ("one case = a generated solve (as for C07-C10: random nonlinear program, options and faults; dense, mixed dense-sparse, 1-4 processes) executed two or more times in one simulation, with all callback arguments, results and statuses compared bit for bit; ")
OPT_RULE = ("one case = one seeded history of up to 25 steps on an option set (loads of intact, truncated, damaged, unreadable or missing files with short reads and read errors; API calls with valid, invalid and unknown names and values; re-loads), "
            "every option compared after every step with a reference model of the documented rules; or one solve with a damaged options file compared bit for bit with a solve whose file holds only the lines that are readable; "
            "non-trivial = at least one value was set and one input rejected; distinct = different event history")
LA_RULE = ("one case = one seeded program of 3-30 (thorough: 60) operations on a pool of 5 distributed vectors, 2 patterns and 3 column-distributed dense matrices over 1-6 (thorough: 8) simulated processes with an even, random or one-sided partition (empty parts included), "
           "every result and all contents compared after each operation with plain loops over the gathered operands; non-trivial = more than one process and more than two operations compared; distinct = different event history")
PROPS = {
    "C01": dict(runs=12000, rule=PRIDEC_RULE, real=PRIDEC_REAL, stub=PRIDEC_STUB),
    "C02": dict(runs=20000, rule=PRIDEC_RULE, real=PRIDEC_REAL, stub=PRIDEC_STUB),
    "C03": dict(runs=16000, rule=PRIDEC_RULE, real=PRIDEC_REAL, stub=PRIDEC_STUB),
    "C04": dict(runs=16000, rule=PRIDEC_RULE, real=PRIDEC_REAL, stub=PRIDEC_STUB),
    "C05": dict(runs=5000, rule=DIST_RULE + "non-trivial = the distributed solve was compared with a one-process solve over at least two iterations", real=SOLVE_REAL, stub=SOLVE_STUB),
    "C06": dict(runs=30000, rule=DIST_RULE + "non-trivial = a failure or stop request was delivered to all processes", real=SOLVE_REAL, stub=SOLVE_STUB),
    "C07": dict(parts=[("base", 18000), ("full", 9000)], rule=SOLVE_RULE + "non-trivial = a user function failed or a stop was requested", real=SOLVE_REAL + FULL_REAL, stub=SOLVE_STUB + FULL_STUB),
    "C08": dict(parts=[("base", 26000), ("full", 12000)], rule=SOLVE_RULE + "non-trivial = a success status was returned and its point checked", real=SOLVE_REAL + FULL_REAL, stub=SOLVE_STUB + FULL_STUB),
    "C09": dict(parts=[("base", 22000), ("full", 11000)], rule=SOLVE_RULE + "non-trivial = more than 3 evaluations checked", real=SOLVE_REAL + FULL_REAL, stub=SOLVE_STUB + FULL_STUB),
    "C10": dict(parts=[("base", 26000), ("full", 11000)], rule=SOLVE_RULE + "non-trivial = more than 2 iterate reports checked", real=SOLVE_REAL + FULL_REAL, stub=SOLVE_STUB + FULL_STUB),
    "C11": dict(parts=[("base", 9000), ("full", 5000)], rule=SAME_RULE + "the runs differ in the contents of fresh memory, in being repeated with the same objects, in being interleaved with or nested in other solves, or in following disturbed solves; one run in eight of the base build compares primal decompositions the same way; non-trivial = the compared runs did more than 3 iterations (primal decomposition: more than one)", real=SOLVE_REAL + FULL_REAL, stub=SOLVE_STUB + FULL_STUB),
    "C12": dict(runs=30000, rule=OPT_RULE, real=["hiopOptions, hiopOptionsNLP, hiopOptionsPriDec (file parser, setters, precedence, consistency)", "hiopLogger", "hiopAlgFilterIPM solves reading a damaged options file"],
                stub=["storage: generated option files in a scratch directory, truncated, damaged, unreadable or missing; read() of the library interposed (short reads, I/O errors)", "standard output -> /dev/null", "user problem"]),
    "C13": dict(build="full", runs=8000, rule="one case = one seeded history of a generated dense quasi-Newton solve on 1-4 simulated processes and a simulated storage: a reference solve, solves that save checkpoints (at random intervals, one file or numbered files, to files or to groups of the caller), a crash at a random storage operation or storage faults (open errors, full device, lost writes, read errors), then restarts from what survived or from damaged, missing or mismatching checkpoints; non-trivial = a restarted run was compared with the reference",
                real=["checkpoint code of hiopAlgFilterIPMQuasiNewton (save/load, checkpointing_stuff), SidreHelper, hiopHessianLowRank, hiopFilter", "hiopAlgFilterIPMQuasiNewton and everything below it (dense)"],
                stub=["axom::sidre groups, views, IOManager: stand-in on a simulated storage whose durable state survives the crash", "MPI (simulated)", "clock", "user problem", "standard output -> /dev/null"]),
    "C14": dict(runs=80000, rule=LA_RULE, real=["hiopVectorPar", "hiopMatrixDenseRowMajor", "hiopMatrixSparseTriplet", "hiopMatrixSparseCSRSeq", "hiopMatrixMDS", "reference BLAS/LAPACK"], stub=["MPI (simulated collectives, random process speeds, delays and reduction order)", "contents of fresh memory"]),
    "C15": dict(parts=[("base", 10000), ("full", 5000)], rule=SAME_RULE + "the runs differ in their clocks only (steady, slow, jumping, backward, stalled, skewed); one run in eight of the base build compares primal decompositions the same way; non-trivial = the compared runs did more than 3 iterations (primal decomposition: more than one)", real=SOLVE_REAL + FULL_REAL, stub=SOLVE_STUB + FULL_STUB),
    "C18": dict(parts=[("base", 11000), ("full", 5000)], rule=SAME_RULE + "the runs differ in verbosity, dump options and injected output failures only (write errors, short writes, full disk, closed stream, open errors); one run in eight of the base build compares primal decompositions the same way; non-trivial = the compared runs did more than 3 iterations (primal decomposition: more than one)", real=SOLVE_REAL + FULL_REAL, stub=SOLVE_STUB + FULL_STUB),
    "C16": dict(parts=[("base", 16000), ("full", 10000)], rule="one case = one seeded simulated solve of a generated problem (mixed dense-sparse Newton or dense quasi-Newton, random options including regularization, factorization acceptance, linear solver mode and KKT formulation), undisturbed and then with a fault plan at the LAPACK boundary: factorizations reported singular, failed or with wrong inertia, failing solves, in bursts or for good, at random calls; non-trivial = at least one fault was met", real=SOLVE_REAL + FULL_REAL, stub=SOLVE_STUB + FULL_STUB + ["LAPACK dsytrf, dsytrs, dposvx, dpotrf, dpotrs: real, with injected failures"]),
    "C17": dict(parts=[("base", 26000), ("full", 12000)], rule=SOLVE_RULE + "non-trivial = more than 3 iterations checked", real=SOLVE_REAL + FULL_REAL, stub=SOLVE_STUB + FULL_STUB),
    "C19": dict(parts=[("base", 12000), ("full", 9000)], rule="one case = one generated history of 1-4 solves (as for C07-C11: random nonlinear program, options, formulation and binding, 1-4 processes; one run in eight of the base build: a primal decomposition), with a fault plan (failing or invalid evaluations, stop request, failing factorizations and solves), executed twice in one simulation, the second time with every block and file obtained by the library tracked and guarded; non-trivial = the solve did more than one iteration or met a fault", real=SOLVE_REAL + FULL_REAL + ["C and Fortran bindings"] + PRIDEC_REAL[:1], stub=SOLVE_STUB + FULL_STUB + ["operator new/delete, malloc/free, fopen/fclose of the library: real, recorded"]),
    "C21": dict(parts=[("base", 30000), ("full", 20000)], rule="one case = one generated solve (random nonlinear program, options, formulation) with one way of providing a start: primal point, extended overload with or without multipliers and slacks, nothing, a full warm start, or a requested warm start that is withheld or half written; the first iterate is compared with the given values and the documented projection, "
                "a withheld warm start bit for bit with a solve without the request in another process with other memory contents; non-trivial = a first iterate was compared, or the withheld-start solve iterated", real=SOLVE_REAL + FULL_REAL, stub=SOLVE_STUB + FULL_STUB),
    "C20": dict(runs=12000, rule="one case = one seeded simulated execution of one primal decomposition solve (1-5 ranks, 1-15 terms, all three engines, random tolerances, acceptable counts, iteration and curvature limits set through the API or an options file, random worker durations, stalls, message delays, clock faults, failing master solves and terms); "
                "the stopping rules and the curvature rule are recomputed from the history; non-trivial = the solve stopped by a tolerance; distinct = different event history", real=PRIDEC_REAL, stub=PRIDEC_STUB),
}
NOT_APPLICABLE = {
    "N01": "purely sequential functions of their inputs: no schedule, clock, I/O, fault or multi-party behaviour for a simulator to decide; the kernels that the distributed solver and the assembly of its systems share (vectors, dense, triplet, compressed rows, mixed) are covered by C14",
    "N02": "a sequential function of its input matrix: nothing for a scheduler or fault injector to vary",
    "N03": "needs CUDA/HIP/RAJA back ends, which cannot be built here and whose nondeterminism is outside the simulator's seams",
}
