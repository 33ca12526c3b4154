"""Builds the simulator with the LLNL/hiop sources of the current /repo working tree (never a copy)."""
import os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HIOP_REPO", "/repo")

# sources of the repository that are not part of the host build: device back ends, external sparse solvers, a unit-test main
EXCLUDED = set("""
LinAlg/VectorHipKernels.cpp LinAlg/hiopLinSolverCholCuSparse.cpp LinAlg/hiopLinSolverMA86Z.cpp LinAlg/hiopLinSolverSparseGinkgo.cpp
LinAlg/hiopLinSolverSparsePARDISO.cpp LinAlg/hiopLinSolverSparseReSolve.cpp LinAlg/hiopLinSolverSparseSTRUMPACK.cpp
LinAlg/hiopLinSolverSymDenseMagma.cpp LinAlg/hiopMatrixDenseRajaCuda.cpp LinAlg/hiopMatrixDenseRajaHip.cpp LinAlg/hiopMatrixDenseRajaOmp.cpp
LinAlg/hiopMatrixRajaSparseTripletCuda.cpp LinAlg/hiopMatrixRajaSparseTripletHip.cpp LinAlg/hiopMatrixRajaSparseTripletOmp.cpp
LinAlg/hiopMatrixSparseCsrCuda.cpp LinAlg/hiopVectorCuda.cpp LinAlg/hiopVectorHip.cpp LinAlg/hiopVectorIntCuda.cpp LinAlg/hiopVectorIntHip.cpp
LinAlg/hiopVectorIntRajaCuda.cpp LinAlg/hiopVectorIntRajaHip.cpp LinAlg/hiopVectorIntRajaOmp.cpp LinAlg/hiopVectorRajaCuda.cpp
LinAlg/hiopVectorRajaHip.cpp LinAlg/hiopVectorRajaOmp.cpp LinAlg/test_hiopLinalgComplex.cpp Utils/MathKernelsHip.cpp Utils/RajaUmpireUtils.cpp
""".split())
SPARSE_ONLY = set("""LinAlg/hiopLinSolverSymSparseMA57.cpp Optimization/hiopKKTLinSysSparse.cpp
Optimization/hiopKKTLinSysSparseCondensed.cpp Optimization/hiopKKTLinSysSparseNormalEqn.cpp""".split())
KNOWN = set("""
Interface/chiopInterface.cpp Interface/hiopFortranInterface.c Interface/hiopInterfacePrimalDecomp.cpp LinAlg/LinAlgFactory.cpp
LinAlg/hiopKrylovSolver.cpp LinAlg/hiopLinSolver.cpp LinAlg/hiopLinSolverUMFPACKZ.cpp LinAlg/hiopLinearOperator.cpp LinAlg/hiopMatrixComplexDense.cpp
LinAlg/hiopMatrixComplexSparseTriplet.cpp LinAlg/hiopMatrixDenseRowMajor.cpp LinAlg/hiopMatrixMDS.cpp LinAlg/hiopMatrixSparseCSRSeq.cpp
LinAlg/hiopMatrixSparseTriplet.cpp LinAlg/hiopMatrixSparseTripletStorage.cpp LinAlg/hiopVectorCompoundPD.cpp LinAlg/hiopVectorIntCompoundPD.cpp
LinAlg/hiopVectorIntSeq.cpp LinAlg/hiopVectorPar.cpp Optimization/hiopAlgFilterIPM.cpp Optimization/hiopAlgPrimalDecomp.cpp
Optimization/hiopDualsUpdater.cpp Optimization/hiopFRProb.cpp Optimization/hiopFactAcceptor.cpp Optimization/hiopFilter.cpp
Optimization/hiopHessianLowRank.cpp Optimization/hiopIterate.cpp Optimization/hiopKKTLinSys.cpp Optimization/hiopKKTLinSysMDS.cpp
Optimization/hiopNlpFormulation.cpp Optimization/hiopNlpTransforms.cpp Optimization/hiopPDPerturbation.cpp Optimization/hiopResidual.cpp
Utils/MathKernelsHost.cpp Utils/hiopKronReduction.cpp Utils/hiopLogger.cpp Utils/hiopOptions.cpp
""".split())
DIRS = ["Interface", "LinAlg", "Optimization", "Utils", "ExecBackends"]

DEFS = {
    "base": ["HIOP_USE_MPI", "HIOP_USE_EIGEN", "HIOP_DEEPCHECKS"],
    # also compiles the checkpoint code (in-memory storage stand-in) and the sparse formulations (simple stand-in for the MA57 solver)
    "full": ["HIOP_USE_MPI", "HIOP_USE_EIGEN", "HIOP_DEEPCHECKS", "HIOP_SPARSE", "HIOP_USE_COINHSL", "HIOP_USE_AXOM", "HIOP_DST_FULL"],
}
WRAPS = "fopen fclose malloc calloc realloc free dsytrf_ dsytrs_ dposvx_ dpotrf_ dpotrs_".split()


def sources(cfg):
    out, new = [], []
    for d in DIRS:
        p = os.path.join(REPO, "src", d)
        if not os.path.isdir(p):
            continue
        for f in sorted(os.listdir(p)):
            if not f.endswith((".cpp", ".c")):
                continue
            rel = d + "/" + f
            if rel in EXCLUDED or (rel in SPARSE_ONLY and cfg == "base"):
                continue
            (out if rel in KNOWN or rel in SPARSE_ONLY else new).append(rel)
    return out, new


def write_if_changed(path, text):
    if os.path.exists(path) and open(path).read() == text:
        return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def build(cfg="base", extra="", tag=None, quiet=False, opt="-O1"):
    """returns the path of the simulator binary, raises RuntimeError with the compiler output if the tree does not compile"""
    out = os.path.join(VERIF, "build", tag or cfg)
    gen = os.path.join(out, "gen")
    defs = "".join("#define %s\n" % d for d in DEFS[cfg])
    defs += '#define HIOP_VERSION "1.1.0"\n#define HIOP_VERSION_MAJOR 1\n#define HIOP_VERSION_MINOR 1\n#define HIOP_VERSION_PATCH 0\n'
    defs += '#define HIOP_RELEASE_DATE "2025-01-01"\n#include "hiop_types.h"\n'
    write_if_changed(gen + "/hiop_defs.hpp", defs)
    write_if_changed(gen + "/FortranCInterface.hpp", "#pragma once\n#define FC_GLOBAL(name,NAME) name##_\n#define FC_GLOBAL_(name,NAME) name##_\n")
    inc = ["-I" + gen, "-I" + VERIF + "/sim/inc", "-I" + VERIF + "/sim"] + ["-I%s/src/%s" % (REPO, d) for d in DIRS + ["_Internals"]]
    inc += ["-isystem /usr/include/eigen3", "-isystem /usr/include/suitesparse"]
    if cfg == "full":
        inc.insert(1, "-I" + VERIF + "/sim/inc_full")
    common = "-fno-omit-frame-pointer -fno-optimize-sibling-calls -fno-strict-aliasing -pipe -w %s %s" % (extra, " ".join(inc))
    srcs, new = sources(cfg)
    n = ["ninja_required_version = 1.5", "builddir = " + out]
    n.append("rule cxx\n  command = g++ $opt -std=gnu++17 %s -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc" % common)
    n.append("rule cc\n  command = gcc $opt %s -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc" % common)
    n.append("rule trycxx\n  command = g++ $opt -std=gnu++17 %s -c $in -o $out 2>/dev/null || (echo | g++ -x c++ -c - -o $out)" % common)
    wrap = " ".join("-Wl,--wrap=" + w for w in WRAPS)
    n.append("rule link\n  command = g++ %s -o $out $in %s -llapack -lblas -lumfpack -ldl" % (extra, wrap))
    objs = []
    # -fno-inline: the owner frame of a message buffer must be a real frame
    for s in srcs:
        o = "%s/obj/%s.o" % (out, s.replace("/", "_"))
        src = "%s/src/%s" % (REPO, s)
        so = opt + (" -fno-inline" if "PrimalDecomp" in s else "")
        n.append("build %s: %s %s\n  opt = %s" % (o, "cc" if s.endswith(".c") else "cxx", src, so))
        objs.append(o)
    for s in new:
        o = "%s/obj/%s.o" % (out, s.replace("/", "_"))
        n.append("build %s: trycxx %s/src/%s\n  opt = %s" % (o, REPO, s, opt))
        objs.append(o)
    for s in sorted(os.listdir(VERIF + "/sim")):
        if s.endswith(".cpp"):
            o = "%s/obj/sim_%s.o" % (out, s)
            n.append("build %s: cxx %s/sim/%s\n  opt = %s" % (o, VERIF, s, opt))
            objs.append(o)
    exe = out + "/hiopsim"
    n.append("build %s: link %s" % (exe, " ".join(objs)))
    n.append("default " + exe)
    write_if_changed(out + "/build.ninja", "\n".join(n) + "\n")
    r = subprocess.run(["ninja", "-C", out, "-f", out + "/build.ninja"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise RuntimeError(r.stdout[-6000:])
    if not quiet:
        sys.stderr.write(r.stdout.strip().splitlines()[-1] + "\n")
    return exe


if __name__ == "__main__":
    print(build(sys.argv[1] if len(sys.argv) > 1 else "base"))
