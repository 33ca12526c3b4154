# helpers of the demonstrations: compile a small program against the built library and run it
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf -- "$work"' EXIT
R=/repo; B=$R/_build
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_hwloc_base_binding_policy=none \
  OMPI_MCA_mpi_yield_when_idle=1 OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_plm_rsh_agent=/bin/false OMP_NUM_THREADS=1
compile() {   # compile SRC EXE
  OMPI_CXX=g++ mpicxx -std=c++14 -O1 -g -w -I"$B" -I"$R/src/Interface" -I"$R/src/Optimization" -I"$R/src/LinAlg" -I"$R/src/Utils" -I"$R/src/ExecBackends" -I"$R/src/LinAlg" -I"$R/src" -I"$here" \
    "$here/$1" -o "$work/$2" -L"$B/src" -lhiop -Wl,-rpath,"$B/src" -llapack -lblas -lumfpack -lmetis || exit 3
}
