#!/bin/bash
# Environment for running dedalus offline (same values as the build uses).
export HOME=${HOME:-/root} LANG=${LANG:-C.UTF-8}
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 NUMEXPR_MAX_THREADS=1
export MPLBACKEND=Agg
export MPI_INCLUDE_PATH=/usr/lib/x86_64-linux-gnu/openmpi/include
export MPI_LIBRARY_PATH=/usr/lib/x86_64-linux-gnu
export FFTW_INCLUDE_PATH=/usr/include
export FFTW_LIBRARY_PATH=/usr/lib/x86_64-linux-gnu
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
export OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none
export OMPI_MCA_pml=ob1 OMPI_MCA_hwloc_base_binding_policy=none
export OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_mpi_yield_when_idle=1
export OMPI_MCA_plm=isolated OMPI_MCA_oob_tcp_if_include=lo
exec "$@"
