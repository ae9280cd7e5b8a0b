#!/bin/bash
# builds the demonstration against the library in /repo/_build and runs it
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
NP=@NP@
gcc -g -O1 -std=gnu99 -w -D_GNU_SOURCE -I/repo/include -I/repo/src "$D/demo.c" -o "$W/demo" -L/repo/_build -llaik -Wl,-rpath,/repo/_build -lm -lpthread -ldl || exit 2
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none
export OMPI_MCA_pml=ob1 OMPI_MCA_plm=isolated OMPI_MCA_hwloc_base_binding_policy=none OMP_NUM_THREADS=1 TMPDIR="$W"
@ENV@
cd "$W"
@RUN@
