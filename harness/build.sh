#!/bin/bash
# Builds /repo's libraries, command line tools and the harness server into the
# directory given as first argument (default /verif/build/rel).
set -e
here=$(cd "$(dirname "$0")" && pwd)
B=${1:-$here/../build/rel}
FLAGS=${VH_CXXFLAGS:--O1 -DNDEBUG}
TARGETS=${VH_TARGETS:-all alsh alshuq}
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
unset CFLAGS CXXFLAGS LDFLAGS
mkdir -p "$B"
CC=${VH_CC:-gcc} CXX=${VH_CXX:-g++} cmake -S ${VH_REPO:-/repo} -B "$B" -G Ninja -Wno-dev -Wno-deprecated \
  -DCMAKE_BUILD_TYPE=Release -DCMAKE_CXX_FLAGS_RELEASE="$FLAGS" \
  -DALSVINN_PYTHON_VERSION=3.12 -DALSVINN_USE_CUDA=OFF -DALSVINN_USE_MPI=ON \
  -DALSVINN_BUILD_FBM=OFF -DALSVINN_BUILD_QMC=OFF -DALSVINN_BUILD_DOXYGEN=OFF \
  -DALSVINN_BUILD_TESTS=OFF -DHDF5_PREFER_PARALLEL=ON \
  -DCMAKE_EXPORT_NO_PACKAGE_REGISTRY=ON \
  -DCMAKE_PROJECT_alsvinn_INCLUDE=$here/cmake/project_include.cmake
ninja -C "$B" $TARGETS
