"""mk.py: seed(id, prop, file, old, new, needs, breaks, demo_cpp, ndim, nps, args, defs) -> /verif/seeded/id"""
import os, json, subprocess, shutil
DEMO = '''#!/bin/bash
# builds the small program beside this file with hilapp and the library of /repo and runs it
here=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src" "$T/run"
cp "$here"/demo.cpp "$T/src/demo.cpp"
@PRE@cat > "$T/Makefile" <<'M'
HILA_DIR := /repo
.DEFAULT_GOAL := demo
ARCH := vanilla
APP_OPTS := -DNDIM=@NDIM@ @DEFS@
include $(HILA_DIR)/libraries/main.mk
demo: build/demo ; @:
build/demo: Makefile build/demo.o $(HILA_OBJECTS) $(HEADERS)
	$(LD) -o $@ build/demo.o $(wildcard interp.o) $(HILA_OBJECTS) $(LDFLAGS) $(LDLIBS)
M
cd "$T" || exit 3
export OMPI_CXX=g++ OMPI_CC=gcc
make -j8 HILA_DIR=/repo ARCH=@ARCH@ @CXX@ GIT_SHA_HILA=local GIT_SHA_APP=local CLEANED_GOALS=fixed build/demo > log 2>&1 || { tail -20 log; exit 2; }
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_plm=isolated OMPI_MCA_pml=ob1 OMPI_MCA_btl=self,vader \\
  OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_hwloc_base_binding_policy=none OMPI_MCA_mpi_yield_when_idle=1
cd run
@RUN@
'''
CXXV = '"CXXFLAGS=-x c++ --std=c++17 -fno-rtti -O1 -mavx2 -mfma"'
CXXA = '"CXXFLAGS=-O1 -x c++ --std=c++17 -mavx2 -mfma -fabi-version=0 -fomit-frame-pointer" "CXXFLAGS_NOOPT=-x c++ --std=c++17 -mavx2 -mfma -O1"'
CXXO = '"CXXFLAGS=-x c++ --std=c++17 -fno-rtti -fopenmp -O1 -mavx2 -mfma" "CXXFLAGS_NOOPT=-x c++ --std=c++17 -fno-rtti -fopenmp"'
def seed(id, prop, edits, needs, breaks, demo, ndim=2, nps=(1,), args="", defs="", arch="vanilla", run=None, env="", interp=None):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    subprocess.check_call(["git", "-C", "/repo", "diff", "--quiet"])
    if isinstance(edits, tuple): edits = [edits]
    try:
        for f, old, new in edits:
            p = "/repo/" + f
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", "/repo", "diff"]).decode()
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.cpp", "w").write(demo)
    if run is None:
        run = "".join('timeout 100 %smpirun --oversubscribe --bind-to none -n %d ../build/demo %s || { echo "fails with %d ranks"; exit 1; }\n' % (("env " + env + " ") if env else "", n, args, n) for n in nps) + "exit 0\n"
    cxx = dict(vanilla=CXXV, AVX2=CXXA, openmp=CXXO)[arch]
    pre = ""
    if interp:
        open(d + "/interp.cpp", "w").write(interp)
        pre = 'OMPI_CXX=g++ mpic++ -O1 -c "$here"/interp.cpp -o "$T/interp.o" || exit 2\n'
    sh = DEMO.replace("@PRE@", pre).replace("@NDIM@", str(ndim)).replace("@DEFS@", defs).replace("@ARCH@", arch).replace("@CXX@", cxx).replace("@RUN@", run)
    open(d + "/demo.sh", "w").write(sh)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
