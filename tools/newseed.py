"""Developer tool: create /verif/seeded/<id>/ from a spec (python file defining seed(...) calls)."""
import sys, os, json, subprocess, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# builds the program beside this script against the freshly built library and runs it
here=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
K=@KIND@; B=/repo/@BUILD@
P=/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-$K
S=/usr/lib/slepcdir/slepc3.19/x86_64-linux-gnu-$K
M=/usr/lib/x86_64-linux-gnu/openmpi
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self OMP_NUM_THREADS=1
g++ -std=gnu++14 -O1 -w -DHPGEM_FORCE_ASSERTS -DHPGEM_LOGLEVEL=Log::DEFAULT -DHPGEM_USE_ANY_PETSC @DEF@ -DHPGEM_USE_METIS -DHPGEM_USE_MPI -DHPGEM_USE_SLEPC \
  -I/repo/kernel -I$B/kernel -I/repo/applications @INC@ -isystem $M/include -isystem $M/include/openmpi -isystem $P/include -isystem $S/include \
  "$here/demo.cpp" -o "$T/demo" @LIBS@ $B/kernel/libHPGEM.a /usr/lib/x86_64-linux-gnu/libmetis.so $P/lib/libpetsc_$K.so $S/lib/libslepc_$K.so $B/kernel/libLogger.a \
  $M/lib/libmpi_cxx.so $M/lib/libmpi.so /usr/lib/x86_64-linux-gnu/libblas.so /usr/lib/x86_64-linux-gnu/liblapack.so -ldl \
  -Wl,-rpath,$P/lib:$S/lib:$M/lib || exit 2
cd "$T" && "$T/demo"
'''


def seed(id, prop, edits, demo, needs, breaks, kind="complex", inc="", libs="", script=None):
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp()
    try:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", tmp + "/w"])
        for f, old, new in edits:
            p = os.path.join(tmp, "w", f)
            s = open(p).read()
            n = s.count(old)
            assert n == 1, "%s: %s: %d matches of %r" % (id, f, n, old[:60])
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", tmp + "/w", "diff"], text=True)
    finally:
        subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", tmp + "/w"])
        shutil.rmtree(tmp)
    assert diff
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    if demo is not None:
        open(d + "/demo.cpp", "w").write(demo)
    s = script or DEMO.replace("@KIND@", kind).replace("@BUILD@", "_build" if kind == "complex" else "_build_real").replace("@DEF@", "-DHPGEM_USE_COMPLEX_PETSC" if kind == "complex" else "").replace("@INC@", inc).replace("@LIBS@", libs)
    open(d + "/demo.sh", "w").write(s)
    os.chmod(d + "/demo.sh", 0o755)
    print("seed", id)


exec(open(sys.argv[1]).read())
