"""usage: mkseed.py ID PROPERTY FILE 'old' 'new' NEEDS BREAKS DEMO_CPP [np] [repo sources...] -- writes /verif/seeded/ID"""
import sys, os, subprocess, json, shutil
V = os.environ.get('V', '/verif')
RP = os.environ.get('REPO', '/repo')
def mkseed(id, prop, edits, needs, breaks, demo, np=0, sources=(), helpers=('vh.hpp', 'fakecart.hpp'), extra={}, script=None):
    d = V + '/seeded/' + id
    os.makedirs(d, exist_ok=True)
    wt = '/tmp/seedwt'
    subprocess.run(['rm', '-rf', wt]); subprocess.check_call(['git', 'clone', '-q', RP, wt])
    for f, old, new in edits:
        s = open(wt + '/' + f).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(wt + '/' + f, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', '-C', wt, 'diff']).decode()
    open(d + '/patch.diff', 'w').write(diff)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo.cpp', 'w').write(demo)
    for h in helpers:
        shutil.copy(V + '/harness/' + h, d + '/' + h)
    for k, v in extra.items():
        open(d + '/' + k, 'w').write(v)
    run = '"$T/demo"' if np == 0 else 'mpirun --oversubscribe --bind-to none -np %d "$T/demo"' % np
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0: behaves as stated; nonzero: property broken
D=$(cd "$(dirname "$0")" && pwd)
R=${REPO:-/repo}
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_mpi_yield_when_idle=1 OMP_NUM_THREADS=2 OMP_WAIT_POLICY=passive
g++ -std=c++17 -O1 -w -fopenmp -DNDEBUG -DDISCOTEC_USE_LZ4 -DTIMING -DOMPI_SKIP_MPICXX -I$R/src -I"$D" -isystem /usr/lib/x86_64-linux-gnu/openmpi/include "$D/demo.cpp" %s -o "$T/demo" -lmpi -lboost_serialization -lboost_system -lboost_program_options -lboost_date_time -llz4 || exit 3
cd "$T"
timeout 200 %s > out.txt 2>&1; rc=$?
tail -5 out.txt
[ $rc -eq 0 ] && grep -q DONE out.txt && ! grep -q '^FAIL' out.txt
''' % (' '.join('$R/' + s for s in sources), run))
    if script:
        t = open(d + '/demo.sh').read()
        open(d + '/demo.sh', 'w').write(script(t))
    os.chmod(d + '/demo.sh', 0o755)
    # confirm locally: passes on /repo, fails on the changed copy
    a = subprocess.run(['bash', d + '/demo.sh'], env=dict(os.environ, REPO=RP), capture_output=True, text=True)
    b = subprocess.run(['bash', d + '/demo.sh'], env=dict(os.environ, REPO=wt), capture_output=True, text=True)
    print(id, 'clean', a.returncode, 'patched', b.returncode)
    if a.returncode or not b.returncode or b.returncode == 3:
        print(a.stdout[-1500:], a.stderr[-1500:], b.stdout[-1500:], b.stderr[-1500:])
    subprocess.run(['rm', '-rf', wt])
