#!/usr/bin/env python3
# Runs conform.cpp under Open MPI and under the simulator (all four policies) and compares what every rank printed for every case.
import os, sys, subprocess, tempfile, shutil
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(VERIF, 'bin')); import check
check.REPO = REPO
T = tempfile.mkdtemp(prefix='conform.'); inc = os.path.join(T, 'inc'); check.config_header('stock', inc)
src = [os.path.join(REPO, 'src', f) for f in ('heffte_compute_transform.cpp', 'heffte_plan_logic.cpp', 'heffte_reshape3d.cpp')]
env = dict(os.environ, OMPI_CXX='g++', OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMPI_MCA_rmaps_base_oversubscribe='1', OMPI_MCA_hwloc_base_binding_policy='none', OMPI_MCA_mpi_yield_when_idle='1', OMPI_MCA_btl='self,vader', OMPI_MCA_pml='ob1', OMPI_MCA_btl_vader_single_copy_mechanism='none', OMPI_MCA_plm='isolated')
fl = ['-std=c++17', '-O1', '-pthread', '-mavx', '-mfma', '-I' + inc, '-I' + os.path.join(REPO, 'include')]
def sh(c):
    r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, text=True, env=env, timeout=1200)
    if r.returncode: print(' '.join(c) + '\n' + r.stdout[-3000:]); shutil.rmtree(T); sys.exit(2)
    return r.stdout
me = os.path.join(VERIF, 'conform/conform.cpp')
real, simb = os.path.join(T, 'real'), os.path.join(T, 'sim')
sh(['mpicxx'] + fl + [me] + src + ['-o', real])
o = []
for s in src + [me, os.path.join(VERIF, 'sim/mpisim.cpp'), os.path.join(VERIF, 'harness/mc.cpp')]:
    p = os.path.join(T, os.path.basename(s) + '.o'); o.append(p)
    sh(['g++', '-DSIM', '-I' + os.path.join(VERIF, 'sim'), '-I' + os.path.join(VERIF, 'harness')] + fl + ['-fdata-sections', '-c', s, '-o', p])
sh(['g++', '-pthread'] + o + ['-Wl,-T,' + os.path.join(VERIF, 'sim/ranks.ld'), '-o', simb])
bad = total = 0
for np in [int(x) for x in sys.argv[1:]] or [1, 2, 3, 4, 6, 8]:
    sh(['mpirun', '-np', str(np), real, os.path.join(T, 'out')])
    want = ''.join(open(os.path.join(T, 'out.%d' % i)).read() for i in range(np))
    for policy in range(4):
        got = sh([simb, str(np), str(policy)]); total += len(want.splitlines())
        d = [(a, b) for a, b in zip(want.splitlines(), got.splitlines()) if a != b]
        if want != got: bad += 1; print('np=%d policy=%d: %d lines differ of %d and %d' % (np, policy, len(d), len(want.splitlines()), len(got.splitlines())), d[:2])
    print('np=%d: %d rank histories under Open MPI' % (np, len(want.splitlines())), flush=True)
shutil.rmtree(T)
print('CONFORM', 'differs' if bad else 'equal', total, 'comparisons'); sys.exit(1 if bad else 0)
