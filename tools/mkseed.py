#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE OLD NEW NEEDS BREAKS DEMO.c : make a planted bug in a scratch copy and confirm its demonstration."""
import sys, os, subprocess, json, shutil
ID, PROP, FILE, OLD, NEW, NEEDS, BREAKS, DEMO = sys.argv[1:9]
W = '/tmp/seed-' + ID
shutil.rmtree(W, ignore_errors=True)
subprocess.check_call(['cp', '-a', '/repo', W])
p = os.path.join(W, FILE)
s = open(p).read()
assert s.count(OLD) == 1, ('occurrences', s.count(OLD))
open(p, 'w').write(s.replace(OLD, NEW))
diff = subprocess.check_output(['git', '-C', W, 'diff']).decode()
d = '/verif/seeded/' + ID
os.makedirs(d, exist_ok=True)
open(d + '/patch.diff', 'w').write(diff)
if os.path.abspath(DEMO) != d + '/demo.c':
    shutil.copy(DEMO, d + '/demo.c')
san = os.environ.get('SAN', '')
open(d + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0: behaves; nonzero: the planted fault shows. Run with cwd = the built repository.
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 9
trap 'rm -r "$T"' EXIT
gcc -std=gnu11 -D_GNU_SOURCE -w -O1 -g -march=haswell -mfpmath=sse %s -Iheaders -Iheaders/RadarKit -Isource -Isource/ext -o "$T/demo" "$H/demo.c" libradarkit.a -Wl,-z,muldefs -lfftw3f -lnetcdf -lz -lssl -lcrypto -lpthread -lm -lrt || exit 9
cd "$T" && timeout 120 "$T/demo"
''' % san)
os.chmod(d + '/demo.sh', 0o755)
json.dump(dict(property=PROP, needs=NEEDS, what_it_breaks=BREAKS), open(d + '/meta.json', 'w'), indent=1)
r0 = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
b = subprocess.run('make -f /opt/vp/radarkit.mk CC=gcc -j7 libradarkit.a 2>&1 | tail -3', shell=True, cwd=W, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
r1 = subprocess.run(['bash', d + '/demo.sh'], cwd=W, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
print(ID, 'clean', r0.returncode, 'patched', r1.returncode, 'OK' if r0.returncode == 0 and r1.returncode not in (0, 9) else 'BAD')
if r0.returncode or r1.returncode in (0, 9):
    print(r0.stdout.decode()[-800:], '\n--\n', r1.stdout.decode()[-800:], b.stdout.decode()[-300:])
shutil.rmtree(W, ignore_errors=True)
