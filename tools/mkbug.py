#!/usr/bin/env python3
"""mk.py ID PROPERTY 'needs' 'breaks' FILE <<< edits ; edits given as python file /tmp/bug/ID.py with EDITS=[(file,old,new)], DEMO (c++), SRCS"""
import os, sys, subprocess, json, shutil, tempfile
V='/verif/seeded'
def make(id, prop, needs, breaks, edits, demo, srcs=(), flags='', shim=False, pre=''):
    d=tempfile.mkdtemp(prefix='nfbug.')
    for p in ('a','b'):
        os.makedirs(d+'/'+p)
        for s in ('include','src'):
            subprocess.check_call(['cp','-a','/repo/'+s,d+'/'+p+'/'])
    for f,o,n in edits:
        p=d+'/b/'+f; s=open(p).read()
        assert s.count(o)==1,(f,s.count(o),o)
        open(p,'w').write(s.replace(o,n))
    r=subprocess.run(['git','diff','--no-index','--no-prefix','a','b'],cwd=d,stdout=subprocess.PIPE,text=True)
    out=V+'/'+id; os.makedirs(out,exist_ok=True)
    open(out+'/patch.diff','w').write(r.stdout)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(out+'/meta.json','w'),indent=1)
    open(out+'/demo.cpp','w').write(demo)
    src=' '.join('src/'+s for s in srcs)
    inc='-I"$here/shim" ' if shim else ''
    open(out+'/demo.sh','w').write('''#!/bin/bash
# exit 0 when the property holds for the demonstrated case
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
g++ -std=c++20 -O1 -w %s%s -Iinclude "$here/demo.cpp" %s -o "$w/demo" -lpthread || exit 3
timeout 120 "$w/demo"
''' % (inc,flags,src))
    for side in ('a','b'):
        rr=subprocess.run(['bash',out+'/demo.sh'],cwd=d+'/'+side,stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True)
        print(id,side,rr.returncode,(rr.stderr[-600:] if side=='a' and rr.returncode else ''))
        if (rr.returncode==0)!=(side=='a') or rr.returncode==3: print('BAD',rr.stderr[-1500:])
    shutil.rmtree(d)


SKIP=("timeIntegration/rungeKutta.cpp","finiteVolume/cellCentred/operators/expression.cpp","linearAlgebra/ginkgo.cpp","core/mpi/halfDuplexCommBuffer.cpp","mesh/unstructured/communicator.cpp")
def makek(id, prop, needs, breaks, edits, demo, threads=False, mpi=False, flags='', srcs=None, gen=()):
    """a bug in the parts that need Kokkos; the demonstration brings a stand-in of it"""
    d=tempfile.mkdtemp(prefix='nfbug.')
    for p in ('a','b'):
        os.makedirs(d+'/'+p)
        for s in ('include','src'):
            subprocess.check_call(['cp','-a','/repo/'+s,d+'/'+p+'/'])
    for f,o,n in edits:
        p=d+'/b/'+f; s=open(p).read()
        assert s.count(o)==1,(f,s.count(o),o)
        open(p,'w').write(s.replace(o,n))
    r=subprocess.run(['git','diff','--no-index','--no-prefix','a','b'],cwd=d,stdout=subprocess.PIPE,text=True)
    out=V+'/'+id; os.makedirs(out,exist_ok=True)
    open(out+'/patch.diff','w').write(r.stdout)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(out+'/meta.json','w'),indent=1)
    open(out+'/demo.cpp','w').write(demo)
    shutil.copytree('/verif/tools/demo/shim',out+'/shim',dirs_exist_ok=True)
    shutil.copy('/verif/tools/demo/demo.hpp',out+'/demo.hpp')
    if mpi: shutil.copy('/verif/tools/demo/mpi.h',out+'/shim/mpi.h')
    find='find src -name "*.cpp"' if srcs is None else 'ls '+' '.join('src/'+x for x in srcs)
    skip=[x for x in SKIP if not (mpi and ('mpi/' in x or 'communicator' in x))]
    if threads: flags+=' -DNF_DEMO_THREADS -fsanitize=thread'
    if mpi: flags+=' -DNF_WITH_MPI_SUPPORT'
    open(out+'/demo.sh','w').write('''#!/bin/bash
# exit 0 when the property holds for the demonstrated case
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
flags="-std=c++20 -O0 -w -DNF_WITH_GINKGO=0 -DNF_WITH_PETSC=0 -DNF_WITH_SUNDIALS=0 -DNEOFOAM_DP_SCALAR=1 %s -I$here/shim -I$here -Iinclude"
{ %s | grep -v "%s"; echo "$here/demo.cpp"; } | xargs -P 8 -I{} bash -c 'clang++ $0 -c "$2" -o "$1/$(echo "$2" | tr / _).o" || exit 255' "$flags" "$w" {} || exit 3
clang++ $flags "$w"/*.o -o "$w/demo" -lpthread || exit 3
%stimeout 120 "$w/demo"
''' % (flags,find,'\\|'.join(skip),'TSAN_OPTIONS=exitcode=9 ' if threads else ''))
    for side in ('a','b'):
        rr=subprocess.run(['bash',out+'/demo.sh'],cwd=d+'/'+side,stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True)
        print(id,side,rr.returncode,rr.stdout[-300:],(rr.stderr[-900:] if side=='a' and rr.returncode else ''))
        if (rr.returncode==0)!=(side=='a') or rr.returncode==3: print('BAD',rr.stderr[-1500:])
    shutil.rmtree(d)
