#!/usr/bin/env python3
"""Development aid. Planted bugs described in a python file: each is BUG(id, property, edits=[(file, old, new)], demo=C++ text, needs, breaks).
Writes /verif/seeded/<id>/ with the patch made in the scratch copy /dev/shm/sw."""
import json, os, subprocess, sys
W = '/dev/shm/sw'
PRE = r'''#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <thread>
#include <vector>
#include <atomic>
#define CHECK(x) do { if (!(x)) { printf("line %d: %s\n", __LINE__, #x); exit(1); } } while (0)
'''
SH = r'''#!/bin/bash
# Exit 0 when the behaviour is right, nonzero otherwise. Run with cwd = the repository after its build.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf -- "$T"' EXIT
g++ -std=c++17 -O1 -g -fsigned-char -pthread EXTRA -I. "$D/demo.cc" LIBS -llzma -llz4 -lzstd -lz -lpthread -o "$T/demo" || exit 2
cd "$T" && timeout 200 ./demo "$T"
'''
def BUG(id, prop, edits, demo, needs, breaks, extra="", libs="_build/libtkrzw.a", sh=None):
    only = sys.argv[2:]
    if only and id not in only: return
    subprocess.check_call("git -C %s fetch -q /repo HEAD && git -C %s checkout -q -- . && git -C %s checkout -q FETCH_HEAD" % (W, W, W), shell=True)
    for f, a, b in edits:
        p = os.path.join(W, f); s = open(p).read()
        assert s.count(a) == 1, (id, f, s.count(a), a)
        open(p, 'w').write(s.replace(a, b))
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    diff = subprocess.check_output(['git', '-C', W, 'diff'])
    open(d + '/patch.diff', 'wb').write(diff)
    subprocess.check_call(['git', '-C', W, 'checkout', '-q', '--', '.'])
    open(d + '/demo.cc', 'w').write(PRE + demo)
    open(d + '/demo.sh', 'w').write(sh or SH.replace('EXTRA', extra).replace('LIBS', libs))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + '/meta.json', 'w'), indent=1)
    print('wrote', id)
exec(open(sys.argv[1]).read())
