"""Development aid: write /verif/seeded/<id>/ from a spec (file, old, new, demo source)."""
import json, os, subprocess
DEMO = '''#!/bin/bash
# exit 0: behaves as it should; nonzero: the planted bug shows
D="$(cd "$(dirname "$0")" && pwd)"; T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
C="$PWD/src/vmecpp/cpp"
g++ -std=c++20 -O1 -w -I"$D" -I"$C" -I/usr/include/eigen3 -I/usr/include/hdf5/serial %(flags)s "$D/demo.cc" %(srcs)s -o "$T/demo" %(libs)s || exit 3
cd "$T" && timeout 120 ./demo
'''
PYDEMO = '''#!/bin/bash
# exit 0: behaves as it should; nonzero: the planted bug shows
D="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/opt/vp/pyplugin REPO="$R"
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT; cd "$T"
timeout 120 /opt/vp/venv/bin/python -B "$D/demo.py"
'''
ABSL = "$(pkg-config --libs absl_status absl_statusor absl_str_format)"
LOGSTUB = '''#pragma once
#include <cstdlib>
#include <iostream>
#include "absl/strings/str_format.h"
// absl/log is not installed here: just enough of it to compile the code under test
struct AbslStub { bool fatal; template <class T> AbslStub& operator<<(const T&) { return *this; } ~AbslStub() { if (fatal) std::abort(); } };
#define LOG(x) (AbslStub{#x[0] == 'F'})
#define CHECK(c) (AbslStub{!(c)})
#define CHECK_EQ(a, b) CHECK((a) == (b))
#define CHECK_NE(a, b) CHECK((a) != (b))
#define CHECK_LT(a, b) CHECK((a) < (b))
#define CHECK_LE(a, b) CHECK((a) <= (b))
#define CHECK_GT(a, b) CHECK((a) > (b))
#define CHECK_GE(a, b) CHECK((a) >= (b))
#define CHECK_OK(s) CHECK((s).ok())
#define QCHECK(c) CHECK(c)
#define DCHECK(c) CHECK(c)
#define DCHECK_EQ(a, b) CHECK((a) == (b))
#define DCHECK_GE(a, b) CHECK((a) >= (b))
#define DCHECK_LT(a, b) CHECK((a) < (b))
#define VLOG(n) (AbslStub{false})
'''

def seed(id, prop, file, edits, needs, breaks, demo, srcs=(), libs="", flags="", stub=False, py=False):
    d = f"/verif/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    if isinstance(file, str):
        edits = [(file, o, n) for o, n in edits]
    for f, o, n in edits:
        s = open("/repo/" + f).read()
        assert s.count(o) == 1, (id, f, s.count(o), o)
        open("/repo/" + f, "w").write(s.replace(o, n))
    diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    open(d + "/patch.diff", "w").write(diff)
    if py:
        open(d + "/demo.py", "w").write(demo)
        open(d + "/demo.sh", "w").write(PYDEMO)
    else:
        open(d + "/demo.cc", "w").write(demo)
        open(d + "/demo.sh", "w").write(DEMO % dict(flags=flags, srcs=" ".join('"$C/%s"' % s for s in srcs), libs=libs))
    if stub:
        os.makedirs(d + "/absl/log", exist_ok=True)
        for n in ("log", "check"):
            open(f"{d}/absl/log/{n}.h", "w").write(LOGSTUB)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    print("wrote", id)
