#!/usr/bin/env python3
"""Makes planted bugs: plant.py SPEC.py [ID...]

SPEC.py defines BUGS: a list of dicts with id, property, needs, breaks, edits
[(file, old, new)], demo (the body of a C++ program) and optionally pre (text
before main) and flags.  Each is confirmed in a scratch copy of /repo: it
applies, builds, passes the stable tests, changes original lines, and its demo
passes without it and fails with it.  Confirmed bugs are written to seeded/ID.
"""
import json, os, shutil, subprocess, sys, importlib.util, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = "/tmp/plant"
OUT = os.environ.get("PLANT_OUT", HERE + "/seeded")
ANY = "PLANT_OUT" in os.environ  # bugs in repaired lines too: for practice
INC = "sources/include/utils/"

SYSOPS = '''// Stand-in for the sysops dependency, which is not available offline.
#pragma once
#include <cstddef>
#include <cstdlib>
namespace demo
{
inline int fail_next = 0;      // that many requests fail
inline int requests = 0, frees = 0, invalid = 0;
inline void *last_request = nullptr, *last_free = nullptr;
inline std::size_t last_size = 0, last_align = 0;
}
namespace sysops::memory
{
struct ops
{
    static int posix_memalign(void **p, std::size_t a, std::size_t s) noexcept
    {
        ++demo::requests;
        demo::last_size = s;
        demo::last_align = a;
        if (a < sizeof(void *) || (a & (a - 1))) { ++demo::invalid; *p = reinterpret_cast<void *>(8); return 22; }
        if (demo::fail_next > 0) { --demo::fail_next; *p = reinterpret_cast<void *>(8); return 12; }
        if (s > (std::size_t{1} << 40)) { *p = reinterpret_cast<void *>(8); return 12; }
        int r = ::posix_memalign(p, a, s);
        demo::last_request = *p;
        return r;
    }
    static void free(void *p) noexcept { ++demo::frees; demo::last_free = p; ::free(p); }
    static void *aligned_alloc(std::size_t a, std::size_t s) noexcept { ++demo::requests; return ::aligned_alloc(a, s); }
    static void *malloc(std::size_t s) noexcept { ++demo::requests; return ::malloc(s); }
};
}
'''
PRELUDE = '''#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <bitset>
#include <cassert>
#include <chrono>
#include <climits>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <memory>
#include <new>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>
#include <string_view>
#include <thread>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
'''
COMMON = r'''
namespace um = utils::memory;
#define CHECK(x) do { if (!(x)) { std::printf("line %d: %s does not hold\n", __LINE__, #x); std::fflush(stdout); ::_exit(1); } } while (0)
// a user's upstream resource that keeps account
struct Up : um::memory_resource
{
    friend class um::memory_resource;
    Up() : um::memory_resource(&Up::allocate<Up>, &Up::deallocate<Up>) {}
    bool is_equal(const um::memory_resource &o) const noexcept override { return &o == this; }
    void *allocate_impl(std::size_t s, std::size_t a) noexcept
    {
        ++allocs; size = s; align = a;
        if (fail) return nullptr;
        if (next) { void *p = next; next = nullptr; return p; }
        if (s > (std::size_t{1} << 40)) return nullptr;
        return std::aligned_alloc(a < 16 ? 16 : a, (s + 4095) / 4096 * 4096 + (a > 4096 ? a : 0));
    }
    void deallocate_impl(void *p) noexcept { ++deallocs; freed = p; }
    int allocs = 0, deallocs = 0;
    bool fail = false;
    void *next = nullptr, *freed = nullptr;
    std::size_t size = 0, align = 0;
};
// does f end in abort()?
template <class F>
bool aborts(F f)
{
    std::fflush(nullptr);
    pid_t c = fork();
    if (c == 0)
    {
        ::close(2);
        f();
        ::_exit(0);
    }
    int st = 0;
    ::waitpid(c, &st, 0);
    return WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT;
}
'''
DEMO_SH = '''#!/bin/bash
# Exit 0: the property holds in this demonstration.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
ulimit -c 0
g++ -std=c++17 %s -w -pthread -include "$d/prelude.h" -I"$d" -Isources/include "$d/demo.cpp" -o "$t/demo"
r=$?
if [ $r = 0 ]; then (cd "$t" && timeout 100 ./demo); r=$?; fi
rm -f "$t/demo"
rmdir "$t"
exit $r
'''

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def tests_pass(root):
    b = root + "/_vb"
    r = sh("CC=/usr/bin/gcc CXX=/usr/bin/g++ cmake -S /opt/vp/cmake -B %s -G Ninja -DCMAKE_BUILD_TYPE=Debug -DREPO=%s && ninja -C %s" % (b, root, b))
    if r.returncode:
        return "build fails\n" + r.stdout[-1500:]
    r = sh("ctest --test-dir %s -j8 --timeout 300" % b)
    if r.returncode or "tests passed, 0 tests failed out of 54" not in r.stdout.replace("100% ", ""):
        return "tests fail\n" + r.stdout[-1500:]
    return ""

def main():
    spec = importlib.util.spec_from_file_location("spec", sys.argv[1])
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    want = sys.argv[2:]
    if not os.path.isdir(SCRATCH):
        subprocess.check_call(["cp", "-a", "/repo", SCRATCH])
    sh("git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (SCRATCH, SCRATCH))
    base = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.strip()
    for b in m.BUGS:
        if want and b["id"] not in want:
            continue
        sh("git -C %s checkout -q -- ." % SCRATCH)
        err = ""
        removed_original = False
        for f, old, new in b["edits"]:
            p = os.path.join(SCRATCH, INC + f)
            s = open(p).read()
            if s.count(old) != 1:
                err = "%s: %d matches of %r" % (f, s.count(old), old[:60]); break
            open(p, "w").write(s.replace(old, new))
        if err:
            print(b["id"], "REJECT", err); continue
        diff = sh("git -C %s diff" % SCRATCH).stdout
        for f, _, _ in b["edits"]:
            orig = sh("git -C /repo show %s:%s" % (base, INC + f)).stdout.splitlines()
            for l in diff.splitlines():
                if l.startswith("-") and not l.startswith("---") and l[1:] in orig and l[1:].strip() not in ("", "{", "}"):
                    removed_original = True
        if not removed_original and not ANY:
            print(b["id"], "REJECT changes no original line"); continue
        d = os.path.join(OUT, b["id"])
        os.makedirs(d + "/sysops", exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/prelude.h", "w").write(PRELUDE)
        open(d + "/sysops/memory_ops.h", "w").write(SYSOPS)
        open(d + "/demo.cpp", "w").write("#include <utils/utils.h>\n" + COMMON + b.get("pre", "") + "\nint main()\n{\n" + b["demo"].strip("\n") + "\n    return 0;\n}\n")
        open(d + "/demo.sh", "w").write(DEMO_SH % b.get("flags", "-O1"))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        bad = sh("bash %s/demo.sh" % d, cwd=SCRATCH)
        err = tests_pass(SCRATCH)
        sh("git -C %s checkout -q -- ." % SCRATCH)
        good = sh("bash %s/demo.sh" % d, cwd=SCRATCH)
        if good.returncode != 0: err += " demo fails unpatched (%d): %s" % (good.returncode, good.stdout[-800:])
        if bad.returncode == 0: err += " demo passes patched"
        if bad.returncode == 3 or "error:" in bad.stdout: err += " demo does not compile patched: " + bad.stdout[-800:]
        if err:
            print(b["id"], "REJECT", err); shutil.rmtree(d); continue
        print(b["id"], "ok:", bad.stdout.strip().splitlines()[-1] if bad.stdout.strip() else "rc=%d" % bad.returncode)
    sh("git -C %s checkout -q -- ." % SCRATCH)
main()
