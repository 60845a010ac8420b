#!/usr/bin/env python3
"""Small systematic changes to the library: which of those that pass its tests
do the checks notice?  mutate.py OUT.jsonl [FILE-PART] - continues where OUT ends.

Not part of any check: a way to find what the checks do not look at.
"""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INC = "sources/include/utils/"
FILES = {
    "memory/simple_resource.h": "D02 A02 A03 A01 A06 A05 A04 A07 H01 C03 C04 C05",
    "memory/monotonic_buffer_resource.h": "D02 B02 B01 A07 H01 C03 C04 C05",
    "memory/allocator.h": "D01 D02 A07 C03",
    "memory/memory.h": "C01 C02 I01 I02 D02 C03 D01 A04 H01",
    "timer.h": "E01 E02 E03 C04 C05",
    "fast_pimpl.h": "F02 F01 C04 C05",
    "common.h": "I02 J01 J02 A02 A03 A01 A04 A06 B02 G01 H01",
    "details/cxz.h": "A02 A03 A01 A06 B02 G01 H01",
    "ctz.h": "A02 A03 B02", "clz.h": "A02 A03 B02",
}
# parts of common.h that the claimed properties rest on
COMMON = re.compile(r"abort_if|ABORT_IF|UTILS_FUNC|skip_to|align|power_of_2|uint_from_nbits|bits_count|occupied|num_of_|memvcmp|concatenate|make_array|make_zero|make_element|for_each")
sh = lambda c, **k: subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def swaps(line):
    pairs = [(" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" != ", " == "),
             (" && ", " || "), (" || ", " && "), (" + ", " - "), (" - ", " + "), (" * ", " / "), (" / ", " * "),
             (" & ", " | "), (" << ", " >> "), ("std::max", "std::min"), ("std::min", "std::max"), ("not ", ""), ("++", "--"),
             ("--", "++"), ("true", "false"), ("false", "true"), ("prev", "next"), ("next", "prev"), ("is_nothrow_copy", "is_nothrow_move"),
             ("is_nothrow_move", "is_nothrow_copy"), ("_constructible", "_assignable"), ("_assignable", "_constructible"),
             ("aFirst", "aLast"), ("aLast", "aFirst"), ("aFreeFirst", "aFirst"), ("aFreeLast", "aLast"), ("aSize", "aAlignment"),
             ("aAlignment", "aSize"), ("free_count_", "busy_count_"), ("nullptr", "data_"), ("BlockSize", "MaxBlockCount"),
             ("block_count_", "kMaxBlockCount"), ("alignof", "sizeof"), ("sizeof", "alignof"), ("aLhs", "aRhs"), ("aRight", "aLeft"), ("aLeft", "aRight"),
             ("std::size_t", "std::uint32_t"), ("BIndex", "std::uint8_t"), ("&&aOther", "&aOther"), ("const auto", "static const auto"),
             ("std::byte *pointer", "static std::byte *pointer"), ("get_default_resource()", "system_memory_resource()"),
             ("aOther.callback_", "callback_"), ("start_", "clock::now()"), ("microseconds", "milliseconds")]
    for a, b in pairs:
        for m in re.finditer(re.escape(a), line):
            yield line[:m.start()] + b + line[m.end():]
    for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", line):
        n = int(m.group(1))
        for k in {n + 1, max(0, n - 1)} - {n}:
            yield line[:m.start()] + str(k) + line[m.end():]
    for m in re.finditer(r"!(?=[\w(])", line):
        yield line[:m.start()] + line[m.end():]
    for m in re.finditer(r"std::move\((\w+(?:\.get\(\))?)\)|std::forward<\w+>\((\w+)\)", line):
        yield line[:m.start()] + (m.group(1) or m.group(2)) + line[m.end():]
    for m in re.finditer(r"\bif \((.*)\)\s*$", line):
        yield line[:m.start(1)] + "true" + line[m.end(1):]
        yield line[:m.start(1)] + "false" + line[m.end(1):]
    for m in re.finditer(r"noexcept\((.*)\)\s*$", line):
        yield line[:m.start(1)] + "true" + line[m.end(1):]
        yield line[:m.start(1)] + "false" + line[m.end(1):]
    for m in re.finditer(r"return (.*);", line):
        if m.group(1) not in ("*this",):
            yield line[:m.start(1)] + "{}" + line[m.end(1):]

def mutants(f, text):
    lines = text.split("\n")
    in_common = False
    msvc = False
    for i, l in enumerate(lines):
        s = l.strip()
        if "_MSC_VER" in s:
            msvc = s.startswith(("#if", "#elif"))
        elif s.startswith(("#else", "#elif", "#endif")):
            msvc = False
        if msvc:
            continue
        if not s or s.startswith(("//", "#include", "#ifndef", "#define utils_", "#endif", "static_assert", "template", "typename", "friend", "namespace", "assert(", "using ")):
            continue
        if f == "common.h" and not any(COMMON.search(x) for x in lines[max(0, i - 8):i + 3]):
            continue
        seen = set()
        for n in swaps(l):
            if n != l and n not in seen:
                seen.add(n)
                yield i, n
        prev = lines[i - 1].strip() if i else ""
        if s.endswith(";") and re.match(r"(std::)?[\w.>*-]+(\(| =|\+\+|--)|\+\+|--|\(void\)", s) and not s.startswith("return") and prev.endswith((";", "{", "}", ")")):
            yield i, l[:len(l) - len(l.lstrip())] + ";"

REPO = os.environ.get("MUT_REPO", "/repo")  # a copy that does not change meanwhile

def tests_pass(root):
    b = root + "/_vb"
    r = sh("CC=/usr/bin/gcc CXX=/usr/bin/g++ cmake -S /opt/vp/cmake -B %s -G Ninja -DCMAKE_BUILD_TYPE=Debug -DREPO=%s && ninja -j2 -C %s" % (b, root, b))
    if r.returncode:
        return "no build"
    r = sh("timeout 120 ctest --test-dir %s -j4 --timeout 20" % b)
    return "" if "tests passed, 0 tests failed out of 54" in r.stdout else "tests"

def main():
    out = sys.argv[1]
    part = sys.argv[2] if len(sys.argv) > 2 else ""
    done = {}
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done[d["key"]] = d
    todo = []
    for f in FILES:
        if part not in f or not os.path.exists(REPO + "/" + INC + f):
            continue
        text = open(REPO + "/" + INC + f).read()
        for i, n in mutants(f, text):
            key = hashlib.sha1(("%s:%s:%s" % (f, text.split("\n")[i] + str(text.split("\n")[:i].count(text.split("\n")[i])), n)).encode()).hexdigest()[:12]
            if key not in done and key not in [t[0] for t in todo]:
                todo.append((key, f, i, n))
    import queue, random, threading
    random.Random(1).shuffle(todo)
    print(len(todo), "changes to try", flush=True)
    q = queue.Queue()
    for w in range(int(os.environ.get("MUT_JOBS", "2"))):
        r = "/tmp/mut%d" % w
        shutil.rmtree(r, ignore_errors=True)
        subprocess.check_call(["cp", "-a", REPO, r])
        q.put(r)
    log, lock = open(out, "a"), threading.Lock()
    def one(t):
        key, f, i, n = t
        r = q.get()
        try:
            p = r + "/" + INC + f
            text = open(REPO + "/" + INC + f).read().split("\n")
            old, text[i] = text[i], n
            open(p, "w").write("\n".join(text))
            res, by = judge(r, f)
            shutil.copy(REPO + "/" + INC + f, p)
            shutil.rmtree(r + "-build", ignore_errors=True)
            with lock:
                log.write(json.dumps(dict(key=key, file=f, line=i + 1, old=old.strip(), new=n.strip(), result=res, by=by)) + "\n")
                log.flush()
        finally:
            q.put(r)
    with cf.ThreadPoolExecutor(q.qsize()) as ex:
        list(ex.map(one, todo))

def judge(r, f):
    # the stable tests do not include the four headers that need sysops
    x = sh("g++ -std=c++17 -fsyntax-only -include %s/sim/include/prelude.h -I%s/sources/include -I%s/sim/include -x c++ %s/%s%s" % (HERE, r, HERE, r, INC, f))
    if x.returncode: return "no build", ""
    if "memory/" not in f:
        res = tests_pass(r)
        if res: return res, ""
    env = dict(os.environ, VERIF_REPO=r, VERIF_BUILD=r + "-build", VERIF_SCALE=os.environ.get("VERIF_SCALE", "0.15"))
    for p in FILES[f].split():
        x = subprocess.run(["python3", HERE + "/check.py", p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if x.returncode == 1: return "caught", p + " " + x.stdout.strip().split("\n")[0][:160]
        if x.returncode: return ("no build" if "error:" in x.stdout else "error"), x.stdout.strip()[-300:]
    return "SURVIVED", ""

main()
