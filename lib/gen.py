"""Regenerates the Unicode and IDNA tables from /repo's scripts and data, in
scratch, the way src/SConscript does, and builds the library's objects."""
import glob, os, subprocess
from concurrent.futures import ThreadPoolExecutor
import common
from common import REPO, run, ToolError

SCRIPTS = [  # output, script, data files
    ("unicode_categories.c", "categorize.py", ["unicode/UnicodeData.txt"]),
    ("unicode_lower_case.c", "lower_case.py", ["unicode/UnicodeData.txt"]),
    ("unicode_upper_case.c", "upper_case.py", ["unicode/UnicodeData.txt"]),
    ("unicode_canonical_combining_classes.c", "canonical_combining_classes.py", ["unicode/UnicodeData.txt"]),
    ("unicode_allowed_in_normal_form.c", "allowed_in_normal_form.py", ["unicode/DerivedNormalizationProps.txt"]),
    ("unicode_decomposition.c", "decomposition.py", ["unicode/UnicodeData.txt"]),
    ("unicode_recomposition.c", "recomposition.py", ["unicode/UnicodeData.txt", "unicode/CompositionExclusions.txt"]),
]


def sources():
    return sorted(f for f in glob.glob(os.path.join(REPO, "src", "*.c"))
                  if os.path.basename(f) != "gen_idna_table.c")


def archive(d, flags, cc="clang"):
    """all hand-written sources of the library as an archive"""
    os.makedirs(d, exist_ok=True)
    v = os.path.join(d, "fsdyn_version.c")
    with open(v, "w") as f:
        f.write('const char *fsdyn_version_tag = "F-S_v:: fsdyn check";\n')
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src")]

    def one(s):
        o = os.path.join(d, os.path.basename(s) + ".o")
        rc, out, err = run([cc, "-std=gnu11", "-w", "-c"] + flags + inc + [s, "-o", o], timeout=300)
        if rc != 0:
            raise ToolError("compiling %s: %s" % (s, err[-2000:]))
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, sources() + [v]))
    a = os.path.join(d, "libfs.a")
    if os.path.exists(a):
        os.unlink(a)
    rc, out, err = run(["ar", "rcs", a] + objs)
    if rc != 0:
        raise ToolError(err)
    return a


def generate_tables(d):
    """C sources of all generated tables"""
    os.makedirs(d, exist_ok=True)
    a = archive(os.path.join(d, "tool"), ["-g", "-O1"])
    exe = os.path.join(d, "gen_idna_table")
    rc, out, err = run(["clang", "-std=gnu11", "-w", "-g", "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"),
                        os.path.join(REPO, "src", "gen_idna_table.c"), a, "-o", exe])
    if rc != 0:
        raise ToolError("gen_idna_table: " + err[-2000:])
    jobs = [("idna_table.c", [exe, os.path.join(REPO, "idna/IdnaMappingTable.txt")])]
    for o, s, data in SCRIPTS:
        jobs.append((o, ["python3", os.path.join(REPO, "src", s)] + [os.path.join(REPO, x) for x in data]))

    def one(j):
        o, cmd = j
        p = os.path.join(d, o)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
        with open(p, "w") as f:
            r = subprocess.run(cmd, stdout=f, stderr=subprocess.PIPE, timeout=300, env=env, cwd=d)
        if r.returncode != 0:
            raise ToolError("%s: %s" % (o, r.stderr.decode("latin-1")[-2000:]))
        return p
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, jobs))


def table_objects(d, flags=("-O1",)):
    """the generated tables, compiled (they take long under sanitizers, so without)"""
    src = generate_tables(d)

    def one(s):
        o = s + ".o"
        rc, out, err = run(["gcc", "-std=gnu11", "-w", "-c", "-I" + os.path.join(REPO, "include")] + list(flags) + [s, "-o", o], timeout=600)
        if rc != 0:
            raise ToolError("compiling %s: %s" % (s, err[-2000:]))
        return o
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, src))
