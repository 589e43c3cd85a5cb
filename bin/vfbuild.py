#!/usr/bin/env python3
"""Content-addressed build of eckit (from /repo's working tree) and of the harnesses, per sanitizer variant.

An object is reused only when its flags, its source and every header it included have the same content as when it was
compiled: no time stamps are involved, so a changed /repo is always seen and an unchanged one costs only hashing.
"""
import concurrent.futures as cf, fnmatch, glob, hashlib, json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, "build"))
JOBS = int(os.environ.get("VF_JOBS", "8"))
SRC = os.path.join(REPO, "src")
GEN = os.path.join(BUILD, "gen")
GUARD = "ECKIT_VERIF_HOOKS"

CXX = "clang++"
COMMON = ["-std=gnu++17", "-fPIC", "-w", "-DNDEBUG", "-D" + GUARD + "=1", "-pipe", "-fno-omit-frame-pointer", "-gline-tables-only"]
VARIANTS = {
    # vptr needs RTTI symbols across shared objects built with -Bsymbolic etc.; everything else in "undefined" is on and fatal
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr,nonnull-attribute"],
    "tsan": ["-O1", "-fsanitize=thread"],
    "plain": ["-O1"],
}

MPI_INC = ["-I/usr/lib/x86_64-linux-gnu/openmpi/include", "-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"]
EIGEN = ["-isystem", "/usr/include/eigen3"]
CORE_DIRS = "bases compat config container exception filesystem io log memory message net os parser persist runtime serialisation system testing thread transaction types utils value".split()
# sources the project's CMake leaves out (templates included from headers, other platforms, absent third-party libraries)
EXCLUDE = set("""container/BTree.cc container/BloomFilter.cc container/CacheLRU.cc container/MappedArray.cc
container/SharedMemArray.cc container/Trie.cc container/bsptree/BSPNode.cc container/kdtree/KDNode.cc
container/sptree/SPNode.cc filesystem/BasePathNameT.cc io/FileBase.cc io/rados/* linalg/dense/LinearAlgebraCUDA.cc
linalg/dense/LinearAlgebraMKL.cc linalg/dense/LinearAlgebraTorch.cc linalg/detail/Torch.cc linalg/sparse/LinearAlgebraCUDA.cc
linalg/sparse/LinearAlgebraHIP.cc linalg/sparse/LinearAlgebraMKL.cc linalg/sparse/LinearAlgebraTorch.cc
option/FactoryOption.cc option/SimpleOption.cc option/VectorOption.cc runtime/PipeHandler.cc serialisation/Reanimator.cc
sql/SQLIteratorOutput.cc sql/SQLMATCHSubquerySession.cc sql/SQLMATCHSubquerySessionOutput.cc
sql/expression/ShiftedColumnExpression.cc sql/expression/function/FunctionMATCH.cc system/SystemInfoFreeBSD.cc
system/SystemInfoMacOSX.cc maths/Functions.cc transaction/TxnLog.cc types/Types.cc utils/AECCompressor.cc utils/RLE.cc""".split())

COMPONENTS = {
    "eckit": dict(dirs=CORE_DIRS, inc=["-I/usr/include/uuid"],
                  libs=["-lsnappy", "-llz4", "-lbz2", "-lcrypto", "-lssl", "-lcurl", "-luuid", "-ldl", "-lpthread", "-lm"]),
    "eckit_sql": dict(dirs=["sql"], deps=["eckit"]),
    "eckit_geometry": dict(dirs=["geometry"], deps=["eckit"]),
    "eckit_linalg": dict(dirs=["linalg"], deps=["eckit"], inc=EIGEN, libs=["-lopenblas"]),
    "eckit_maths": dict(dirs=["maths"], deps=["eckit"], inc=EIGEN, libs=["-lopenblas", "-lqhullcpp", "-lqhull_r"]),
    "eckit_option": dict(dirs=["option"], deps=["eckit"]),
    "eckit_codec": dict(dirs=["codec"], deps=["eckit"]),
    "eckit_spec": dict(dirs=["spec"], deps=["eckit"]),
    "eckit_geo": dict(dirs=["geo"], deps=["eckit", "eckit_spec", "eckit_codec"], inc=EIGEN, libs=["-lproj", "-lshp", "-lzip"]),
    "eckit_mpi": dict(dirs=["mpi"], deps=["eckit"], inc=MPI_INC,
                      libs=["-L/usr/lib/x86_64-linux-gnu/openmpi/lib", "-lmpi"]),
    "eckit_distributed": dict(dirs=["distributed"], deps=["eckit", "eckit_mpi"], inc=MPI_INC),
    "eckit_web": dict(dirs=["web"], deps=["eckit"]),
}


def sha(b):
    return hashlib.sha256(b).hexdigest()


class Build:
    def __init__(self, variant, log=sys.stderr):
        self.variant = variant
        self.dir = os.path.join(BUILD, variant)
        self.log = log
        os.makedirs(os.path.join(self.dir, "obj"), exist_ok=True)
        os.makedirs(os.path.join(self.dir, "lib"), exist_ok=True)
        os.makedirs(os.path.join(self.dir, "bin"), exist_ok=True)
        self.mpath = os.path.join(self.dir, "manifest.json")
        try:
            self.manifest = json.load(open(self.mpath))
        except Exception:
            self.manifest = {}
        self.hcache = {}
        self.compiled = 0
        self.reused = 0
        self.dirty = False
        self.flags = COMMON + VARIANTS[variant]
        self.cxxid = sha(subprocess.run([CXX, "--version"], capture_output=True).stdout)[:12]

    # -- hashing
    def fhash(self, p):
        h = self.hcache.get(p)
        if h is None:
            try:
                with open(p, "rb") as f:
                    h = sha(f.read())
            except OSError:
                h = "missing"
            self.hcache[p] = h
        return h

    def incs(self, extra):
        return ["-I" + GEN, "-I" + os.path.join(VERIF, "config"),
                "-I" + os.path.join(SRC, "eckit/io/fam/openfam_mock"), "-I" + SRC] + list(extra)

    def sources(self, comp):
        out = []
        for d in COMPONENTS[comp]["dirs"]:
            base = os.path.join(SRC, "eckit", d)
            for root, _, files in os.walk(base):
                for f in files:
                    if not f.endswith(".cc"):
                        continue
                    p = os.path.join(root, f)
                    rel = os.path.relpath(p, os.path.join(SRC, "eckit"))
                    if any(fnmatch.fnmatch(rel, x) for x in EXCLUDE):
                        continue
                    out.append(p)
        if comp == "eckit":
            out.append(os.path.join(VERIF, "config/eckit/eckit_version.cc"))
            out.append(os.path.join(SRC, "eckit", "maths", "Functions.cc"))
        return sorted(out)

    # -- one object
    def plan(self, src, flags):
        """returns (objpath or None, key base)"""
        fk = sha(("\0".join(flags) + self.cxxid + CXX).encode())
        for ent in self.manifest.get(src, []):
            if ent["fk"] != fk:
                continue
            if all(self.fhash(p) == h for p, h in ent["deps"]):
                o = os.path.join(self.dir, "obj", ent["obj"])
                if os.path.exists(o):
                    return o, fk
        return None, fk

    def compile(self, src, flags, fk):
        name = os.path.basename(src).replace(".", "_")
        tmp = os.path.join(self.dir, "obj", "tmp.%s.%s" % (sha(src.encode())[:16], os.getpid()))
        r = subprocess.run([CXX] + flags + ["-MD", "-MF", tmp + ".d", "-c", src, "-o", tmp + ".o"], capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError("compilation failed: %s\n%s" % (src, r.stderr[-4000:]))
        txt = open(tmp + ".d").read().replace("\\\n", " ")
        deps = txt.split(":", 1)[1].split()
        roots = (REPO + "/", VERIF + "/", BUILD + "/")
        deps = sorted(set(os.path.normpath(d) for d in deps if d.startswith(roots)))
        dl = [[d, self.fhash(d)] for d in deps]
        key = sha(json.dumps([fk, src, dl]).encode())[:24]
        obj = "%s.%s.o" % (name, key)
        os.replace(tmp + ".o", os.path.join(self.dir, "obj", obj))
        os.unlink(tmp + ".d")
        ents = [e for e in self.manifest.get(src, []) if e["obj"] != obj]
        ents.insert(0, dict(fk=fk, deps=dl, obj=obj))
        for e in ents[3:]:
            try:
                os.unlink(os.path.join(self.dir, "obj", e["obj"]))
            except OSError:
                pass
        self.manifest[src] = ents[:3]
        self.dirty = True
        self.compiled += 1
        return os.path.join(self.dir, "obj", obj)

    def objects(self, jobs):
        """jobs: list of (src, flags) -> list of object paths"""
        res = [None] * len(jobs)
        todo = []
        for i, (s, f) in enumerate(jobs):
            o, fk = self.plan(s, f)
            if o:
                res[i] = o
                self.reused += 1
            else:
                todo.append((i, s, f, fk))
        # big sources first, so that none is left alone at the end
        todo.sort(key=lambda t: -os.path.getsize(t[1]))
        try:
            with cf.ThreadPoolExecutor(JOBS) as ex:
                futs = {ex.submit(self.compile, s, f, fk): i for i, s, f, fk in todo}
                for fu in cf.as_completed(futs):
                    res[futs[fu]] = fu.result()
        finally:
            self.save()
        return res

    def save(self):
        if self.dirty:
            t = self.mpath + ".tmp%d" % os.getpid()
            json.dump(self.manifest, open(t, "w"))
            os.replace(t, self.mpath)
            self.dirty = False

    def link(self, out, cmd, inputs):
        key = sha(json.dumps([cmd, inputs, self.cxxid]).encode())
        kf = out + ".key"
        if os.path.exists(out) and os.path.exists(kf) and open(kf).read() == key:
            return False
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError("link failed: %s\n%s" % (out, r.stderr[-4000:]))
        open(kf, "w").write(key)
        return True

    def gen(self, comps):
        """generated sources: persistence snippets (*.b) and the sql parser"""
        sg = "/usr/share/ecbuild/cmake/sg.pl"
        for b in glob.glob(os.path.join(VERIF, "config/eckit/*/*.b")):
            sub = os.path.basename(os.path.dirname(b))
            hdr = os.path.join(SRC, "eckit", sub, os.path.basename(b)[:-2] + ".h")
            outd = os.path.join(GEN, "eckit", sub)
            out = os.path.join(outd, os.path.basename(b))
            os.makedirs(outd, exist_ok=True)
            key = self.fhash(hdr)
            if os.path.exists(out) and os.path.exists(out + ".key") and open(out + ".key").read() == key:
                continue
            r = None
            if os.path.exists(sg):
                r = subprocess.run(["perl", sg, hdr, outd, "eckit"], capture_output=True, text=True)
            if r is None or r.returncode or not os.path.exists(out):
                open(out, "w").write(open(b).read())
            open(out + ".key", "w").write(key)
        if "eckit_sql" not in comps:
            return
        d = os.path.join(GEN, "eckit/sql")
        os.makedirs(d, exist_ok=True)
        y, l = os.path.join(SRC, "eckit/sql/sqly.y"), os.path.join(SRC, "eckit/sql/sqll.l")
        key = self.fhash(y) + self.fhash(l)
        kf = os.path.join(d, "key")
        if os.path.exists(kf) and open(kf).read() == key:
            return
        for cmd in (["bison", "-t", "-d", "-o", d + "/sqly.tmp.c", y], ["flex", "-d", "-o" + d + "/sqll.tmp.c", l]):
            r = subprocess.run(cmd, capture_output=True, text=True, cwd=d)
            if r.returncode:
                raise RuntimeError("generator failed: %s\n%s" % (cmd, r.stderr))
        import re
        for n in ("sqly.tmp.c", "sqly.tmp.h", "sqll.tmp.c"):
            t = open(os.path.join(d, n)).read()
            t = re.sub(r"\bregister\b", "", t.replace("yy", "eckit_sql_")).replace(".tmp.c", ".c").replace(".tmp.h", ".h")
            with open(os.path.join(d, n.replace(".tmp", "")), "w") as f:
                f.write(t)
        open(kf, "w").write(key)

    def closure(self, comps):
        order = []

        def add(c):
            for d in COMPONENTS[c].get("deps", []):
                add(d)
            if c not in order:
                order.append(c)
        for c in comps:
            add(c)
        return order

    def libs(self, comps):
        order = self.closure(comps)
        self.gen(order)
        jobs, slices = [], {}
        for c in order:
            fl = self.flags + self.incs(COMPONENTS[c].get("inc", []))
            ss = self.sources(c)
            slices[c] = (len(jobs), len(jobs) + len(ss))
            jobs += [(s, fl) for s in ss]
            if c == "eckit":   # the project's own OpenFAM stand-in
                ms = sorted(glob.glob(os.path.join(SRC, "eckit/io/fam/openfam_mock/**/*.cc"), recursive=True))
                ms = [m for m in ms if m not in ss]
                jobs += [(s, fl) for s in ms]
                slices[c] = (slices[c][0], len(jobs))
        objs = self.objects(jobs)
        res = []
        for c in order:
            a, b = slices[c]
            lib = os.path.join(self.dir, "lib", "lib%s.so" % c)
            deps = ["-L" + os.path.join(self.dir, "lib")] + ["-l" + d for d in COMPONENTS[c].get("deps", [])]
            ins = objs[a:b]
            cmd = [CXX] + [f for f in self.flags if f.startswith("-fsanitize")] + ["-fuse-ld=lld", "-shared", "-o", lib, "-Wl,-soname,lib%s.so" % c,
                   "-Wl,-rpath," + os.path.join(self.dir, "lib")] + ins + deps + COMPONENTS[c].get("libs", [])
            self.link(lib, cmd, ins)
            res.append(c)
        return res

    def program(self, name, srcs, comps, extra_inc=(), extra_libs=(), extra_flags=()):
        order = self.libs(comps)
        inc = []
        for c in order:
            for i in COMPONENTS[c].get("inc", []):
                inc.append(i)
        fl = self.flags + list(extra_flags) + self.incs(inc) + ["-I" + os.path.join(VERIF, "harness")] + list(extra_inc)
        objs = self.objects([(s, fl) for s in srcs])
        out = os.path.join(self.dir, "bin", name)
        L = os.path.join(self.dir, "lib")
        cmd = [CXX] + [f for f in self.flags if f.startswith("-fsanitize")] + ["-fuse-ld=lld", "-rdynamic", "-o", out] + objs + \
              ["-L" + L, "-Wl,-rpath," + L, "-Wl,--no-as-needed"] + ["-l" + c for c in reversed(order)] + ["-lpthread", "-ldl"] + list(extra_libs)
        # a changed shared library does not need a relink unless its interface changed; relinking is cheap, so key on it
        ins = objs + [open(os.path.join(L, "lib%s.so.key" % c)).read() for c in order]
        self.link(out, cmd, ins)
        return out


if __name__ == "__main__":
    t = time.time()
    b = Build(sys.argv[1])
    b.libs(sys.argv[2].split(","))
    print("compiled %d reused %d in %.1fs" % (b.compiled, b.reused, time.time() - t))
