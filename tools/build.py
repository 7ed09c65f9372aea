"""Builds the library under test (from /repo's working tree), the generated
protocol buffer code and the drivers, one directory per flavour, in /verif/build.
Standard library only; runs ninja."""
import fcntl, glob, os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, "build"))

WKT = "any descriptor duration struct timestamp".split()
PROTOS = """google/api/annotations google/api/http google/api/label google/api/launch_stage google/api/metric
google/api/servicecontrol/v1/check_error google/api/servicecontrol/v1/distribution
google/api/servicecontrol/v1/log_entry google/api/servicecontrol/v1/metric_value
google/api/servicecontrol/v1/operation google/api/servicecontrol/v1/quota_controller
google/api/servicecontrol/v1/service_controller google/logging/type/log_severity
google/rpc/status google/type/money""".split()

COMMON = ["-std=c++17", "-g1", "-fno-omit-frame-pointer", "-pthread", "-Wno-deprecated-declarations", "-w"]
# Protocol buffer headers add members to their classes under the thread
# sanitizer, which the installed library does not have.
TSAN_ABI = ["-U__SANITIZE_THREAD__", "-D_GLIBCXX_TSAN=1"]
FLAVOURS = {
    # name: (compiler, flags for the library under test and the drivers, flags for the generated code, link flags)
    "asan": ("g++",
             ["-O1", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=vptr",
              "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
             ["-O0"],
             ["-fsanitize=address,undefined"]),
    "tsan": ("g++", ["-O1", "-fsanitize=thread"] + TSAN_ABI, ["-O1", "-fsanitize=thread"] + TSAN_ABI, ["-fsanitize=thread"]),
    "plain": ("g++", ["-O1", "-D_GLIBCXX_ASSERTIONS"], ["-O1"], []),
    # The compiler reports each memory access to the scheduler in vsched.cc.
    "fine": ("g++", ["-O1", "-fsanitize=thread", "-DVF_FINE", "-DGOOGLE_PROTOBUF_NO_RDTSC"] + TSAN_ABI, ["-O1", "-DGOOGLE_PROTOBUF_NO_RDTSC"], []),
    # The compiler reports each memory access to count.cc, of the generated code as well.
    "count": ("g++", ["-O1", "-fsanitize=thread", "-DGOOGLE_PROTOBUF_NO_RDTSC"] + TSAN_ABI, ["-O1", "-fsanitize=thread", "-DGOOGLE_PROTOBUF_NO_RDTSC"] + TSAN_ABI, []),
}


MIRROR = os.path.join(BUILD, "mirror")


def mirror():
    """Copies the sources of the library to build/mirror, touching a copy only
    if its content changes: what is rebuilt then depends on contents and not on
    the modification times in /repo."""
    want = {}
    for d in ("src", "utils", "include", "sample"):
        for root, _, files in os.walk(os.path.join(REPO, d)):
            for f in files:
                if f.endswith((".cc", ".h", ".inc", ".cpp", ".hpp")) and not f.endswith("_test.cc"):
                    p = os.path.join(root, f)
                    want[os.path.relpath(p, REPO)] = open(p, "rb").read()
    for rel, data in want.items():
        p = os.path.join(MIRROR, rel)
        try:
            if open(p, "rb").read() == data:
                continue
        except OSError:
            pass
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "wb").write(data)
    for root, _, files in os.walk(MIRROR):
        for f in files:
            p = os.path.join(root, f)
            if os.path.relpath(p, MIRROR) not in want:
                os.remove(p)


def sut_sources():
    out = []
    for d in ("src", "utils"):
        out += sorted(glob.glob(os.path.join(MIRROR, d, "*.cc")))
    return out


# driver -> its sources in /verif/harness, and whether it needs the schedule control
DRIVERS = {
    "seq": ["seq.cc", "core.cc", "vt.cc"],
    "conc": ["conc.cc", "vsched.cc", "core.cc", "vt.cc"],
    "twin": ["twin.cc", "vsched.cc", "core.cc", "vt.cc"],
    "wait": ["wait.cc", "vsched.cc", "core.cc", "vt.cc"],
    "hold": ["hold.cc", "core.cc", "vt.cc"],
    "agg": ["agg.cc", "vsched.cc", "core.cc", "vt.cc"],
    "util": ["util.cc", "core.cc", "vt.cc"],
    "cost": ["cost.cc", "count.cc", "core.cc", "vt.cc"],
    "http": ["http.cc", "core.cc", "vt.cc", "sample/transport/http_transport.cc"],
}


RAW = ("vsched.cc", "count.cc")     # never instrumented


def esc(s):
    return s.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")


def generate(flavour):
    cxx, flags, pbflags, link = FLAVOURS[flavour]
    d = os.path.join(BUILD, flavour)
    gen = os.path.join(BUILD, "gen")
    os.makedirs(d, exist_ok=True)
    os.makedirs(gen, exist_ok=True)
    inc = ["-I" + MIRROR, "-I" + gen, "-I" + os.path.join(VERIF, "harness")]
    L = ["ninja_required_version = 1.5", "builddir = " + esc(d)]
    L += ["rule pb", "  command = cd %s && protoc -I/usr/include --include_imports --descriptor_set_out=wkt.desc %s && protoc --descriptor_set_in=wkt.desc:%s --cpp_out=. %s" % (
        gen, " ".join("google/protobuf/%s.proto" % w for w in WKT), os.path.join(VERIF, "proto/googleapis.desc"), " ".join(p + ".proto" for p in PROTOS)),
        "  restat = 1"]
    cf = " ".join(COMMON)
    L += ["rule cxx", "  command = %s -MMD -MF $out.d %s %s %s -c $in -o $out" % (cxx, cf, " ".join(flags), " ".join(inc)),
          "  depfile = $out.d", "  deps = gcc", "  description = CXX $out"]
    L += ["rule cxxraw", "  command = %s -MMD -MF $out.d %s -O2 %s %s -c $in -o $out" % (cxx, cf, "-DVF_FINE" if flavour == "fine" else "", " ".join(inc)),
          "  depfile = $out.d", "  deps = gcc", "  description = CXX $out"]
    L += ["rule cxxpb", "  command = %s -std=c++17 -w -pthread %s -I%s -c $in -o $out" % (cxx, " ".join(pbflags), gen)]
    L += ["rule link", "  command = %s -pthread %s $in -o $out $libs -lprotobuf -lcrypto -ldl" % (cxx, " ".join(link))]
    ccs, hs = [os.path.join(gen, p + ".pb.cc") for p in PROTOS], [os.path.join(gen, p + ".pb.h") for p in PROTOS]
    L.append("build %s: pb %s" % (" ".join(map(esc, ccs + hs)), esc(os.path.join(VERIF, "proto/googleapis.desc"))))
    pbo = []
    for p in PROTOS:
        o = os.path.join(d, "pb", p.replace("/", "_") + ".o")
        pbo.append(o)
        L.append("build %s: cxxpb %s" % (esc(o), esc(os.path.join(gen, p + ".pb.cc"))))
    order = " || " + esc(hs[0])
    suto = []
    for s in sut_sources():
        o = os.path.join(d, "sut", os.path.relpath(s, MIRROR).replace("/", "_") + ".o")
        suto.append(o)
        L.append("build %s: cxx %s%s" % (esc(o), esc(s), order))
    objs = set()
    for name, srcs in DRIVERS.items():
        os_ = []
        for s in srcs:
            p = os.path.join(MIRROR if s.startswith("sample/") else os.path.join(VERIF, "harness"), s)
            o = os.path.join(d, "drv", s.replace("/", "_") + ".o")
            os_.append(o)
            if o not in objs:
                objs.add(o)
                L.append("build %s: %s %s%s" % (esc(o), "cxxraw" if s in RAW else "cxx", esc(p), order))
        L.append("build %s: link %s" % (esc(os.path.join(d, name)), " ".join(map(esc, os_ + suto + pbo))))
        if name == "http":
            L.append("  libs = -lcurl")
    path = os.path.join(d, "build.ninja")
    text = "\n".join(L) + "\n"
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)
    return d


class BuildError(Exception):
    pass


def build(wants):
    """wants: list of (flavour, driver). Returns {(flavour, driver): path}."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        mirror()
        flavs = []
        for f, _ in wants:
            if f not in flavs:
                flavs.append(f)
        out = {}
        for f in flavs:
            d = generate(f)
            targets = [os.path.join(d, drv) for ff, drv in wants if ff == f]
            cmd = ["ninja", "-C", d, "-j", str(os.cpu_count() or 4)] + targets
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                raise BuildError(p.stdout[-6000:])
            for ff, drv in wants:
                if ff == f:
                    out[(f, drv)] = os.path.join(d, drv)
        return out


if __name__ == "__main__":
    w = [tuple(a.split("/")) for a in sys.argv[1:]]
    try:
        for k, v in build(w).items():
            print(v)
    except BuildError as e:
        print(e)
        sys.exit(2)
