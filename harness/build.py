#!/usr/bin/env python3
"""Build what the checks need from /repo's current working tree.

usage: build.py [--variant plain|asan|tsan] TARGET...
  TARGET: amqpprox (the real proxy binary) or the name of a harness/*.cpp driver

The objects live in /verif/build/<variant>; the ninja file is regenerated from
the current set of sources each time and each object depends on a content stamp
of its inputs (mtimes are not trusted).
"""
import glob, hashlib, os, subprocess, sys, shutil, fcntl

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")

FLAGS = {
    "plain": "-O0 -g0",
    "asan": "-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=vptr,alignment,nonnull-attribute -fno-sanitize-recover=undefined",
    "tsan": "-O1 -g1 -fsanitize=thread",
}
DYN = " ".join("-DBOOST_%s_DYN_LINK" % x for x in
               ("ATOMIC CHRONO FILESYSTEM LOG LOG_SETUP PROGRAM_OPTIONS REGEX SYSTEM THREAD TIMER").split())
LIBS = ("-lboost_log_setup -lboost_log -lboost_program_options -lboost_filesystem "
        "-lboost_thread -lboost_timer -lboost_chrono -lboost_regex -lboost_system -lssl -lcrypto -lprotobuf -lpthread")


def sync(src_dir, dst_dir, exts):
    """Mirror sources whose content changed (so mtimes in the mirror mean change)."""
    os.makedirs(dst_dir, exist_ok=True)
    seen = set()
    for f in sorted(os.listdir(src_dir)):
        if not f.endswith(exts):
            continue
        seen.add(f)
        s, d = os.path.join(src_dir, f), os.path.join(dst_dir, f)
        data = open(s, "rb").read()
        try:
            if open(d, "rb").read() == data:
                continue
        except OSError:
            pass
        with open(d, "wb") as o:
            o.write(data)
    for f in os.listdir(dst_dir):
        if f.endswith(exts) and f not in seen:
            os.remove(os.path.join(dst_dir, f))


def main():
    args = sys.argv[1:]
    variant = "plain"
    if args and args[0] == "--variant":
        variant = args[1]
        args = args[2:]
    targets = args or ["amqpprox"]
    base = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
    B = os.path.join(base, variant)
    os.makedirs(B, exist_ok=True)
    lock = open(os.path.join(B, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    src = os.path.join(B, "src")
    sync(os.path.join(REPO, "libamqpprox"), src + "/lib", (".cpp", ".h"))
    sync(os.path.join(REPO, "amqpprox"), src + "/main", (".cpp", ".h"))
    sync(os.path.join(REPO, "amqpprox_ctl"), src + "/ctl", (".cpp", ".h"))
    sync(os.path.join(REPO, "authproto"), src + "/proto", (".proto",))
    sync(HERE, src + "/harness", (".cpp", ".h", ".c"))
    cxx = os.environ.get("VERIF_CXX", "clang++")
    clang = cxx.startswith("clang")
    pch = B + ("/pch.h.pch" if clang else "/pch.h.gch")
    use = "-include-pch " + pch if clang else "-include %s/pch.h" % B
    flags = "-std=c++17 -DNDEBUG -w %s %s -I%s/lib -I%s/gen" % (FLAGS[variant], DYN, src, src)
    n = ["ninja_required_version = 1.5",
         "rule pch\n  command = %s %s -x c++-header %s $in -o $out" % (cxx, flags, "-fpch-instantiate-templates" if clang else ""),
         "rule cxx\n  command = %s %s %s -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc" % (cxx, flags, use),
         "rule pb\n  command = %s %s -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc" % (cxx, flags),
         "rule proto\n  command = protoc -I%s/proto --cpp_out=%s/gen $in" % (src, src),
         "rule ar\n  command = rm -f $out && ar rcs $out $in",
         "rule link\n  command = %s %s $in -o $out %s" % (cxx, FLAGS[variant], LIBS),
         "rule cp\n  command = cp $in $out"]
    os.makedirs(src + "/gen", exist_ok=True)
    n.append("build %s/pch.h: cp %s/harness/pch.h" % (B, src))
    n.append("build %s: pch %s/pch.h" % (pch, B))
    objs, hdrs = [], []
    for p in sorted(glob.glob(src + "/proto/*.proto")):
        b = os.path.basename(p)[:-6]
        g = "%s/gen/%s.pb" % (src, b)
        n.append("build %s.cc %s.h: proto %s" % (g, g, p))
        hdrs.append(g + ".h")
        o = "%s/o/%s.pb.o" % (B, b)
        objs.append(o)
    for o in objs:
        b = os.path.basename(o)[:-2]
        n.append("build %s: pb %s/gen/%s.cc | %s" % (o, src, b, " ".join(hdrs)))
    dep = "%s %s" % (pch, " ".join(hdrs))
    # The slowest translation units start at once, without the prelude.
    heavy = ("amqpprox_httpauthintercept", "amqpprox_session", "amqpprox_logging",
             "amqpprox_server", "amqpprox_control")
    for c in sorted(glob.glob(src + "/lib/*.cpp")):
        o = "%s/o/lib_%s.o" % (B, os.path.basename(c)[:-4])
        if os.path.basename(c)[:-4] in heavy:
            n.append("build %s: pb %s | %s" % (o, c, " ".join(hdrs)))
        else:
            n.append("build %s: cxx %s | %s" % (o, c, dep))
        objs.append(o)
    lib = B + "/libamqpprox.a"
    n.append("build %s: ar %s" % (lib, " ".join(objs)))
    n.append("build %s/o/main.o: cxx %s/main/amqpprox.m.cpp | %s" % (B, src, dep))
    n.append("build %s/bin/amqpprox: link %s/o/main.o %s" % (B, B, lib))
    n.append("build %s/o/ctl.o: cxx %s/ctl/client.m.cpp | %s" % (B, src, dep))
    n.append("build %s/bin/amqpprox_ctl: link %s/o/ctl.o %s" % (B, B, lib))
    for c in sorted(glob.glob(src + "/harness/*.cpp")):
        b = os.path.basename(c)[:-4]
        n.append("build %s/o/h_%s.o: cxx %s | %s" % (B, b, c, dep))
        n.append("build %s/bin/%s: link %s/o/h_%s.o %s" % (B, b, B, b, lib))
    n.append("rule so\n  command = cc -O1 -shared -fPIC $in -o $out -ldl")
    n.append("build %s/shim.so: so %s/harness/shim.c" % (B, src))
    text = "\n".join(n) + "\n"
    nf = B + "/build.ninja"
    if not os.path.exists(nf) or open(nf).read() != text:
        open(nf, "w").write(text)
    r = subprocess.run(["ninja", "-C", B, "-f", nf] + ["%s/bin/%s" % (B, t) for t in targets] + [B + "/shim.so"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stdout.write(r.stdout[-6000:])
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
