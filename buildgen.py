#!/usr/bin/env python3
"""Mirrors /repo's sources (by content) into .build/mirror and builds harness targets from there with ninja."""
import os, sys, subprocess, fcntl, shutil
VERIF = os.path.dirname(os.path.abspath(__file__))
BUILD = VERIF + "/.build"
M = BUILD + "/mirror"
_flags = None
def cpuflags():
    global _flags
    if _flags is None:
        _flags = set()
        for l in open("/proc/cpuinfo"):
            if l.startswith("flags"): _flags = set(l.split(":")[1].split()); break
    return _flags

def sync(repo):
    want = {}
    for d in ("include", "src", "app"):
        for root, _, files in os.walk(f"{repo}/{d}"):
            for f in files:
                p = f"{root}/{f}"; want[os.path.relpath(p, repo)] = open(p, "rb").read()
    for rel, data in want.items():
        dst = f"{M}/{rel}"
        if os.path.exists(dst) and open(dst, "rb").read() == data: continue
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        open(dst, "wb").write(data)
    for root, _, files in os.walk(M):
        for f in files:
            rel = os.path.relpath(f"{root}/{f}", M)
            if rel not in want: os.unlink(f"{M}/{rel}")

CXX = "-std=c++20 -O1 -DNDEBUG -w -pthread"
INC = f"-I{M}/include -I{VERIF}/src -I{VERIF}/stubs"

class Gen:
    def __init__(s): s.lines = []; s.objs = {}; s.targets = {}
    def obj(s, src, flags=CXX, tag="", cxx=True):
        key = (src, flags, tag)
        if key in s.objs: return s.objs[key]
        name = src.replace(M + "/", "repo/").replace(VERIF + "/", "").replace("/", "_") + (f".{tag}" if tag else "") + ".o"
        o = f"{BUILD}/obj/{name}"
        s.lines += [f"build {o}: {'cxx' if cxx else 'cc'} {src}", f"  flags = {flags}"]
        s.objs[key] = o; return o
    def link(s, name, objs, libs="", extra=""):
        o = f"{BUILD}/{name}"
        s.lines += [f"build {o}: link {' '.join(objs)}", f"  libs = {libs}", f"  extra = {extra}"]
        s.targets[name] = o
    def text(s):
        return "\n".join(["rule cxx", f"  command = g++ -MD -MF $out.d {INC} $flags -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
                          "rule cc", f"  command = gcc -MD -MF $out.d {INC} -O1 -DNDEBUG -w $flags -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
                          "rule link", "  command = g++ $extra -pthread $in -o $out $libs", *s.lines, ""])

def generate():
    g = Gen()
    V = VERIF + "/src"
    HO = CXX + " -DFMT_HEADER_ONLY"
    md4 = lambda: g.obj(f"{M}/src/md4.c", "", cxx=False)
    ntlm = lambda: g.obj(f"{M}/src/ntlm.cpp", HO)
    toc = lambda: g.obj(f"{M}/src/toc.cpp", HO)
    # command line tools: statically linked (fast to start), with the fault shim in front of libc
    shim = lambda: g.obj(f"{V}/mc/shim.cpp", HO)
    sshim = g.obj(f"{V}/mc/shim.cpp", HO + " -DSHIM_STATIC", "static")
    def tool(t, extra): g.link("t/hibp-" + t, [g.obj(f"{M}/app/hibp_{t}.cpp", HO), sshim] + extra, "", "-static")
    tool("convert", []); tool("topn", []); tool("sort", []); tool("dupes", [])
    tool("diff", [g.obj(f"{M}/src/diffutils.cpp", HO), toc()])
    tool("search", [toc(), ntlm(), md4()])
    for name, srcs in DRIVERS.items():
        objs = []
        for src in srcs:
            if src == "TOC": objs.append(toc())
            elif src == "NTLM": objs += [ntlm(), md4()]
            elif src == "DIFF": objs.append(g.obj(f"{M}/src/diffutils.cpp", HO))
            elif src == "SHIM": objs.append(shim())
            else: objs.append(g.obj(f"{V}/{src}", HO))
        g.link(name, objs)
    # hibp-download: instrumented for the controlled scheduler, with stand-ins for libcurl and libevent
    TS = CXX + " -DFMT_HEADER_ONLY -fsanitize=thread -fno-omit-frame-pointer"
    dapp = [g.obj(f"{M}/src/dnl/{x}.cpp", TS, "mc") for x in ("queuemgt", "requests", "resume", "shared")] + [g.obj(f"{M}/app/hibp_download.cpp", TS + " -Dmain=dnl_main", "mc")]
    g.link("drv_dnl", dapp + [g.obj(f"{V}/dnl/sched.cpp", HO + " -O2")] + [g.obj(f"{V}/{x}.cpp", HO) for x in ("dnl/net", "drv/dnl")] + [shim()], "-lcurl -levent -ldl", "-rdynamic -Wl,-z,now")
    g.link("t/hibp-download", [g.obj(f"{M}/src/dnl/{x}.cpp", HO) for x in ("queuemgt", "requests", "resume", "shared")] + [g.obj(f"{M}/app/hibp_download.cpp", HO)], "-lcurl -levent")
    # hibp-server: the same, with the request handler taken out of the network library; and as it is
    SRV = TS + f" -I{VERIF}/stubs_srv"
    sapp = [g.obj(f"{M}/src/srv/server.cpp", SRV, "mc"), g.obj(f"{M}/app/hibp_server.cpp", TS + " -Dmain=srv_main", "mc")] + [g.obj(f"{M}/src/{x}.cpp", TS, "mc") for x in ("toc", "ntlm")] + [g.obj(f"{M}/src/md4.c", "-fsanitize=thread", "mc", cxx=False)]
    g.link("drv_srvmc", sapp + [g.obj(f"{V}/dnl/sched.cpp", HO + " -O2"), g.obj(f"{V}/drv/srvmc.cpp", HO + f" -I{VERIF}/stubs_srv"), shim()], "-lhttp_parser -ldl", "-rdynamic -Wl,-z,now")
    g.link("t/hibp-server", [g.obj(f"{M}/src/srv/server.cpp", HO), g.obj(f"{M}/app/hibp_server.cpp", HO), toc(), ntlm(), md4(), shim()], "-lhttp_parser")
    for isa, fl in (("sse", ""), ("avx2", "-mavx2"), ("avx512", "-mavx512bw -mavx512f -mavx512vl")):
        g.link("drv_cmp_" + isa, [g.obj(f"{V}/drv/cmp.cpp", HO + " -O2 " + fl, isa)])
    # everything once more with sanitizers, without the fault shim (C28)
    SN = HO + " -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=nonnull-attribute,alignment -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS"
    LS = "-fsanitize=address,undefined"
    n = lambda src: g.obj(src, SN, "san")
    md4n = lambda: g.obj(f"{M}/src/md4.c", LS + " -fno-omit-frame-pointer -fno-sanitize-recover=all", "san", cxx=False)
    sh0 = lambda: g.obj(f"{V}/mc/shim.cpp", HO + " -DSHIM_OFF", "off")
    def tooln(t, extra): g.link("ts/hibp-" + t, [n(f"{M}/app/hibp_{t}.cpp")] + extra, "", LS)
    tooln("convert", []); tooln("topn", []); tooln("sort", []); tooln("dupes", [])
    tooln("diff", [n(f"{M}/src/diffutils.cpp"), n(f"{M}/src/toc.cpp")])
    tooln("search", [n(f"{M}/src/toc.cpp"), n(f"{M}/src/ntlm.cpp"), md4n()])
    g.link("ts/hibp-download", [n(f"{M}/src/dnl/{x}.cpp") for x in ("queuemgt", "requests", "resume", "shared")] + [n(f"{M}/app/hibp_download.cpp")], "-lcurl -levent", LS)
    g.link("ts/hibp-server", [n(f"{M}/src/srv/server.cpp"), n(f"{M}/app/hibp_server.cpp"), n(f"{M}/src/toc.cpp"), n(f"{M}/src/ntlm.cpp"), md4n()], "-lhttp_parser", LS)
    for d, objs in (("codec", []), ("ffile", []), ("ntlm", [n(f"{M}/src/ntlm.cpp"), md4n()]), ("toc", [n(f"{M}/src/toc.cpp"), sh0()]), ("cmp", [])):
        g.link(f"drv_{d}_san", [n(f"{V}/drv/{d}.cpp")] + objs, "", LS)
    g.link("drv_mem", [g.obj(f"{V}/drv/mem.cpp", HO)])
    return g

DRIVERS = {
    "drv_codec": ["drv/codec.cpp"],
    "drv_ffile": ["drv/ffile.cpp"],
    "drv_tools": ["drv/tools.cpp"],
    "drv_ntlm": ["drv/ntlm.cpp", "NTLM"],
    "drv_toc": ["drv/toc.cpp", "TOC", "SHIM"],
    "drv_srv": ["drv/srv.cpp"],
    "drv_toolfault": ["drv/toolfault.cpp"],
}

def build(repo, targets):
    os.makedirs(BUILD + "/obj", exist_ok=True); os.makedirs(BUILD + "/t", exist_ok=True); os.makedirs(BUILD + "/ts", exist_ok=True)
    with open(BUILD + "/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        os.makedirs(M, exist_ok=True)
        sync(repo)
        g = generate()
        t = g.text(); p = BUILD + "/build.ninja"
        if not os.path.exists(p) or open(p).read() != t: open(p, "w").write(t)
        names = list(g.targets.values()) if targets == "all" else [g.targets[x] for x in targets]
        r = subprocess.run(["ninja", "-C", BUILD, "-f", p, "-k", "0"] + names, capture_output=True, text=True)
        return r.returncode == 0, r.stdout + r.stderr

if __name__ == "__main__":
    a = sys.argv[1:]
    repo = os.environ.get("HIBP_REPO", "/repo")
    if a[0] == "all": ts = "all"
    elif a[0] == "prop":
        sys.path.insert(0, VERIF)
        from props_conf import PROPS
        ts = sorted({t for part in PROPS[a[1]]["parts"] for t in part["targets"]})
    else: ts = a
    ok, out = build(repo, ts)
    if not ok: print(out[-8000:])
    sys.exit(0 if ok else 1)
