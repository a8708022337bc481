#!/usr/bin/env python3
"""Builds the check programs from /repo's working tree.

Objects are reused only while the contents of every file they were made from
are unchanged (content hashes, not time stamps).
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(ROOT, "build")

COMMON = ["-std=c++20", "-w", "-g1", "-O1", "-fno-omit-frame-pointer",
          "-D_GLIBCXX_ASSERTIONS", "-ffunction-sections", "-fdata-sections",
          "-I" + os.path.join(ROOT, "shim"), "-I" + os.path.join(ROOT, "lib"),
          "-I" + os.path.join(ROOT, "checks"),
          "-I" + REPO + "/src", "-I" + REPO + "/src/parsec",
          "-I" + REPO + "/3rdparty", "-I" + REPO + "/3rdparty/bech32",
          "-I" + REPO + "/3rdparty/crypto", "-I" + REPO + "/tools/bench",
          "-isystem", "/usr/include/lua5.4", "-isystem", "/usr/include/jsoncpp"]
FLAVOURS = {
    "plain": [],
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize=vptr,nonnull-attribute",
             "-fno-sanitize-recover=all"],
}
FILE_FLAGS = {}

# Directory groups of /repo's sources. Programs' main files are left out.
MAIN = ("d.cpp", "-cli.cpp", "kqueue_event_handler.cpp", "sentineld_2pc.cpp",
        "sha256_avx2.cpp", "sha256_shani.cpp", "sha256_sse41.cpp", "sha256_sse4.cpp")
KEEP = ()


def group(name):
    """Sources of a group: a directory of /repo (not recursive)."""
    fs = sorted(glob.glob(os.path.join(REPO, name, "*.cpp")))
    out = []
    for f in fs:
        b = os.path.basename(f)
        if b in ("archiverd.cpp", "shardd.cpp", "sentineld.cpp", "watchtowerd.cpp",
                 "atomizer-raftd.cpp", "coordinatord.cpp", "locking_shardd.cpp",
                 "sentineld_2pc.cpp", "agentd.cpp", "ticket_machined.cpp",
                 "runtime_locking_shardd.cpp", "client-cli.cpp",
                 "kqueue_event_handler.cpp", "sha256_avx2.cpp", "sha256_shani.cpp",
                 "sha256_sse41.cpp", "sha256_sse4.cpp"):
            continue
        out.append(f)
    return out


C = ["src/util/common", "3rdparty/crypto"]
S = ["src/util/serialization"]
N = ["src/util/network"]
R = ["src/util/rpc"]
RAFT = ["src/util/raft"]
TX = ["src/uhs/transaction"]
BASE = C + S + N + R
UHS = BASE + TX + RAFT
ATOM = UHS + ["src/uhs/atomizer/" + x for x in
              ("archiver", "atomizer", "sentinel", "shard", "watchtower")] + \
    ["src/uhs/sentinel"]
TWOPC = UHS + ["src/uhs/twophase/" + x for x in
               ("coordinator", "locking_shard", "sentinel_2pc")] + \
    ["src/uhs/sentinel"]
PARSEC = BASE + RAFT + ["src/util/rpc/http"] + ["src/parsec"] + \
    ["src/parsec/" + x for x in
     ("agent", "agent/runners", "broker", "directory", "runtime_locking_shard",
      "ticket_machine")]
LUA = PARSEC + ["src/parsec/agent/runners/lua"]
EVM = PARSEC + ["src/parsec/agent/runners/evm"]
CLIENT = ["src/uhs/client", "3rdparty/bech32", "3rdparty/bech32/util"]
GROUPS = {"C": C, "BASE": BASE, "UHS": UHS, "ATOM": ATOM, "TWOPC": TWOPC,
          "PARSEC": PARSEC, "LUA": LUA, "EVM": EVM, "RAFT": BASE + RAFT,
          "CLIENT": CLIENT + ATOM + TWOPC,
          "ALL": ATOM + TWOPC + LUA + EVM + CLIENT}
LIBS = ["-lleveldb", "-lsecp256k1", "-llua5.4", "-ljsoncpp", "-lcurl",
        "-lmicrohttpd", "-lpthread", "-ldl"]

_h = {}


def fhash(p):
    if p not in _h:
        try:
            with open(p, "rb") as f:
                _h[p] = hashlib.sha1(f.read()).hexdigest()
        except OSError:
            _h[p] = None
    return _h[p]


def obj_of(src, flav, extra=()):
    k = hashlib.sha1(" ".join([src, *extra]).encode()).hexdigest()[:8]
    return os.path.join(OUT, flav, os.path.basename(src)[:-4] + "." + k + ".o")


def fresh(target, key):
    try:
        m = json.load(open(target + ".json"))
    except (OSError, ValueError):
        return False
    if not os.path.exists(target) or m["key"] != key:
        return False
    return all(fhash(p) == h for p, h in m["deps"].items())


def compile_one(src, flav, extra=()):
    o = obj_of(src, flav, extra)
    cmd = ["g++"] + COMMON + FLAVOURS[flav] + list(extra) + \
        ["-c", src, "-o", o]
    key = " ".join(cmd)
    if fresh(o, key):
        return o, None
    d = o + ".d"
    r = subprocess.run(cmd + ["-MMD", "-MF", d], capture_output=True, text=True)
    if r.returncode != 0:
        return o, src + "\n" + r.stderr[:4000]
    txt = open(d).read().replace("\\\n", " ")
    deps = txt.split(":", 1)[1].split()
    deps = {p: fhash(p) for p in deps
            if p.startswith(REPO) or p.startswith(ROOT)}
    deps[src] = fhash(src)
    with open(o + ".json", "w") as f:
        json.dump({"key": key, "deps": deps}, f)
    os.unlink(d)
    return o, None


def variants(check, cfg, flav):
    """Shared objects <check>.<name>.so: the same sources built otherwise."""
    for name, v in cfg.get("variants", {}).items():
        jobs = [(os.path.join(ROOT, "checks", x), v["flags"]) for x in v["own"]]
        jobs += [(os.path.join(REPO, x), v["flags"] + v.get("file_flags", {}).get(x, []))
                 for x in v["files"]]
        with cf.ThreadPoolExecutor(os.cpu_count()) as ex:
            res = list(ex.map(lambda j: compile_one(j[0], flav, ["-fPIC"] + j[1]), jobs))
        errs = [e for _, e in res if e]
        if errs:
            sys.stderr.write("\n".join(errs[:3]) + "\n")
            return False
        so = os.path.join(OUT, check + "." + name + ".so")
        objs = [o for o, _ in res]
        for o in objs:
            _h.pop(o, None)
        key = " ".join(objs)
        if fresh(so, key):
            continue
        r = subprocess.run(["g++"] + FLAVOURS[flav] + ["-shared", "-Wl,-Bsymbolic", "-o", so] +
                           objs, capture_output=True, text=True)
        if r.returncode != 0:
            sys.stderr.write(r.stderr[:6000] + "\n")
            return False
        with open(so + ".json", "w") as f:
            json.dump({"key": key, "deps": {o: fhash(o) for o in objs}}, f)
    return True


def build(check, cfg):
    flav = cfg.get("flavour", "plain")
    os.makedirs(os.path.join(OUT, flav), exist_ok=True)
    srcs = []
    for g in cfg["groups"]:
        for d in GROUPS.get(g, [g]):
            for f in group(d):
                if f not in srcs:
                    srcs.append(f)
    for f in cfg.get("files", []):
        srcs.append(os.path.join(REPO, f))
    skip = cfg.get("skip", [])
    srcs = [s for s in srcs if not any(s.endswith(x) for x in skip)]
    own = [os.path.join(ROOT, "lib", "pbt.cpp"),
           os.path.join(ROOT, "checks", check + ".cpp")]
    own += [os.path.join(ROOT, "checks", x) for x in cfg.get("own", [])]
    if flav == "asan":
        own.append(os.path.join(ROOT, "lib", "san.cpp"))
    jobs = own + srcs
    with cf.ThreadPoolExecutor(os.cpu_count()) as ex:
        res = list(ex.map(lambda s: compile_one(s, flav), jobs))
    errs = [e for _, e in res if e]
    if errs:
        sys.stderr.write("\n".join(errs[:3]) + "\n")
        return None
    oown = [o for o, _ in res[:len(own)]]
    orepo = [o for o, _ in res[len(own):]]
    exe = os.path.join(OUT, check)
    if not variants(check, cfg, flav):
        return None
    key = " ".join(oown + orepo + cfg.get("libs", LIBS))
    deps = {o: None for o in oown + orepo}
    for files in cfg.get("programs", {}).values():
        deps.update({os.path.join(REPO, x): None for x in files})
    for o in deps:
        _h.pop(o, None)
    if fresh(exe, key):
        return exe
    lib = os.path.join(OUT, check + ".a")
    if os.path.exists(lib):
        os.unlink(lib)
    if orepo:
        subprocess.run(["ar", "rcsT", lib] + orepo, check=True)
    else:
        lib = None
    for name, files in cfg.get("programs", {}).items():
        # Programs of the tree, as <check>.<name>.
        po = []
        for x in files:
            o, e = compile_one(os.path.join(REPO, x), flav)
            if e:
                sys.stderr.write(e + "\n")
                return None
            po.append(o)
        r = subprocess.run(["g++"] + FLAVOURS[flav] + ["-Wl,--gc-sections", "-o", exe + "." + name] + po +
                           ([lib] if lib else []) + cfg.get("libs", LIBS), capture_output=True, text=True)
        if r.returncode != 0:
            sys.stderr.write(r.stderr[:6000] + "\n")
            return None
    cmd = ["g++"] + FLAVOURS[flav] + ["-Wl,--gc-sections", "-o", exe] + oown + \
        ([lib] if lib else []) + cfg.get("libs", LIBS)
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stderr[:6000] + "\n")
        return None
    with open(exe + ".json", "w") as f:
        json.dump({"key": key, "deps": {o: fhash(o) for o in deps}}, f)
    return exe


def load():
    return json.load(open(os.path.join(ROOT, "checks", "checks.json")))


class lock:
    def __enter__(self):
        os.makedirs(OUT, exist_ok=True)
        self.f = open(os.path.join(OUT, ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


if __name__ == "__main__":
    if sys.argv[1:] == ["--tools"]:
        sys.exit(subprocess.run(["g++", "--version"], stdout=subprocess.DEVNULL).returncode)
    cfg = load()
    ids = sys.argv[1:] or sorted(cfg)
    bad = 0
    with lock():
        for i in ids:
            if build(i, cfg[i]) is None:
                print("build failed:", i)
                bad = 1
    sys.exit(2 if bad else 0)
