#!/usr/bin/env python3
"""Build the simulator binary from /repo's current working tree.

Objects are cached in /verif/build under a key that covers the compiler flags,
the source file and every header, so a change anywhere in /repo/src is seen.
"""
import concurrent.futures, fcntl, glob, hashlib, os, re, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = os.path.join(VERIF, "sim")
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.path.join(VERIF, "build")
CSV = "/usr/include/libfccp/csv.h"
BASE = ["-O1", "-DNDEBUG", "-std=gnu++17", "-w", "-U_FORTIFY_SOURCE", "-fno-omit-frame-pointer",
        "-D_GLIBCXX_ASSERTIONS"]
ORDER = ["StandardComposition", "AdaptedComposition", "fstalign", "main", "Walker", "wer", "FstFileLoader"]


def sh256(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def patched_csv(gen):
    """csv.h with the reader's block length as a run-time knob and a zeroed buffer.

    The shipped block length is 16 MiB, so the asynchronous reader only starts on
    files of 32 MiB and more; the knob lets small files reach it.  At 16 MiB the
    buffer is always fresh zero pages; smaller ones are zeroed to stay the same.
    """
    s = read(CSV).decode()
    n = s.replace("static const int block_len = 1<<24;", "const int block_len = sim_csv_block_len;")
    assert n != s, "csv.h: block_len not found"
    m = n.replace("new char[3*block_len]", "new char[3*block_len]()")
    assert m != n, "csv.h: buffer not found"
    m = "extern int sim_csv_block_len;\n" + m
    for d in ("csv", "libfccp", "."):
        os.makedirs(os.path.join(gen, d), exist_ok=True)
        p = os.path.join(gen, d, "csv.h")
        if not os.path.exists(p) or read(p).decode() != m:
            with open(p, "w") as f:
                f.write(m)
    return m


def includes(gen):
    return ["-I" + os.path.join(gen), "-I" + os.path.join(SIM, "shim"), "-I/opt/vp/compat/include",
            "-I/usr/include/jsoncpp", "-I" + REPO + "/src", "-I" + REPO + "/third-party",
            "-I/opt/vp/compat/openfst/include"]


def main():
    os.makedirs(OUT, exist_ok=True)
    lock = open(os.path.join(OUT, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    gen = os.path.join(OUT, "gen")
    csv = patched_csv(gen)
    hdrs = b"".join(p.encode() + b"\0" + read(p) for p in sorted(
        glob.glob(REPO + "/src/**/*.h", recursive=True) + glob.glob(SIM + "/shim/**/*.hpp", recursive=True)))
    jobs = []
    for src in sorted(glob.glob(REPO + "/src/*.cpp")):
        stem = os.path.basename(src)[:-4]
        fl = BASE + includes(gen)
        if stem == "PathHeap":
            fl = fl + ["-std=gnu++14"]
        key = sh256(" ".join(fl), read(src), hdrs, csv)
        jobs.append((stem, src, fl, os.path.join(OUT, "r-%s-%s.o" % (stem, key))))
    simh = b"".join(read(p) for p in sorted(glob.glob(SIM + "/*.h")))
    for src in sorted(glob.glob(SIM + "/*.cpp")):
        stem = os.path.basename(src)[:-4]
        fl = ["-O2", "-g1", "-std=gnu++17", "-U_FORTIFY_SOURCE", "-Wall", "-Wno-unused-result", "-Wno-frame-larger-than"]
        key = sh256(" ".join(fl), read(src), simh)
        jobs.append((stem, src, fl, os.path.join(OUT, "s-%s-%s.o" % (stem, key))))
    jobs.sort(key=lambda j: (ORDER.index(j[0]) if j[0] in ORDER else 99, j[0]))
    todo = [j for j in jobs if not os.path.exists(j[3])]

    def cc(j):
        stem, src, fl, obj = j
        for old in glob.glob(os.path.join(OUT, os.path.basename(obj)[:2] + stem + "-*.o")):
            os.unlink(old)
        tmp = obj + ".tmp%d" % os.getpid()
        p = subprocess.run(["g++"] + fl + ["-c", src, "-o", tmp], capture_output=True, text=True)
        if p.returncode:
            return stem, p.stderr[-4000:]
        if p.stderr.strip() and obj.split("/")[-1][0] == "s":
            sys.stderr.write(p.stderr)
        if stem == "main" and obj.startswith(os.path.join(OUT, "r-")):
            # rename at object level: a function called main returns 0 when it falls off its end
            p = subprocess.run(["objcopy", "--redefine-sym", "main=fstalign_cli_main", tmp], capture_output=True, text=True)
            if p.returncode:
                return stem, p.stderr
        os.rename(tmp, obj)
        return stem, None

    bad = []
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("SIM_JOBS", "8"))) as ex:
        for stem, err in ex.map(cc, todo):
            if err:
                bad.append((stem, err))
    if bad:
        for stem, err in bad:
            sys.stderr.write("build: %s failed\n%s\n" % (stem, err))
        return 2
    exe = os.path.join(OUT, "fstsim")
    key = sh256(*[j[3] for j in jobs])
    stamp = exe + ".key"
    if not (os.path.exists(exe) and os.path.exists(stamp) and read(stamp).decode() == key):
        p = subprocess.run(["g++", "-o", exe + ".tmp"] + [j[3] for j in jobs] +
                           ["-ljsoncpp", "-lfmt", "-lfst", "-licuuc", "-ldl", "-lpthread", "-rdynamic"],
                           capture_output=True, text=True)
        if p.returncode:
            sys.stderr.write("build: link failed\n%s\n" % p.stderr[-4000:])
            return 2
        os.rename(exe + ".tmp", exe)
        with open(stamp, "w") as f:
            f.write(key)
    return 0


if __name__ == "__main__":
    sys.exit(main())
