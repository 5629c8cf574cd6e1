"""Builds the engine, the runtime models, the bitcode of /repo's current sources and the linked harnesses (content-addressed cache)."""
import hashlib, os, re, threading, subprocess, glob, concurrent.futures as cf, tempfile, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYMX_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
CLANGXX, CLANG, LINK, OPT = "clang++-18", "clang-18", "llvm-link-18", "opt-18"

TUS = ("lib_common str_util hash_util time_util compress file_util file_std file_mmap file_pos file_poly message_queue "
       "dbm dbm_ulog dbm_common_impl dbm_hash_impl dbm_hash dbm_tree_impl dbm_tree dbm_skip_impl dbm_skip dbm_tiny "
       "dbm_baby dbm_cache dbm_std dbm_poly dbm_shard dbm_async langc").split()

BASEFLAGS = ["-std=c++17", "-pthread", "-fPIC", "-fsigned-char", "-DNDEBUG", "-D_GNU_SOURCE=1", "-D_ISOC99_SOURCE=1",
             "-D_POSIX_C_SOURCE=999999L", "-D_FILE_OFFSET_BITS=64", "-D_REENTRANT", "-D__EXTENSIONS__",
             '-D_TKRZW_PREFIX="/usr/local"', '-D_TKRZW_INCLUDEDIR=""', '-D_TKRZW_LIBDIR=""', '-D_TKRZW_BINDIR=""',
             '-D_TKRZW_LIBEXECDIR=""', '-D_TKRZW_APPINC=""', '-D_TKRZW_APPLIBS=""',
             '-D_TKRZW_PKG_VERSION="1.0.32"', '-D_TKRZW_LIB_VERSION="1.75.0"',
             "-fno-vectorize", "-fno-slp-vectorize", "-fwrapv", "-mlong-double-64", "-gline-tables-only", "-emit-llvm", "-c",
             "-Wno-everything", "-I" + VERIF + "/rt/include", "-I" + REPO, "-I" + VERIF + "/rt"]
COMP = ["-D_TKRZW_COMP_ZLIB", "-D_TKRZW_COMP_ZSTD", "-D_TKRZW_COMP_LZ4", "-D_TKRZW_COMP_LZMA"]
CFLAGS = ["-O1", "-fno-builtin", "-fno-vectorize", "-fno-slp-vectorize", "-mlong-double-64", "-gline-tables-only",
          "-D_GNU_SOURCE", "-fPIC", "-emit-llvm", "-c", "-Wno-everything", "-I" + VERIF + "/rt"]


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()[:24]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        out = r.stdout.decode(errors="replace")
        err = [l for l in out.splitlines() if "error" in l][:4] or out.splitlines()[-4:]
        raise BuildError(os.path.basename(cmd[0]) + " " + cmd[-3] + ": " + " | ".join(l[:300] for l in err))


def produce(out, mk):
    """Runs mk(tmp) unless out exists; atomic."""
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".%d.%d.tmp" % (os.getpid(), __import__("threading").get_ident())
    mk(tmp)
    os.replace(tmp, out)
    return out


def engine():
    src = sorted(glob.glob(VERIF + "/engine/*"))
    key = sha(*[rd(f) for f in src if os.path.isfile(f)])
    out = CACHE + "/engine-" + key + "/symx"
    if not os.path.exists(out):
        for old in glob.glob(CACHE + "/engine-*"):
            shutil.rmtree(old, ignore_errors=True)
        run(["make", "-s", "-C", VERIF + "/engine", "OUT=" + os.path.dirname(out)])
    return out


def headers_key():
    return sha(*[os.path.basename(f).encode() + rd(f) for f in sorted(glob.glob(REPO + "/*.h"))])


def rt_key():
    fs = sorted(glob.glob(VERIF + "/rt/*")) + sorted(glob.glob(VERIF + "/rt/include/*"))
    return sha(*[os.path.basename(f).encode() + rd(f) for f in fs if os.path.isfile(f)])


def scaled(t, subst):
    """The text of a translation unit with named constants scaled down; fails when a constant is not found."""
    txt = rd(REPO + "/tkrzw_%s.cc" % t)
    for tu, pat, rep in subst:
        if tu == t:
            txt, n = re.subn(pat.encode(), rep.encode(), txt)
            if n != 1:
                raise BuildError("constant to scale not found in tkrzw_%s.cc: %s" % (t, pat))
    return txt


_liblock = threading.Lock()


def library(subst=()):
    with _liblock:
        return library1(subst)


def library1(subst):
    """One bitcode module: every library translation unit plus the runtime models."""
    hk, rk = headers_key(), rt_key()
    key = sha(hk, rk, " ".join(BASEFLAGS), *[scaled(t, subst) for t in TUS])
    out = CACHE + "/lib/" + key + ".bc"
    if os.path.exists(out):
        return out, key
    jobs = []
    for t in TUS:
        txt = scaled(t, subst)
        k = sha(hk, rk, " ".join(BASEFLAGS), txt)
        fl = BASEFLAGS + ["-O2"]
        if t == "compress":
            fl = fl + COMP
        if t == "str_util":
            fl = fl + ["-include", VERIF + "/rt/include/rt_regex.h"]
        srcf = REPO + "/tkrzw_%s.cc" % t
        if any(x[0] == t for x in subst):
            os.makedirs(CACHE + "/tu", exist_ok=True)
            srcf = CACHE + "/tu/%s-%s.cc" % (t, k)
            with open(srcf + ".%d" % os.getpid(), "wb") as f:
                f.write(b'#line 1 "%s/tkrzw_%s.cc"\n' % (REPO.encode(), t.encode()) + txt)
            os.rename(srcf + ".%d" % os.getpid(), srcf)
            fl = fl + ["-I" + REPO]
        jobs.append((CACHE + "/tu/%s-%s.bc" % (t, k), [CLANGXX] + fl + [srcf]))
    for f in ("rt_libc.c", "rt_posix.c", "rt_thread.c"):
        jobs.append((CACHE + "/rt/%s-%s.bc" % (f, rk), [CLANG] + CFLAGS + [VERIF + "/rt/" + f]))
    for f in ("rt_cxx", "rt_locale"):
        jobs.append((CACHE + "/rt/%s-%s.bc" % (f, rk), [CLANGXX] + [x for x in BASEFLAGS] + ["-O2", "-fno-access-control", "-fno-builtin", VERIF + "/rt/%s.cc" % f]))
    with cf.ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(produce, o, lambda tmp, c=c: run(c + ["-o", tmp])) for o, c in jobs]
        for f in fs:
            f.result()
    produce(out, lambda tmp: run([LINK] + [o for o, _ in jobs] + ["-o", tmp]))
    prune()
    return out, key


def prune():
    """Keeps the cache small: the newest entries of every kind."""
    for d, n in (("lib", 6), ("tu", 400), ("rt", 40), ("h", 1200), ("n", 200)):
        fs = sorted(glob.glob(CACHE + "/" + d + "/*"), key=lambda f: -os.path.getmtime(f))
        for f in fs[n:]:
            try:
                os.unlink(f)
            except OSError:
                pass


def harness(src, defs, subst=()):
    """Links one harness variant with the library; returns the bitcode file."""
    lib, lk = library(subst)
    hk = sha(*[rd(f) for f in sorted(glob.glob(VERIF + "/harness/*.h"))])
    key = sha(lk, hk, rd(VERIF + "/harness/" + src), " ".join(defs))
    out = CACHE + "/h/" + key + ".bc"

    def mk(tmp):
        d = tempfile.mkdtemp(prefix="h", dir=CACHE)
        try:
            a, b = d + "/a.bc", d + "/b.bc"
            run([CLANGXX] + BASEFLAGS + ["-O2", "-fno-access-control", "-I" + VERIF + "/harness", "-I" + VERIF + "/rt"] + ["-D" + x for x in defs] + [VERIF + "/harness/" + src, "-o", a])
            run([LINK, a, lib, "-o", b])
            run([OPT, "-passes=internalize,globaldce", "-internalize-public-api-list=symx_main", b, "-o", tmp])
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return produce(out, mk)


def native(bc):
    """The same bitcode compiled to machine code with the native runtime."""
    key = sha(rd(bc), rd(VERIF + "/rt/native.c"), "2")
    out = CACHE + "/n/" + key

    def mk(tmp):
        o, n, st = tmp + ".o", tmp + ".n.o", tmp + ".s"
        run([CLANG, "-O1", "-w", "-mlong-double-64", "-c", VERIF + "/rt/native.c", "-o", n])
        run([OPT, "--strip-debug", bc, "-o", st + ".bc"])
        run([CLANGXX, "-O0", "-w", "-fPIC", "-c", st + ".bc", "-o", o])
        link = [CLANGXX, o, n, "-o", tmp, "-pthread", "-lm"]
        r = subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:   # functions of external libraries: reaching one makes the run inconclusive
            und = sorted(set(re.findall(r"undefined reference to `(\w+)'", r.stdout.decode(errors="replace"))))
            with open(st + ".c", "w") as f:
                f.write("void _exit(int);\n" + "".join("void %s(void) { _exit(77); }\n" % u for u in und))
            run(link[:3] + ["-x", "c", st + ".c", "-x", "none"] + link[3:])
            os.unlink(st + ".c")
        for f in (o, n, st + ".bc"):
            os.unlink(f)
    return produce(out, mk)


if __name__ == "__main__":
    engine()
    library()
