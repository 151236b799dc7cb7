"""Build an out-of-tree copy of /repo's arcticpy package, in one of several instrumented variants.

  plain   the extensions as shipped (no line tracing, same C semantics)
  bounds  every @cython.boundscheck(False) / wraparound / initializedcheck override switched to the
          checking setting: any out-of-range memoryview index raises IndexError instead of
          touching memory (negative indices count as out of range where wraparound is off)
  asan    gcc -fsanitize=address,undefined on the generated C, run with libasan preloaded

A build is keyed by the contents of every source file of the package and this script, so it is
always made from /repo's current working tree; nothing is written in /repo.
"""
import fcntl, hashlib, os, re, shutil, subprocess, sys, sysconfig, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
VERIF = Path(__file__).resolve().parent.parent
VENV_PY = "/opt/venv/bin/python"
BUILD = Path(os.environ.get("VERIF_BUILD", str(VERIF / ".build")))
VARIANTS = ("plain", "bounds", "asan")


def sources():
    pkg = REPO / "arcticpy"
    return sorted(p for p in pkg.rglob("*") if p.suffix in (".py", ".pyx", ".pxd", ".pxi"))


def key(variant):
    h = hashlib.sha256()
    for p in sources() + [Path(__file__)]:
        h.update(str(p.name).encode() + b"\0" + p.read_bytes() + b"\0")
    return f"{variant}-{h.hexdigest()[:20]}"


def _strip_unsafe(text):
    text = re.sub(r"(boundscheck\s*[=(]\s*)False", r"\1True", text)
    text = re.sub(r"(initializedcheck\s*[=(]\s*)False", r"\1True", text)
    return text


def _compile(variant, d, pyx):
    mod = pyx.stem
    if variant == "bounds":
        pyx.write_text(_strip_unsafe(pyx.read_text()))
    cmd = [VENV_PY, "-m", "cython", "-3", str(pyx), "-o", str(pyx.with_suffix(".c"))]
    if variant == "bounds":
        cmd += ["-X", "boundscheck=True"]
    r = subprocess.run(cmd, cwd=d, capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError(f"cython failed on {mod}: {r.stdout}{r.stderr}")
    inc = sysconfig.get_paths()["include"]
    npinc = subprocess.run([VENV_PY, "-c", "import numpy;print(numpy.get_include())"],
                           capture_output=True, text=True, check=True).stdout.strip()
    pyinc = subprocess.run([VENV_PY, "-c", "import sysconfig;print(sysconfig.get_paths()['include'])"],
                           capture_output=True, text=True, check=True).stdout.strip()
    ext = subprocess.run([VENV_PY, "-c", "import sysconfig;print(sysconfig.get_config_var('EXT_SUFFIX'))"],
                         capture_output=True, text=True, check=True).stdout.strip()
    flags = ["-O1", "-std=c99", "-fwrapv", "-fPIC", "-DNDEBUG", "-w"]
    if variant == "asan":
        flags = ["-O1", "-g", "-std=gnu99", "-fno-omit-frame-pointer", "-fPIC", "-w",
                 "-fsanitize=address,undefined", "-fno-sanitize=alignment,function" if False else "-fno-sanitize=alignment"]
    out = pyx.parent / f"{mod}{ext}"
    cmd = ["gcc", *flags, "-shared", f"-I{pyinc}", f"-I{npinc}", str(pyx.with_suffix(".c")), "-o", str(out)]
    r = subprocess.run(cmd, cwd=d, capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError(f"gcc failed on {mod}: {r.stderr[-3000:]}")


def build(variant="plain"):
    """-> directory to put on PYTHONPATH"""
    assert variant in VARIANTS
    BUILD.mkdir(parents=True, exist_ok=True)
    dest = BUILD / key(variant)
    if (dest / "ok").exists():
        return dest
    with open(BUILD / f"{variant}.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if (dest / "ok").exists():
            return dest
        # drop stale builds of this variant
        old = sorted((p for p in BUILD.glob(f"{variant}-*") if p.is_dir()), key=lambda p: p.stat().st_mtime)
        for p in old[:-3]:
            shutil.rmtree(p, ignore_errors=True)
        tmp = Path(tempfile.mkdtemp(prefix=f"tmp-{variant}-", dir=BUILD))
        try:
            for p in sources():
                q = tmp / p.relative_to(REPO)
                q.parent.mkdir(parents=True, exist_ok=True)
                q.write_bytes(p.read_bytes())
            pyxs = sorted((tmp / "arcticpy").glob("*.pyx"))
            with ThreadPoolExecutor(4) as ex:
                list(ex.map(lambda p: _compile(variant, tmp, p), pyxs))
            (tmp / "ok").write_text("ok\n")
            if dest.exists():
                shutil.rmtree(dest)
            os.rename(tmp, dest)
        finally:
            if tmp.exists():
                shutil.rmtree(tmp, ignore_errors=True)
    return dest


def env_for(variant, base=None):
    env = dict(os.environ if base is None else base)
    for k in list(env):
        if k.startswith("PYTHON") and k != "PYTHONHASHSEED":
            env.pop(k)
    env.update(PYTHONPATH=str(build(variant)), PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONWARNINGS="ignore")
    if variant == "asan":
        lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()
        lib2 = subprocess.run(["gcc", "-print-file-name=libubsan.so"], capture_output=True, text=True).stdout.strip()
        env["LD_PRELOAD"] = f"{lib}:{lib2}"
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:halt_on_error=1:allocator_may_return_null=1"
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=77"
        env["PYTHONMALLOC"] = "malloc"
    return env


if __name__ == "__main__":
    for v in sys.argv[1:] or VARIANTS:
        t = time.time()
        print(v, build(v), f"{time.time() - t:.1f}s")
