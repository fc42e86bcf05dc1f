"""Shared plumbing of the checks: paths, seeds, verdicts, evidence."""
import json, os, random, shutil, subprocess, sys, time, hashlib, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
JOBS = min(8, os.cpu_count() or 8)
CMAKE = "/usr/bin/cmake"


class HarnessError(Exception):
    """The check could not do its work (neither held nor violated)."""


class BuildError(HarnessError):
    pass


def base_env(**extra):
    env = {
        "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "HOME": os.environ.get("HOME", "/root"), "LANG": "C.UTF-8",
        "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1",
        "CC": "gcc", "CXX": "g++", "SystemCLanguage_DIR": "/opt/vp/cmake",
        "CCACHE_DIR": os.path.join(BUILD, "ccache"), "CCACHE_NOHASHDIR": "1",
        "CCACHE_MAXSIZE": "4G", "CCACHE_BASEDIR": BUILD, "CCACHE_SLOPPINESS": "time_macros,include_file_mtime,include_file_ctime",
        "CMAKE_C_COMPILER_LAUNCHER": "ccache", "CMAKE_CXX_COMPILER_LAUNCHER": "ccache",
        "SYSTEMC_DISABLE_COPYRIGHT_MESSAGE": "1",
        "SC_COPYRIGHT_MESSAGE": "DISABLE",
        "ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_odr_violation=0",
        "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=0:exitcode=98",
    }
    env.update({k: str(v) for k, v in extra.items()})
    return env


class Res:
    def __init__(self, rc, out, timed_out, wall):
        self.rc, self.out, self.timed_out, self.wall = rc, out, timed_out, wall


def run(cmd, cwd=None, env=None, timeout=600, shell=False, outfile=None):
    """Run a command in its own process group; kill the group on time-out."""
    t0 = time.time()
    tmp = None
    if outfile is None:
        import tempfile
        os.makedirs(BUILD, exist_ok=True)
        fd, outfile = tempfile.mkstemp(dir=BUILD, prefix="out.")
        os.close(fd)
        tmp = outfile
    with open(outfile, "wb") as fo:
        p = subprocess.Popen(cmd, cwd=cwd, env=env or base_env(), shell=shell, stdin=subprocess.DEVNULL,
                             stdout=fo, stderr=subprocess.STDOUT, start_new_session=True)
        to = False
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            to = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            rc = p.wait()
    with open(outfile, "rb") as fi:
        fi.seek(0, 2)
        n = fi.tell()
        fi.seek(0)
        data = fi.read() if n < 40_000_000 else fi.read(20_000_000) + b"\n...\n" + (fi.seek(n - 20_000_000), fi.read())[1]
    if tmp:
        os.unlink(tmp)
    return Res(rc, data.decode("utf-8", "replace"), to, time.time() - t0)


def rmtree(path):
    path = os.path.abspath(path)
    assert path.startswith(os.path.abspath(BUILD) + os.sep), path
    shutil.rmtree(path, ignore_errors=True)


def pmap(fn, items, jobs=JOBS):
    items = list(items)
    with ThreadPoolExecutor(max_workers=max(1, jobs)) as ex:
        return list(ex.map(fn, items))


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:16]


# ------------------------------------------------------------------ verdicts
def known_findings():
    """known_findings.txt: lines 'finding: property=<id> key=<key> <what>' (suppress that key) and
    'fixed: property=<id> <commit> <what>' (suppress nothing)."""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                rest = line[len("finding:"):].split()
                kv = dict(x.split("=", 1) for x in rest[:2])
                out.setdefault(kv["property"], {})[kv["key"]] = " ".join(rest[2:])
    return out


class Check:
    """Collects observations and violations for one property and writes the evidence."""

    def __init__(self, prop, tier=None, level="exploration"):
        self.prop, self.tier, self.level = prop, tier or TIER, level
        self.t0 = time.time()
        self.evaluations = 0
        self.nontrivial = set()
        self.samples = []
        self.counts = {}
        self.viol = {}        # key -> (text, files)
        self.known = known_findings().get(prop, {})
        self.known_seen = {}
        self.known_listed = dict(self.known)
        self.rule = ""
        self.assumptions = []
        self.inconclusive = []

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def peak(self, k, n):
        self.counts[k] = max(self.counts.get(k, 0), n)

    def case(self, key=None, sample=None):
        """One evaluated case; key (hashable) marks it as distinct and non-trivial."""
        self.evaluations += 1
        if key is not None:
            self.nontrivial.add(key)
        if sample is not None and len(self.samples) < 12:
            self.samples.append(sample)

    def violation(self, key, text, files=None):
        """files: {name: text or path} kept for the replay."""
        if key in self.known:
            self.known_seen.setdefault(key, text)
            return
        if key not in self.viol:
            kept = {}  # what the files hold now: the run's directory may be gone at the end
            for n, v in (files or {}).items():
                if isinstance(v, str) and v.startswith("/") and "\n" not in v and os.path.isfile(v):
                    v = open(v, errors="replace").read(50_000_000)
                kept[n] = v
            self.viol[key] = (text, kept)

    def finish(self, min_nontrivial=1, need=()):
        ev_dir = os.path.join(VERIF, "evidence")
        os.makedirs(ev_dir, exist_ok=True)
        for k, what in self.known_listed.items():
            print("KNOWN-FINDING: property=%s key=%s %s" % (self.prop, k, what))
        cov = {"evaluations": self.evaluations, "distinct_nontrivial": len(self.nontrivial), "rule": self.rule,
               "samples": self.samples[:12]}
        cov.update({"observed_" + k: v for k, v in sorted(self.counts.items())})
        if self.inconclusive:
            cov["inconclusive"] = self.inconclusive[:20]
        ev = {"property": self.prop, "tier": self.tier, "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.viol)}
        tmp = os.path.join(ev_dir, self.prop + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True, default=str)
        os.replace(tmp, os.path.join(ev_dir, self.prop + ".json"))
        if self.viol:
            for i, (k, (text, files)) in enumerate(sorted(self.viol.items())):
                d = os.path.join(BUILD, "replay", self.prop, "%02d_%s" % (i, sha(k)))
                if os.path.isdir(d):
                    rmtree(d)
                os.makedirs(d)
                with open(os.path.join(d, "violation.txt"), "w") as f:
                    f.write("key: %s\n%s\nVERIF_SEED=%d VERIF_TIER=%s\n" % (k, text, SEED, self.tier))
                for n, v in files.items():
                    try:
                        if isinstance(v, str) and os.path.isdir(v):
                            shutil.copytree(v, os.path.join(d, n), symlinks=True,
                                            ignore=lambda p, names: [x for x in names if os.path.islink(os.path.join(p, x)) or
                                                                     (os.path.isfile(os.path.join(p, x)) and os.path.getsize(os.path.join(p, x)) > 5_000_000)])
                        elif isinstance(v, str) and "\n" not in v and os.path.isfile(v):
                            shutil.copy(v, os.path.join(d, n))
                        else:
                            with open(os.path.join(d, n), "w") as f:
                                f.write(str(v))
                    except OSError:
                        pass
                if i < 10:
                    print("  %s: %s" % (k, text.split("\n")[0][:400]))
                    print("VIOLATION property=%s replay=%s" % (self.prop, d))
            print("%s: %d distinct violation(s) in %d cases" % (self.prop, len(self.viol), self.evaluations))
            return 1
        if len(self.nontrivial) < min_nontrivial:
            raise HarnessError("only %d non-trivial cases (need %d): inconclusive %s" % (len(self.nontrivial), min_nontrivial, self.inconclusive[:5]))
        for k in need:
            if not self.counts.get(k):
                raise HarnessError("the workload never produced %s" % k)
        print("%s: held on %d cases (%d distinct non-trivial), %.0f s; %s" % (
            self.prop, self.evaluations, len(self.nontrivial), time.time() - self.t0,
            ", ".join("%s=%s" % kv for kv in sorted(self.counts.items()))))
        return 0
