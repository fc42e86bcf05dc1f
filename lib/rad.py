"""Configuring, building and running RAD-Sim designs from /repo's working tree, in scratch copies."""
import os, re, shutil, threading
import yaml
from common import *

FLAVORS = {
    "plain": "-O0 -g0 -w",
    "san": "-O1 -g1 -w -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all -fsanitize-recover=shift",
}

BASE = {
    "config rad1": {
        "design": {"name": "vt", "noc_placement": ["vt.place"], "clk_periods": [5.0]},
    },
    "noc": {
        "type": ["2d"], "num_nocs": 1, "clk_period": [1.0], "payload_width": [166], "topology": ["mesh"],
        "dim_x": [4], "dim_y": [4], "routing_func": ["dim_order"], "vcs": [5], "vc_buffer_size": [8],
        "output_buffer_size": [8], "num_packet_types": [5], "router_uarch": ["iq"], "vc_allocator": ["islip"],
        "sw_allocator": ["islip"], "credit_delay": [1], "routing_delay": [1], "vc_alloc_delay": [1],
        "sw_alloc_delay": [1]},
    "noc_adapters": {
        "clk_period": [1.25], "fifo_size": [16], "obuff_size": [2], "in_arbiter": ["fixed_rr"],
        "out_arbiter": ["priority_rr"], "vc_mapping": ["direct"]},
    "cluster": {
        "sim_driver_period": 5.0, "telemetry_log_verbosity": 0, "telemetry_traces": [], "num_rads": 1,
        "cluster_configs": ["rad1"]},
}


def make_config(noc=None, adapters=None, cluster=None, rads=None, interfaces=None):
    import copy
    c = copy.deepcopy(BASE)
    if rads is not None:
        del c["config rad1"]
        c = {**{"config " + n: r for n, r in rads.items()}, **c}
    c["noc"].update(noc or {})
    c["noc_adapters"].update(adapters or {})
    c["cluster"].update(cluster or {})
    if interfaces:
        c["interfaces"] = interfaces
    return c


_skel_lock = threading.Lock()


def fake_cmake_dir():
    d = os.path.join(BUILD, "fakebin")
    p = os.path.join(d, "cmake")
    with _skel_lock:
        if not os.path.exists(p):
            os.makedirs(d, exist_ok=True)
            with open(p + ".tmp", "w") as f:
                f.write("#!/bin/sh\nexit 0\n")
            os.chmod(p + ".tmp", 0o755)
            os.replace(p + ".tmp", p)
    return d


def configure(cfg, dst, design="vt", extra=(), timeout=120):
    """Run the tree's own config.py on cfg in the skeleton tree dst/rad-sim (no compilation).
    Returns (root, result)."""
    root = os.path.join(dst, "rad-sim")
    os.makedirs(os.path.join(root, "sim/noc"), exist_ok=True)
    os.makedirs(os.path.join(root, "example-designs", design), exist_ok=True)
    for d in extra:
        os.makedirs(os.path.join(root, "example-designs", d), exist_ok=True)
    shutil.copy(os.path.join(REPO, "rad-sim/config.py"), root)
    text = cfg if isinstance(cfg, str) else yaml.safe_dump(cfg, sort_keys=False)
    for d in (design, *extra):
        with open(os.path.join(root, "example-designs", d, "config.yml"), "w") as f:
            f.write(text)
    env = base_env()
    env["PATH"] = fake_cmake_dir() + ":" + env["PATH"]
    r = run(["/usr/bin/python3", "config.py", design, *extra], cwd=root, env=env, timeout=timeout)
    link = os.path.join(root, "sim/dram")
    if not os.path.lexists(link):
        os.symlink(os.path.join(REPO, "rad-sim/sim/dram"), link)
    return root, r


def config_ok(root, r):
    return r.rc == 0 and "configured successfully" in r.out and os.path.exists(os.path.join(root, "sim/radsim_knobs"))


_build_locks = {}
_built = {}
_shared_locks, _shared = {}, set()
_lk = threading.Lock()


def sync_tree(dst):
    """A copy of /repo/rad-sim without build products."""
    os.makedirs(dst, exist_ok=True)
    r = run(["rsync", "-rlpc", "--delete", "--exclude=/build", "--exclude=__pycache__", "--exclude=/sim/main.cpp",
             "--exclude=/sim/radsim_defines.hpp", "--exclude=/test_legacy", "--exclude=/example-designs/*/build", "--exclude=/example-designs/npu",
             REPO + "/rad-sim/", dst + "/"], timeout=300)
    if r.rc:
        raise HarnessError("rsync failed: " + r.out[-500:])


def build_binary(root, flavor="plain", design="vt", designs=None, overlay=None, jobs=JOBS, extra_flags=""):
    """The simulator binary for the configuration in `root` (as written by config.py)."""
    defines = open(os.path.join(root, "sim/radsim_defines.hpp")).read()
    main = open(os.path.join(root, "sim/main.cpp")).read()
    defines = re.sub(r'#define RADSIM_ROOT_DIR ".*"', '#define RADSIM_ROOT_DIR "."', defines)
    key = sha(defines, main, FLAVORS[flavor], design, designs, extra_flags)
    with _lk:
        lock = _build_locks.setdefault(key, threading.Lock())
    with lock:
        if key in _built:
            return _built[key]
        bdir = os.path.join(BUILD, "bin", key)
        src = os.path.join(bdir, "rad-sim")
        sync_tree(src)
        if overlay is None and design == "vt":
            overlay = os.path.join(VERIF, "harness/vt")
        for d, o in overlay.items() if isinstance(overlay, dict) else [(design, overlay)] if overlay else []:
            run(["rsync", "-rlpc", "--delete", o + "/", os.path.join(src, "example-designs", d) + "/"])
        for n, t in (("sim/radsim_defines.hpp", defines), ("sim/main.cpp", main)):
            p = os.path.join(src, n)
            if not os.path.exists(p) or open(p).read() != t:
                with open(p, "w") as f:
                    f.write(t)
        out = os.path.join(src, "build")
        os.makedirs(out, exist_ok=True)
        env = base_env(CXXFLAGS=FLAVORS[flavor] + " " + extra_flags, CFLAGS=FLAVORS[flavor],
                       LDFLAGS="-fuse-ld=gold -fsanitize=address,undefined" if flavor == "san" else "-fuse-ld=gold")
        log = os.path.join(bdir, "build.log")
        r = run([CMAKE, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Debug", "-DCMAKE_CXX_FLAGS_DEBUG=", "-DCMAKE_C_FLAGS_DEBUG=", "-DDESIGN_NAMES=" + (designs or design), "-S", src, "-B", out],
                env=env, timeout=300, outfile=log)
        if r.rc:
            raise BuildError("cmake failed:\n" + r.out[-3000:])
        with _shared_locks.setdefault((flavor, extra_flags), threading.Lock()):  # what is the same in every simulator is compiled once
            if (flavor, extra_flags) not in _shared:
                run(["ninja", "-C", out, "-j%d" % JOBS, "booksim", "dramsim3"], env=env, timeout=1500, outfile=log)
                _shared.add((flavor, extra_flags))
        r = run(["ninja", "-C", out, "-j%d" % jobs, "system"], env=env, timeout=1500, outfile=log)
        if r.rc:
            raise BuildError("build failed:\n" + r.out[-4000:])
        exe = None
        for dp, dn, fn in os.walk(out):
            if "system" in fn and os.access(os.path.join(dp, "system"), os.X_OK):
                exe = os.path.join(dp, "system")
        if not exe:
            raise BuildError("no system binary")
        _built[key] = exe
        return exe
