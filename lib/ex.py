"""The shipped example designs, compiled by their own compilers and run on their own drivers."""
import glob, shutil
import yaml
from rad import *

PYNUM = "/opt/veriftools/pyvenv/bin/python3"
TREE = os.path.join(REPO, "rad-sim/example-designs")
SEEDED = "import random,numpy,runpy,sys; s=int(sys.argv[1]); random.seed(s); numpy.random.seed(s); sys.argv=sys.argv[2:]; runpy.run_path(sys.argv[0], run_name='__main__')"
FRESH = ("weight_mifs", "inst_mifs", "input_mifs", "embedding_tables", "instructions", "mvm_weights")


def stage(tag, design, cfg=None):
    """A skeleton tree with the design's own configuration (cfg: {section: {knob: value}} on top), data files and constraint files."""
    d = os.path.join(BUILD, "ex", tag)
    if os.path.isdir(d):
        rmtree(d)
    os.makedirs(d)
    c = yaml.safe_load(open(os.path.join(TREE, design, "config.yml")))
    for sec, kv in (cfg or {}).items():
        c.setdefault(sec, {}).update(kv)
    root, r = configure(c, d, design)
    if not config_ok(root, r):
        raise HarnessError("config.py failed on %s: %s" % (design, r.out[-600:]))
    dd = os.path.join(root, "example-designs", design)
    for f in glob.glob(os.path.join(TREE, design, "*.place")) + glob.glob(os.path.join(TREE, design, "*.clks")):
        shutil.copy(f, dd)
    comp = os.path.join(TREE, design, "compiler")
    if os.path.isdir(comp):
        os.makedirs(os.path.join(dd, "compiler"))
        os.makedirs(os.path.join(dd, "modules"))
        for f in os.listdir(comp):
            if f.endswith((".py", ".csv")):
                shutil.copy(os.path.join(comp, f), os.path.join(dd, "compiler"))
    return root, dd


def compile_(dd, script, args, seed):
    r = run([PYNUM, "-c", SEEDED, str(seed), script] + [str(a) for a in args], cwd=os.path.join(dd, "compiler"), env=base_env(), timeout=120)
    return r


def simulate(root, exe, timeout=300):
    r = run([exe], cwd=root, env=base_env(), timeout=timeout, outfile=os.path.join(root, "stdout.log"))
    r.passed = bool(re.search(r"SUCCESS|Simulation PASSED", r.out))
    r.failed = bool(re.search(r"FAILURE|Simulation FAILED", r.out))
    return r


def rows(path):
    return [[int(x) for x in l.split()] for l in open(path) if l.strip()]


# ------------------------------------------------------------------ what the data files mean
def wrap(v, bits):
    v &= (1 << bits) - 1
    return v - (1 << bits) if v >> (bits - 1) else v


def blocks_of(n, native, mvms):
    """Blocks of `native` elements that a vector of n takes when it is split over mvms units."""
    return -(-(-(-n // native)) // mvms) * mvms


def matvec(blocks, x, bits):
    """blocks[j][i][d] is row d of the block that maps input block i to output block j."""
    out = []
    for row in blocks:
        for d in range(len(row[0])):
            out.append(wrap(sum(w * v for i, b in enumerate(row) for w, v in zip(b[d], x[i])), bits))
    return out


def mlp_weights(dd, layers, mvms, limx, limy, native, folder, name):
    """Weight blocks of every layer: unit m holds input blocks m, m+M, ..., one file per row, output blocks innermost."""
    W = []
    for l in range(layers):
        M = mvms[l]
        files = [[rows(os.path.join(dd, "compiler", folder, name % (l, m, d))) for d in range(native)] for m in range(M)]
        n = limx[l] // M * limy[l]
        for m in range(M):
            for d in range(native):
                if len(files[m][d]) != n or any(len(r) != native for r in files[m][d]):
                    return None, "layer %d unit %d row %d: %d vectors, %d needed" % (l, m, d, len(files[m][d]), n)
        W.append([[[files[i % M][d][(i // M) * limy[l] + j] for d in range(native)] for i in range(limx[l])] for j in range(limy[l])])
    return W, None


def run_net(W, x, native, bits):
    for B in W:
        x = matvec(B, [x[k:k + native] for k in range(0, len(x), native)], bits)
    return [x[k:k + native] for k in range(0, len(x), native)]


def mlp_golden(dd, ins, dims, mvms, native, bits, last_over_first):
    """Expected output vectors of an MLP from the weight and input files; None and a reason when the files do not fit the model."""
    L = len(dims)
    sizes = [ins] + dims
    limx = [blocks_of(sizes[l], native, mvms[l]) for l in range(L)]
    limy = [limx[l + 1] for l in range(L - 1)] + [blocks_of(dims[-1], native, mvms[0] if last_over_first else 1)]
    W, why = mlp_weights(dd, L, mvms, limx, limy, native, "weight_mifs", "layer%d_mvm%d_dot%d.mif")
    if W is None:
        return None, why
    inp = [rows(os.path.join(dd, "compiler/input_mifs/inputs_mvm%d.mif" % m)) for m in range(mvms[0])]
    per = limx[0] // mvms[0]
    n = len(inp[0]) // per
    if any(len(f) != n * per for f in inp) or not n:
        return None, "input files of %s vectors for %d blocks each" % ([len(f) for f in inp], per)
    out = []
    for k in range(n):
        x = [v for i in range(limx[0]) for v in inp[i % mvms[0]][k * per + i // mvms[0]]]
        out += run_net(W, x, native, bits)
    for l in range(L):  # rows and columns beyond the layer's size do nothing
        for j in range(limy[l]):
            for i in range(limx[l]):
                for d in range(native):
                    for e in range(native):
                        if (j * native + d >= dims[l] or i * native + e >= sizes[l]) and W[l][j][i][d][e]:
                            return None, "layer %d: weight (%d,%d) outside the layer's %dx%d" % (l, j * native + d, i * native + e, dims[l], sizes[l])
    return out, None


def dlrm_golden(dd, tables, hidden, mvms, native, channels, bits=16):
    """Expected output vectors of the recommendation model. tables: (vector length, entries), in decreasing order of size."""
    comp = os.path.join(dd, "compiler")
    mem = []
    for c in range(channels):
        m = {}
        for l in open(os.path.join(comp, "embedding_tables/channel_%d.dat" % c)):
            a, b = l.split()
            m[int(a)] = [wrap(int(b[len(b) - (k + 1) * bits:len(b) - k * bits], 2), bits) for k in range(len(b) // bits)]
        mem.append(m)
    lines = [[int(x) for x in l.split()] for l in open(os.path.join(comp, "embedding_indecies.in"))]
    nt, n = lines[0]
    if nt != len(tables) or len(lines) != 1 + 3 * n or any(len(l) != nt for l in lines[1:]):
        return None, "index file for %d tables and %d inputs with %d lines" % (nt, n, len(lines))
    sizes = [sum(v for v, _ in tables)] + hidden
    L = len(hidden)
    limx = [blocks_of(sizes[l], native, mvms[l]) for l in range(L)]
    limy = limx[1:] + [blocks_of(hidden[-1], native, mvms[0])]
    W, why = mlp_weights(dd, L, mvms, limx, limy, native, "mvm_weights", "layer%d_mvm%d_dot%d.dat")
    if W is None:
        return None, why
    S = []  # sparse rows
    for l in range(L):
        S.append([[(i * native + e, w) for i in range(limx[l]) for e, w in enumerate(W[l][j][i][d]) if w] for j in range(limy[l]) for d in range(native)])
        for r, row in enumerate(S[l]):
            for c, w in row:
                if r >= sizes[l + 1] or c >= sizes[l]:
                    return None, "layer %d: weight (%d,%d) outside the layer's %dx%d" % (l, r, c, sizes[l + 1], sizes[l])
    out, seen = [], {}
    for k in range(n):
        idx, ch, base = lines[1 + 3 * k:4 + 3 * k]
        x = []
        for t, (v, entries) in enumerate(tables):
            if idx[t] % 64 or not 0 <= idx[t] < entries * 64:
                return None, "input %d: index %d in a table of %d entries" % (k, idx[t], entries)
            if seen.setdefault((ch[t], base[t]), t) != t:
                return None, "tables %d and %d both start at %d of channel %d" % (t, seen[(ch[t], base[t])], base[t], ch[t])
            word = mem[ch[t]].get(base[t] + idx[t])
            if word is None:
                return None, "input %d: table %d has no entry at %d" % (k, t, idx[t])
            x += word[:v]
        x += [0] * (limx[0] * native - len(x))
        for rows_ in S:
            x = [wrap(sum(w * x[c] for c, w in row), bits) for row in rows_]
        out += [x[a:a + native] for a in range(0, len(x), native)]
    return out, None
