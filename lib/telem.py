"""Offline checks of what the simulator's own telemetry reports against what the ports' monitors saw."""
import csv, math, os, re
from groups import *


def pairs_of(sc, events):
    """Every transfer accepted from a port: dict(noc, rad, src port, dst port, t0, t1 or None, dataw), in order of time."""
    out = []
    info = lambda rad, port: sc.ports.get((rad, port)) or sc.ports.get((rad, port.rsplit(".", 1)[0])) or {}
    byuser = {}
    for e in events:
        if e[0] == "S":
            p = info(int(e[1]), e[3])
            x = dict(rad=int(e[1]), src=e[3], drad=int(e[4]), dst=e[5], t0=int(e[2]), t1=None, noc=p["noc"], snode=p["node"], dataw=p["dataw"], kind="S")
            byuser[int(e[7], 16) & 0xffffffff] = x
            out.append(x)
        elif e[0] == "R":
            x = byuser.get(int(e[5], 16) & 0xffffffff)
            if x is not None:
                x["t1"] = int(e[2])
    asker, answerer, q = {}, {}, {}
    for ch, d, rad, t, port, peer, f in mm_events(events):
        tag = f[-1]
        if d == "S":
            if ch in ("AR", "AW", "W"):
                asker[(rad, tag)] = port
            else:
                peer = asker.get((rad, tag))
                answerer[(rad, tag)] = port
            p = info(rad, port)
            x = dict(rad=rad, src=port, drad=rad, dst=peer, t0=t, t1=None, noc=p["noc"], snode=p["node"], dataw=p["dataw"], kind=ch)
            q.setdefault((rad, ch, port, peer), []).append(x)
            out.append(x)
        else:
            src = asker.get((rad, tag)) if ch in ("AR", "AW", "W") else answerer.get((rad, tag))
            l = q.get((rad, ch, src, port), [])
            for x in l:
                if x["t1"] is None:
                    x["t1"] = t
                    break
    for x in out:
        p = info(x["drad"], x["dst"]) if x["dst"] else {}
        x["dnode"] = p.get("node")
        x["dport_info"] = p
    return out


COLS = ["id", "noc", "src", "dst", "dataw", "hops", "init", "packet", "inject", "eject", "depacket", "receive", "latency"]


def read_stats(path):
    with open(path) as f:
        rows = list(csv.reader(f))
    res = []
    for r in rows[1:]:
        if len(r) != 13:
            raise HarnessError("a line of the statistics file has %d columns" % len(r))
        res.append({c: (float(v) if i >= 6 else int(v)) for i, (c, v) in enumerate(zip(COLS, r))})
    return res


def ulp(x):
    """Half a unit of the sixth significant digit, plus what binary floating point adds."""
    return 0.5000001 * 10 ** (math.floor(math.log10(abs(x))) - 5) if abs(x) >= 1e-9 else 1e-9


def close(shown, ps):
    return abs(shown - ps / 1000.0) <= ulp(ps / 1000.0) * 1.001 + 1e-9


def on_edge(shown, period_ps):
    """Can a time printed like this be an edge of the clock? None if the print is too coarse to tell."""
    u = ulp(shown) * 1000
    if u > period_ps / 6:
        return None
    x = shown * 1000
    return abs(x - round(x / period_ps) * period_ps) <= u * 1.01 + 1e-6


def check_stats(sc, events, stats, clk_of):
    """The statistics file against the transfers seen at the ports. clk_of(rad, port info) -> (adapter ps, module ps), and the NoC's period by number."""
    bad, n = [], dict(rows=0, edges=0, multi_hop=0)
    nocp = [round(p * 1000) for p in sc.cfg["noc"]["clk_period"]]
    dims = [max(a, b) for a, b in zip(sc.cfg["noc"]["dim_x"], sc.cfg["noc"]["dim_y"])]
    want = {}
    for x in sorted(pairs_of(sc, events), key=lambda x: x["t0"]):
        want.setdefault((x["noc"], x["snode"]), []).append(x)
    have = {}
    for r in sorted(stats, key=lambda r: r["id"]):
        have.setdefault((r["noc"], r["src"]), []).append(r)
    if sorted(r["id"] for r in stats) != list(range(1, len(stats) + 1)):
        bad.append(("ids", "transaction numbers are not 1..%d" % len(stats)))
    for key in sorted(set(want) | set(have)):
        w, h = want.get(key, []), have.get(key, [])
        if len(w) != len(h):
            bad.append(("count", "NoC %d node %d: %d transactions were accepted and %d are recorded" % (*key, len(w), len(h))))
            continue
        for x, r in zip(w, h):
            n["rows"] += 1
            where = "transaction %d (%s %s -> %s at %d ps)" % (r["id"], x["kind"], x["src"], x["dst"], x["t0"])
            if not close(r["init"], x["t0"]):
                bad.append(("init", "%s: initiation recorded at %s ns" % (where, r["init"])))
                break
            if r["dst"] != x["dnode"]:
                bad.append(("dest", "%s: destination node %d recorded, it is %s" % (where, r["dst"], x["dnode"])))
            if r["dataw"] != x["dataw"]:
                bad.append(("width", "%s: width %d recorded, the port has %d" % (where, r["dataw"], x["dataw"])))
            if x["t1"] is None:
                continue  # still under way when the statistics were written
            if not close(r["receive"], x["t1"]):
                bad.append(("receipt", "%s: received at %d ps, recorded %s ns" % (where, x["t1"], r["receive"])))
            if not close(r["latency"], x["t1"] - x["t0"]):
                bad.append(("latency", "%s: took %d ps, recorded %s ns" % (where, x["t1"] - x["t0"], r["latency"])))
            k = dims[key[0]]
            hops = abs(r["src"] % k - x["dnode"] % k) + abs(r["src"] // k - x["dnode"] // k) + 1
            if r["hops"] != hops:
                bad.append(("hops", "%s: %d hops recorded, node %d to %d of a %dx%d mesh takes %d" % (where, r["hops"], r["src"], x["dnode"], k, k, hops)))
            n["multi_hop"] += hops > 2
            e = lambda a, b: r[a] <= r[b] + ulp(r[a]) + ulp(r[b])
            # (the AXI-MM adapters inject while the modelled packetization still runs)
            for a, b in (("init", "packet"), ("init", "inject"), ("packet", "eject" if x["kind"] == "S" else "packet"), ("inject", "eject"), ("eject", "depacket"), ("depacket", "receive")):
                if not e(a, b):
                    bad.append(("order", "%s: %s at %s ns is recorded after %s at %s ns" % (where, a, r[a], b, r[b])))
            if r["eject"] - r["inject"] < hops * nocp[key[0]] / 1000.0 - ulp(r["eject"]) - ulp(r["inject"]):
                bad.append(("transit", "%s: %d hops took %s ns on a NoC with a period of %d ps" % (where, hops, r["eject"] - r["inject"], nocp[key[0]])))
            sa, sm = clk_of(x["rad"], sc.ports[(x["rad"], x["src"])] if (x["rad"], x["src"]) in sc.ports else None)
            da, dm = clk_of(x["drad"], x["dport_info"])
            for what, per in (("init", sm), ("packet", sa), ("inject", nocp[key[0]]), ("eject", nocp[key[0]]), ("depacket", da), ("receive", dm)):
                if per is None:
                    continue
                o = on_edge(r[what], per)
                n["edges"] += o is not None
                if o is False:
                    bad.append(("clock", "%s: %s at %s ns is not an edge of its clock (%d ps)" % (where, what, r[what], per)))
        if len(bad) > 20:
            break
    return bad, n


def check_flows(sc, events, files):
    """The traffic flow files and bandwidths against the transfers seen at the ports. files: {(rad, noc): text}"""
    bad, n = [], dict(flows=0)
    drv = sc.cfg["cluster"]["sim_driver_period"]
    dims = [max(a, b) for a, b in zip(sc.cfg["noc"]["dim_x"], sc.cfg["noc"]["dim_y"])]
    names = {}
    for (rad, full), p in sc.ports.items():
        names.setdefault((rad, p["noc"], p["node"]), set()).add(full.split(".")[0])
    bits = {}
    portal = {}
    for rad, l in sc.place.items():
        for line in l:
            f = line.split()
            if f[0] == "portal_inst":
                portal[rad] = int(f[2])
                names.setdefault((rad, int(f[1]), int(f[2])), set()).add("portal_inst")
    for x in pairs_of(sc, events):
        if x["t1"] is None:
            return bad, n
        legs = [((x["rad"], x["noc"], x["snode"], x["dnode"]), x["dataw"])]
        if x["rad"] != x["drad"]:  # to the portal, and from the other RAD's portal
            legs = [((x["rad"], x["noc"], x["snode"], portal[x["rad"]]), x["dataw"]), ((x["drad"], x["noc"], portal[x["drad"]], x["dnode"]), sc.axis_w)]
            n["crossing"] = n.get("crossing", 0) + 1
        for k, w in legs:
            bits[k] = bits.get(k, 0) + w
    for e in events:
        if e[0] != "F":
            continue
        rad, noc, cycles, bw = int(e[1]), int(e[2]), int(e[3]), float(e[4])
        secs = cycles * drv / 1e9
        want, agg = {}, 0.0
        for (r, q, s, d), b in bits.items():
            if (r, q) == (rad, noc):
                k = dims[noc]
                want.setdefault((min(names[(r, q, s)]), min(names[(r, q, d)])), []).append(b / secs)
                agg += (abs(s % k - d % k) + abs(s // k - d // k)) * b / secs
        have = {}
        for m in re.finditer(r'<single_flow src="\.\*noc_router_(\S*?)\.\*" dst="\.\*noc_router_(\S*?)\.\*" bandwidth="([^"]*)"/>', files.get((rad, noc), "")):
            have.setdefault((m.group(1), m.group(2)), []).append(float(m.group(3)))
        for key in sorted(set(want) | set(have)):
            n["flows"] += 1
            w, h = sorted(want.get(key, [])), sorted(have.get(key, []))
            if len(w) != len(h) or any(abs(a - b) > 2e-5 * a for a, b in zip(w, h)):
                bad.append(("flow", "RAD %d NoC %d: bandwidths from %s to %s are reported as %s, the traffic was %s" % (rad, noc, *key, h, w)))
        if abs(agg - bw) > 2e-5 * agg + 1e-9:
            bad.append(("bandwidth", "RAD %d NoC %d: aggregate bandwidth %s reported, the traffic was %s" % (rad, noc, bw, agg)))
        if len(bad) > 20:
            break
    return bad, n


def check_traces(sc, events, text, drv_ps):
    """sim.trace and the simulation cycle against the recorded events."""
    bad, rows = [], {}
    for e in events:
        if e[0] == "T":
            cyc = -(-int(e[2]) // drv_ps)
            if int(e[3]) != cyc:
                bad.append(("cycle", "at %s ps the simulation cycle is %s, with a driver period of %d ps it is %d" % (e[2], e[3], drv_ps, cyc)))
            rows.setdefault(int(e[1]), []).append(cyc)
    want = [rows.get(k, []) for k in range(len(sc.cfg["cluster"]["telemetry_traces"]))]
    have = [[int(v) for v in l.split()] for l in text.split("\n")[:-1]] if text else []
    if have != want:
        k = next((i for i, (a, b) in enumerate(zip(have, want)) if a != b), -1)
        bad.append(("trace", "sim.trace has %d rows for %d traces; row %d: recorded %s, file has %s" % (len(have), len(want), k, want[k][:10] if k >= 0 else "-", have[k][:10] if k >= 0 else "-")))
    return bad, sum(map(len, want))


LEVELS = [("INFO", 0), ("WARNING", 1), ("TRACE", 2), ("INFO", 3), ("DEBUG", 4)]


def check_log(sc, events, text, drv_ps, what):
    bad, n = [], 0
    verb = sc.cfg["cluster"]["telemetry_log_verbosity"]
    lines = {}
    for l in text.split("\n"):
        m = re.search(r"vtmsg(\d+)!", l)
        if m:
            lines.setdefault(int(m.group(1)), []).append(l)
    seen = []
    for e in events:
        if e[0] != "L":
            continue
        lvl, k, t = int(e[1]), int(e[2]), int(e[3])
        l = lines.pop(k, [])
        n += 1
        if len(l) != (lvl <= verb):
            bad.append(("log", "%s has %d lines for a level-%d message at verbosity %d" % (what, len(l), lvl, verb)))
        elif l:
            seen.append(k)
            if "[%s]" % LEVELS[lvl][0] not in l[0]:
                bad.append(("loglevel", "%s shows a level-%d message as %r" % (what, lvl, l[0])))
            if lvl == 2 and not re.search(r"@ %d:" % -(-t // drv_ps), l[0]):
                bad.append(("logcycle", "%s shows a message of cycle %d as %r" % (what, -(-t // drv_ps), l[0])))
    if lines:
        bad.append(("logextra", "%s has messages nobody wrote: %s" % (what, list(lines.values())[:2])))
    return bad, n
