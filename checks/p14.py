"""P14: switches and bridges forward every TLP to exactly the port that claims it."""
import hypothesis.strategies as st
import simcore
import cocotb
import tlpgen
from tlpgen import mix, many
import linkbench as lb
from cocotb.triggers import Timer
from cocotbext.pcie.core import Switch
from cocotbext.pcie.core.tlp import Tlp, TlpType, TlpTc, CplStatus
from cocotbext.pcie.core.utils import PcieId
from runner import Part, check

PROPERTY = "P14"
ASSUMPTIONS = ["windows and bus ranges are programmed consistently: ranges of sibling ports are disjoint and inside those of the upstream port, base and limit are explicitly programmed",
               "messages, locked requests and atomics are not implemented by the library and not generated"]

FC = [64, 1024, 64, 64, 64, 1024]
GRAN = {"mem": 1 << 20, "pre": 1 << 20, "io": 1 << 12}
KINDS = {"mem": ["MEM_READ", "MEM_WRITE"], "pre": ["MEM_READ", "MEM_WRITE"], "io": ["IO_READ", "IO_WRITE"]}

size = st.sampled_from([0, 1, 1, 2, 3, 17])
gap = st.sampled_from([0, 0, 0, 1, 5])
port = st.fixed_dictionaries({"bgap": st.integers(0, 2), "buses": st.integers(1, 3), "mem": st.tuples(gap, size), "pre": st.tuples(gap, size), "io": st.tuples(gap, size)})
where = st.tuples(st.sampled_from(["mem", "mem", "pre", "pre", "io"]), st.integers(0, 4), st.sampled_from(["first", "last", "mid", "below", "above", "far"]))
pkt = mix(
    st.tuples(st.just("req"), where, st.integers(0, 1), st.integers(1, 33), st.integers(0, 255)),
    st.tuples(st.just("req"), where, st.integers(0, 1), st.integers(1, 33), st.integers(0, 255)),
    st.tuples(st.just("req"), where, st.integers(0, 1), st.integers(1, 33), st.integers(0, 255)),
    st.tuples(st.just("cpl"), st.integers(0, 4), st.sampled_from(["sec", "sub", "below", "above", "far"]), st.booleans(), st.integers(0, 255)),
    st.tuples(st.just("cfg"), st.integers(0, 4), st.sampled_from(["self", "sec", "sub", "above", "dev", "internal"]), st.booleans(), st.integers(0, 255))).map(list)
case = st.fixed_dictionaries({"bus": st.integers(1, 200), "ports": st.lists(port, min_size=1, max_size=4), "tail": st.integers(0, 2), "order": st.booleans(),
                              "memb": st.integers(0x200, 0x700), "preb": st.sampled_from([0x100, 0x800, 0x1000, 0x1234500, 0x80000000000, 0xffffff000]), "iob": st.sampled_from([1, 8, 15, 16, 0x1000, 0x80000]),
                              "pad": st.integers(0, 2), "streams": st.lists(st.tuples(st.integers(0, 4), many(pkt, 1, 8)), min_size=1, max_size=4)})


def layout(c):
    n = len(c["ports"])
    L = {"ports": [{} for _ in range(n)]}
    b = c["bus"] + 2
    for i, p in enumerate(c["ports"]):
        b += p["bgap"]
        L["ports"][i]["bus"] = (b, b + p["buses"] - 1)
        b += p["buses"]
    L["bus"] = (c["bus"] + 1, b - 1 + c["tail"])
    for k, base in (("mem", c["memb"]), ("pre", c["preb"]), ("io", c["iob"])):
        u = base
        used = []
        idx = list(range(n))
        if c["order"]:
            idx.reverse()
        for i in idx:
            g, s = c["ports"][i][k]
            u += g
            if s:
                L["ports"][i][k] = (u, u + s)
                used += [u, u + s]
                u += s
            else:
                L["ports"][i][k] = None
        L[k] = (max(min(used) - c["pad"], 0), max(used) + c["pad"]) if used else None
    return L


def run(c, ctx):
    L = layout(c)
    n = len(c["ports"])
    info = {"fwd": 0, "ur": 0, "p2p": 0, "drop": 0}

    async def main():
        sw = Switch()
        ports = [sw.make_port() for _ in range(n)]
        P = [lb.Partner(FC, 20) for _ in range(n + 1)]       # 0: upstream
        lb.park(sw.upstream_bridge.upstream_port)
        sw.set_upstream_port(P[0].port)
        for i, p in enumerate(ports):
            lb.park(p.downstream_port)
            p.set_downstream_port(P[i + 1].port)
        await Timer(1, "us")

        async def cfg(bus, dev, reg, data=None, be=15):
            t = Tlp()
            own = bus == c["bus"]
            t.fmt_type = TlpType["CFG_%s_%d" % ("READ" if data is None else "WRITE", 0 if own else 1)]
            t.requester_id = PcieId(0, 0, 0)
            t.completer_id = PcieId(bus, dev, 0)
            t.address, t.length, t.first_be = reg * 4, 1, be
            t.tag = 200
            if data is not None:
                t.set_data(data.to_bytes(4, "little"))
            k = len(P[0].rx)
            await P[0].send(t)
            check(await P[0].wait_tlp(k + 1), "configuration request for bus %d device %d not answered", bus, dev)
            r = P[0].rx[k]
            check(r.is_completion() and int(r.status) == 0 and r.tag == 200 and int(r.requester_id) == 0, "configuration request for bus %d device %d answered with %r", bus, dev, r)
            check(r.completer_id == PcieId(bus, dev, 0), "configuration request for %02x:%02x.0 answered by %s", bus, dev, r.completer_id)
            return int.from_bytes(r.get_data(), "little") if data is None else None

        async def program(bus, dev, pri, w):
            await cfg(bus, dev, 6, pri | w["bus"][0] << 8 | w["bus"][1] << 16, 7)
            lo, hi = w["mem"] or (0xfff, 1)
            await cfg(bus, dev, 8, lo << 4 | (hi - 1) << 20)
            lo, hi = w["pre"] or (0xfff, 1)
            await cfg(bus, dev, 9, (lo & 0xfff) << 4 | (hi - 1 & 0xfff) << 20)
            await cfg(bus, dev, 10, lo >> 12)
            await cfg(bus, dev, 11, hi - 1 >> 12)
            lo, hi = w["io"] or (0xf, 1)
            await cfg(bus, dev, 7, (lo & 15) << 4 | (hi - 1 & 15) << 12, 3)
            await cfg(bus, dev, 12, lo >> 4 | (hi - 1 >> 4) << 16)
            await cfg(bus, dev, 1, 7, 3)
            check(await cfg(bus, dev, 6) & 0xffffff == pri | w["bus"][0] << 8 | w["bus"][1] << 16, "bus numbers do not read back")
        await program(c["bus"], 0, 0, L)
        for i in range(n):
            await program(L["bus"][0], i + 1, L["bus"][0], L["ports"][i])
        for p in P:
            check(len(p.rx) == 0 or p is P[0], "configuration requests for the ports leaked to a downstream link")
            p.rx.clear()

        want = {}           # (ingress, egress) -> [snapshot]
        answers = {i: [] for i in range(n + 1)}     # local completions expected at that port: (tag, kind)
        tags = [0]

        def claim(k, x):
            """Downstream port (1..n) whose window of kind k holds x, 0 for upstream, None for nobody."""
            for i in range(n):
                w = L["ports"][i][k]
                if w and (w[0] <= x <= w[1] if k == "bus" else w[0] <= x < w[1]):
                    return i + 1
            w = L[k]
            if w and (w[0] <= x <= w[1] if k == "bus" else w[0] <= x < w[1]):
                return None
            return 0

        def mk(src, q):
            """-> (tlp, destination or 'self'/None, expected kind at the destination)"""
            t = Tlp()
            t.requester_id = PcieId(0, 0, 0) if src == 0 else PcieId(L["ports"][src - 1]["bus"][0], 0, q[-1] & 7)
            t.tag = tags[0]
            tags[0] = (tags[0] + 1) % 200
            t.tc = TlpTc(q[-1] & 7)
            if q[0] == "req":
                k, pi, pos = q[1]
                w = L["ports"][pi]["%s" % k] if pi < n else L[k]
                w = w or L[k]
                if w is None:
                    return None
                g = GRAN[k]
                lo, hi = w[0] * g, w[1] * g
                ndw = 1 if k == "io" else q[3]
                a = {"first": lo, "last": hi - ndw * 4, "mid": lo + (hi - lo) // 2, "below": lo - ndw * 4, "above": hi, "far": hi + 7 * g}[pos]
                if a < 0 or a + ndw * 4 > (1 << 32 if k == "io" else 1 << 64):
                    return None
                name = KINDS[k][q[2]]
                t.fmt_type = TlpType[name + ("_64" if a >= 1 << 32 else "")]
                t.address, t.length = a, ndw
                t.first_be, t.last_be = 15, 15 if ndw > 1 else 0
                if q[2]:
                    t.set_data(tlpgen.pattern(ndw * 4, q[4]))
                kinds = ["io"] if k == "io" else ["mem", "pre"]
                # an address may lie in windows of the other kind only if those overlap, which the layout excludes
                dst = 0
                for kk in kinds:
                    d = claim(kk, a // GRAN[kk])
                    if d != 0:
                        dst = d
                return t, dst, name.startswith("MEM_WRITE")
            if q[0] == "cpl":
                w = L["ports"][q[1]]["bus"] if q[1] < n else L["bus"]
                bus = {"sec": w[0], "sub": w[1], "below": w[0] - 1, "above": w[1] + 1, "far": 250}[q[2]]
                t.fmt_type = TlpType.CPL_DATA if q[3] else TlpType.CPL
                t.requester_id = PcieId(bus, q[4] & 31 | 1, q[4] >> 5)       # never a bridge of this switch: device 0 or 1..n excluded below
                if bus == L["bus"][0] or bus == c["bus"]:
                    t.requester_id = PcieId(bus, 31, 7)
                t.completer_id = PcieId(1, 2, 3)
                t.byte_count = 4
                if q[3]:
                    t.set_data(tlpgen.pattern(4, q[4]))
                else:
                    t.status = CplStatus.UR
                return t, claim("bus", bus), True
            # configuration requests only ever come from upstream
            if src:
                return None
            w = L["ports"][q[1]] if q[1] < n else L
            if q[2] == "internal":
                bus, dev, typ, dst = L["bus"][0], q[4] % 31 + 1, 1, None
                if dev <= n:
                    dst = "self"
            elif q[2] in ("self", "dev"):
                bus, dev, typ = c["bus"], 0 if q[2] == "self" else q[4] % 31 + 1, 0
                dst = None if dev else "self"
            else:
                bus = {"sec": w["bus"][0], "sub": w["bus"][1], "above": w["bus"][1] + 1}[q[2]]
                typ = 1
                dst = claim("bus", bus)
                dev = 0 if dst and L["ports"][dst - 1]["bus"][0] == bus else q[4] % 32
                if bus == L["bus"][0]:
                    dev = q[4] % 31 + 1
                    dst = "self" if dev <= n else None
                elif dst == 0:
                    dst = None
            t.fmt_type = TlpType["CFG_%s_%d" % ("WRITE" if q[3] else "READ", typ)]
            t.completer_id = PcieId(bus, dev, 0)
            t.address, t.length, t.first_be = (q[4] % 60 + 4) * 4, 1, 15
            if dst == "self":
                t.address = 0           # vendor id
            if q[3]:
                t.set_data(tlpgen.pattern(4, q[4]))
            return t, dst, False

        def outgoing(t, dst):
            d = tlpgen.observe(t)
            if t.fmt_type.name.startswith("CFG") and dst and t.completer_id.bus == L["ports"][dst - 1]["bus"][0]:
                d["kind"] = d["kind"][:-1] + "0"
            return tuple(sorted(d.items())) + (bytes(t.data),)

        async def stream(src, qs):
            for q in qs:
                m = mk(src, q)
                if m is None:
                    continue
                t, dst, posted = m
                if dst == src and src == 0:
                    dst = None                     # claimed by nobody below
                if dst == src:
                    dst = None                     # own side of the bridge
                if dst == "self":
                    answers[src].append((t.tag, 0))
                elif dst is None:
                    if not posted:
                        answers[src].append((t.tag, 1))
                        info["ur"] += 1
                    else:
                        info["drop"] += 1
                else:
                    want.setdefault((src, dst), []).append(outgoing(t, dst))
                    info["fwd"] += 1
                    info["p2p"] += bool(src and dst)
                await P[src].send(t)
        streams = {}
        for who, qs in c["streams"]:
            streams.setdefault(who % (n + 1), []).extend(qs)
        ts = [cocotb.start_soon(stream(s, q)) for s, q in streams.items()]
        for t in ts:
            await t
        await Timer(3, "us")
        # what arrived where
        for i, p in enumerate(P):
            exp = {s: list(w) for (s, d), w in want.items() if d == i}
            loc = list(answers[i])
            for t in p.rx:
                x = tuple(sorted(tlpgen.observe(t).items())) + (bytes(t.data),)
                for s, w in exp.items():
                    if w and w[0] == x:
                        w.pop(0)
                        break
                else:
                    key = (t.tag, 0 if int(t.status) == 0 else 1) if t.is_completion() else None
                    check(key in loc, "port %d sends %r, which nobody sent there (or out of order); still expected: %r; local answers %r", i, t,
                          {s: w[:1] for s, w in exp.items() if w}, loc)
                    loc.remove(key)
            check(not any(exp.values()), "not forwarded to port %d: %r", i, {s: w[:1] for s, w in exp.items() if w})
            check(not loc, "no completion (tag, 0 success / 1 UR) at port %d: %r", i, loc)
        await Timer(60, "us")
        for i, p in enumerate(P):
            check(not p.leaked(), "port %d keeps flow control credits: %s", i, p.leaked())
    simcore.run(main, max_time_ns=1_000_000)
    ctx.nontrivial(info["fwd"] >= 2)
    ctx.label("%s%s%s" % ("p2p " if info["p2p"] else "", "ur " if info["ur"] else "", "drop" if info["drop"] else ""))


PARTS = [Part("switch", case, run, 700, 20000, "a switch with 1-4 ports, programmed by configuration requests, and packets at and around every window and bus range from every side; non-trivial with at least 2 forwarded packets")]
