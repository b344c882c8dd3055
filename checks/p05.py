"""P05: flow control: credits are never overrun, lost or invented."""
import hypothesis.strategies as st
import simcore
import topo
import traffic
import tlpgen
import linkbench as lb
import cocotb
from cocotb.triggers import Timer
from cocotb.queue import Queue
from runner import Part, check
from cocotbext.pcie.core.dllp import Dllp
from cocotbext.pcie.core.tlp import Tlp
from cocotbext.pcie.core.utils import PcieId

PROPERTY = "P05"
ASSUMPTIONS = ["link partners follow the flow-control initialisation protocol; advertised credits suffice for the largest TLP sent (as PCIe requires), except in the "
               "stepwise transmitter part, where the missing credits are granted later"]
CLS = ("P", "NP", "CPL")
LATE = 0       # no timeouts: the late answer to a request that timed out would be taken for that of the next request with its tag
BIG = st.one_of(st.integers(1, 1024), st.sampled_from([255, 256, 257, 509, 512, 1000, 1020, 1021, 1023, 1024]))
HDRS = st.sampled_from([0, 1, 2, 3, 7, 8, 64, 127])
KIND = {"P": ["MEM_WRITE", "MEM_WRITE_64"], "NP": ["MEM_READ", "MEM_READ_64", "IO_WRITE", "IO_READ"], "CPL": ["CPL", "CPL_DATA"]}


def mk(o):
    t = Tlp()
    name = KIND[o["cls"]][o["i"] % len(KIND[o["cls"]])]
    t.fmt_type = getattr(__import__("cocotbext.pcie.core.tlp", fromlist=["TlpType"]).TlpType, name)
    t.address = 0x1_0000_0000 * name.endswith("64") + (o["dw"] * 4 & 0xfff)
    t.requester_id = PcieId(1, 0, 0)
    t.tag = o["i"] & 31
    dw = o["dw"]
    if name.startswith("IO"):
        dw = 1
    if name in ("MEM_WRITE", "MEM_WRITE_64", "IO_WRITE", "CPL_DATA"):
        t.set_data(bytes((o["i"] * 7 + k) & 0xff for k in range(dw * 4)))
    else:
        t.length = dw if not name.startswith("CPL") else 0
    t.first_be = 0xf
    t.last_be = 0xf if t.length > 1 and not name.startswith("CPL") else 0
    return t


def need(t):
    return (1, (len(t.data) + 15) // 16)


@st.composite
def item(draw):
    return {"cls": draw(st.sampled_from(CLS)), "i": draw(st.integers(0, 40)), "dw": draw(st.one_of(st.integers(1, 9), st.integers(1, 64), BIG))}


# ------------------------------------------------------------------ receiver

@st.composite
def rx_case(draw):
    fc = []
    for _ in CLS:
        h = draw(HDRS)
        d = draw(st.sampled_from([0, 16, 17, 20, 64, 300, 2047]))
        fc += [h, d]
    tlps = draw(st.lists(item(), min_size=1, max_size=40))
    for t in tlps:      # the credits advertised suffice for each TLP
        t["dw"] = min(t["dw"], 4 * (fc[2 * CLS.index(t["cls"]) + 1] or 256))
    return {"fc": fc, "tlps": tlps, "gaps": draw(st.lists(st.sampled_from([0, 0, 0, 1, 50, 3000]), min_size=1, max_size=5)),
            "hold": draw(st.lists(st.tuples(st.sampled_from(["now", "now", "later", "twice", "block", "forward"]), st.sampled_from([1, 40, 900, 20000])), min_size=1, max_size=6)),
            "tx": draw(st.integers(0, 6)), "idle": draw(st.sampled_from([0, 0, 90, 130]))}


class RxPeer(lb.PeerPort):
    def __init__(self, bench, *a):
        self.bench = bench
        super().__init__(*a)

    async def handle_tx(self, pkt):
        self.bench.start(pkt)
        await super().handle_tx(pkt)


class RxBench:
    def __init__(self, fc):
        self.fc = fc
        self.released = {k: [0, 0] for k in CLS}
        self.history = {k: [(-1, (0, 0))] for k in CLS}      # (time, released) after each change
        self.last = {k: None for k in CLS}
        self.last_time = {k: None for k in CLS}
        self.errors = []

    def release(self, cls, n):
        r = self.released[cls]
        for i in (0, 1):
            r[i] += n[i]
        self.history[cls].append((simcore.wheel.now, tuple(r)))

    def start(self, pkt):
        """The port begins to transmit pkt."""
        if not isinstance(pkt, Dllp) or "FC" not in pkt.type.name:
            return
        cls = pkt.type.name.split("_")[-1]
        k = CLS.index(cls)
        v = (pkt.hdr_fc, pkt.data_fc)
        init = (self.fc[2 * k], self.fc[2 * k + 1])
        now = simcore.wheel.now
        before = [x for t, x in self.history[cls] if t < now][-1]
        after = self.history[cls][-1][1]
        if pkt.type.name.startswith("INIT"):
            if v != init:
                self.errors.append("%s advertises %r, configured %r" % (pkt.type.name, v, init))
            return
        lt = self.last_time[cls]
        if lt is not None and now - lt > 45_000_000:
            self.errors.append("no UpdateFC for %s for %g us" % (cls, (now - lt) / 1e6))
        self.last_time[cls] = now
        self.last[cls] = v
        for i, mod in ((0, 256), (1, 4096)):
            if init[i] == 0:
                if v[i]:
                    self.errors.append("UpdateFC %s carries %d for infinite credits" % (cls, v[i]))
                continue
            ok = range(init[i] + before[i], init[i] + after[i] + 1)
            if not any(x % mod == v[i] % mod for x in ok):
                self.errors.append("UpdateFC %s %s limit %d at %g ns: initial %d plus %d released" % (cls, ("header", "data")[i], v[i], now / 1000, init[i], after[i]))


def rx_run(c, ctx):
    out = {}

    async def main():
        bench = RxBench(c["fc"])
        part = lb.Partner(c["fc"])
        part.port.handle_tx, orig = None, part.port.handle_tx

        async def handle_tx(pkt):
            bench.start(pkt)
            await orig(pkt)
        part.port.handle_tx = handle_tx
        far = lb.Partner([0] * 6)
        got = []
        kinds = {}

        async def later(t, cls, n, ns):
            await Timer(ns, "ns")
            bench.release(cls, n)
            t.release_fc()

        async def handler(t):
            i = len(got)
            got.append(t)
            how, ns = c["hold"][i % len(c["hold"])]
            cls, n = lb.fc_kind(t.fmt_type.name), need(t)
            kinds[how] = kinds.get(how, 0) + 1
            if how == "now":
                bench.release(cls, n)
                t.release_fc()
            elif how == "twice":
                bench.release(cls, n)
                t.release_fc()
                t.release_fc()
                await Timer(ns, "ns")
                t.release_fc()
            elif how == "later":
                cocotb.start_soon(later(t, cls, n, ns))
            elif how == "block":
                await Timer(ns, "ns")
                bench.release(cls, n)
                t.release_fc()
            else:
                bench.release(cls, n)
                await far.port.send(t)
        part.port.rx_handler = handler

        async def tx():
            for k in range(c["tx"]):
                await part.port.send(mk({"cls": "P", "i": k, "dw": 5 + k}))
                await Timer(700, "ns")
        cocotb.start_soon(tx())
        await Timer(300, "ns")
        starved = 0
        for i, o in enumerate(c["tlps"]):
            g = c["gaps"][i % len(c["gaps"])]
            if g:
                await Timer(g, "ns")
            t0 = simcore.wheel.now
            await part.send(mk(o))
            starved += simcore.wheel.now > t0
        while len(got) < len(c["tlps"]):
            await Timer(10, "us")
        # last hold ends at most 20 us later; then the update must be out promptly
        await Timer(21, "us")
        await Timer(2, "us")
        for k, cls in enumerate(CLS):
            init = c["fc"][2 * k:2 * k + 2]
            lim = part.adv[cls][1]
            for i in (0, 1):
                if init[i]:
                    check(lim[i] == init[i] + bench.released[cls][i], "2 us after everything was released the %s %s limit advertised is %d, expected %d + %d", cls,
                          ("header", "data")[i], lim[i], init[i], bench.released[cls][i])
        if c["idle"]:
            await Timer(c["idle"], "us")
            for cls in CLS:
                lt = bench.last_time[cls]
                check(lt is not None and simcore.wheel.now - lt <= 45_000_000, "no UpdateFC for %s on an idle link for %g us", cls,
                      -1 if lt is None else (simcore.wheel.now - lt) / 1e6)
        out.update(bench=bench, starved=starved, kinds=kinds, got=got, part=part)

    try:
        simcore.run(main, max_time_ns=30_000_000)
    except (simcore.TimeLimit, simcore.SimLimit, simcore.Deadlock) as e:
        check(False, "the receiver stops granting credits or delivering: %s", e)
    check(not out["bench"].errors, "%s", "; ".join(out["bench"].errors[:3]))
    ctx.nontrivial(out["starved"] > 0 or sum(1 for k in out["kinds"] if k != "now") >= 2)
    ctx.label("sender waited for credits" if out["starved"] else "no wait")


# --------------------------------------------------------------- transmitter

@st.composite
def tx_case(draw):
    grant = []
    for _ in CLS:
        grant += [draw(st.sampled_from([0, 1, 1, 2, 3, 8])), draw(st.sampled_from([0, 0, 1, 2, 4, 16, 40]))]
    return {"grant": grant,
            "streams": draw(st.lists(st.lists(item(), min_size=1, max_size=12), min_size=1, max_size=4)),
            "steps": draw(st.lists(st.tuples(st.integers(0, 2), st.integers(0, 4), st.integers(0, 12), st.sampled_from([1, 30, 200, 2000, 15000])), max_size=14))}


def tx_run(c, ctx):
    out = {"blocked": 0}

    async def main():
        limit = {k: list(c["grant"][2 * i:2 * i + 2]) for i, k in enumerate(CLS)}
        inf = {k: [x == 0 for x in limit[k]] for k in CLS}
        used = {k: [0, 0] for k in CLS}
        errors = []
        part = lb.Partner([0] * 6, grant=c["grant"])
        pending = []                    # sends in progress
        sent = []
        big = 3000 + max(4 * o["dw"] for x in c["streams"] for o in x) * 5

        def on_tlp(t):
            cls, n = lb.fc_kind(t.fmt_type.name), need(t)
            for i in (0, 1):
                used[cls][i] += n[i]
                if not inf[cls][i] and used[cls][i] > limit[cls][i]:
                    errors.append("%s %s: %d credits consumed, limit %d" % (cls, ("header", "data")[i], used[cls][i], limit[cls][i]))
            sent.append(t)
        part.on_tlp = on_tlp
        todo = sum(len(s) for s in c["streams"])

        async def stream(items):
            for o in items:
                t = mk(o)
                pending.append(t)
                await part.port.send(t)
                pending.remove(t)

        async def settle(what):
            # what has been granted is used: nothing that fits keeps waiting
            n = -1
            while n != len(sent):       # nothing arrived for longer than the largest packet takes
                n = len(sent)
                await Timer(big, "ns")
            for t in pending:
                cls, n = lb.fc_kind(t.fmt_type.name), need(t)
                fits = all(inf[cls][i] or used[cls][i] + n[i] <= limit[cls][i] for i in (0, 1))
                check(not fits, "%s: a %s TLP needing %r credits is still waiting; consumed %r, limit %r", what, cls, n, used[cls], limit[cls])
            check(len(sent) + len(pending) + 0 >= 0, "")
        await Timer(200, "ns")
        for s in c["streams"]:
            cocotb.start_soon(stream(s))
        await settle("after initialisation")
        out["blocked"] = len(pending)

        async def grant(cls, h, d):
            i = CLS.index(cls)
            for j, x in enumerate((h, d)):
                if not inf[cls][j]:
                    limit[cls][j] += x
            await part.port.ext_recv(lb.dllp("UPDATE_FC_" + cls, hdr=limit[cls][0] % 4096, data=limit[cls][1] % 65536))
        for k, h, d, ns in c["steps"]:
            await grant(CLS[k], h, d)
            await Timer(ns, "ns")
            if ns >= 2000:
                await settle("after grant to %s" % CLS[k])
        # finally grant whatever is still missing, one class at a time
        for rounds in range(200):
            if not pending and len(sent) == todo:
                break
            for cls in CLS:
                mine = [need(t) for t in pending if lb.fc_kind(t.fmt_type.name) == cls]
                if mine:
                    n = (max(m[0] for m in mine), max(m[1] for m in mine))
                    await grant(cls, *[max(0, used[cls][j] + n[j] - limit[cls][j]) for j in (0, 1)])
                    await settle("after the final grant to " + cls)
            await Timer(100, "ns")
        check(len(sent) == todo, "%d of %d TLPs sent although credits cover all of them", len(sent), todo)
        check(not errors, "%s", "; ".join(errors[:3]))
        want = sorted((lb.snap(mk(o))[2:] for s in c["streams"] for o in s), key=repr)
        got = sorted((lb.snap(t)[2:] for t in sent), key=repr)
        check(got == want, "packets sent differ from packets queued")

    try:
        simcore.run(main, max_time_ns=60_000_000)
    except (simcore.TimeLimit, simcore.SimLimit, simcore.Deadlock) as e:
        check(False, "the transmitter does not finish: %s", e)
    ctx.nontrivial(out["blocked"] > 0)
    ctx.label("blocked at start: %s" % (out["blocked"] if out["blocked"] < 3 else "3+"))


# ---------------------------------------------------------------------- long

def long_case():
    return st.fixed_dictionaries({"cls": st.sampled_from(CLS), "dw": st.sampled_from([1, 4, 64, 61, 1021, 1024]), "h": st.sampled_from([3, 50, 127]), "n": st.sampled_from([4200, 4300, 700]),
                                  "hold": st.sampled_from([0, 7, 90])})


def long_run(c, ctx):
    """Two connected ports; the counters wrap."""
    fc = [c["h"], max(c["h"] * 16, 256 if c["dw"] > 64 else 0)] * 3
    w = topo.Wire(keep=False)
    got = []

    async def main():
        from cocotbext.pcie.core.port import SimPort
        a, b = SimPort(fc_init=[fc] * 8), SimPort(fc_init=[fc] * 8)
        a.connect(b)

        async def drop(t):
            t.release_fc()

        async def recv(t):
            got.append(len(t.data))
            if c["hold"]:
                await Timer(c["hold"], "ns")
            t.release_fc()
        a.rx_handler, b.rx_handler = drop, recv
        for i in range(c["n"]):
            await a.send(mk({"cls": c["cls"], "i": 1 if c["cls"] == "CPL" else i, "dw": c["dw"]}))
        await Timer(50, "us")
    with topo.tapped(w):
        try:
            simcore.run(main, max_time_ns=30_000_000, max_events=20_000_000)
        except (simcore.TimeLimit, simcore.SimLimit, simcore.Deadlock) as e:
            check(False, "after %d of %d packets: %s", len(got), c["n"], e)
    check(len(got) == c["n"], "%d of %d packets arrived", len(got), c["n"])
    check(not w.errors, "%s", "; ".join(w.errors[:3]))
    check(not w.leaked(), "%s", "; ".join(w.leaked()[:3]))
    ctx.nontrivial(c["n"] > 4096 or c["dw"] > 60)


# -------------------------------------------------------------------- system

@st.composite
def sys_case(draw):
    c = draw(traffic.case(["rc", "dma", "p2p"], max_ops=6))
    c["flood"] = draw(st.lists(st.fixed_dictionaries({"who": st.integers(0, 8), "k": st.sampled_from(["w", "w", "r", "ior", "iow", "cfg"]), "n": st.sampled_from([1, 5, 70, 140]),
                                                      "len": st.sampled_from([1, 4, 64, 300]), "where": st.integers(0, 11)}), max_size=3))
    return c


def sys_run(c, ctx):
    w = topo.Wire(keep=False)
    stats = {"bad": 0}

    def extra(b, targets):
        async def flood(f):
            who = b.rc if f["who"] < 5 else b.funcs[f["who"] % len(b.funcs)][0]
            bases = [0x3000_0000, 0xffff_f000, 0x7fff_f000, 0xdfff_0000, 0x8000_00ff_0000_0000, 0x4000_0000_0000]
            # holes next to a BAR: routed to the device (or a bridge), claimed by nobody
            for t in targets:
                if t.fn is not None and not t.io:
                    h = (t.addr & ~0xfffff) + 0xff000
                    if not any(x.addr < h + 0x1000 and h < x.addr + x.size for x in targets):
                        bases += [h] * 2
            a = bases[-1 - f["where"] % len(bases)]
            for i in range(f["n"]):
                stats["bad"] += 1
                try:
                    if f["k"] == "w":
                        await who.mem_write(a, bytes(f["len"]))
                    elif f["k"] == "r" and i < 80:
                        await who.mem_read(a, f["len"], LATE, "ns")
                    elif f["k"] == "ior" and i < 80:
                        await who.io_read(0xf000_0000, 4, LATE, "ns")
                    elif f["k"] == "iow" and i < 80:
                        await who.io_write(0xf000_0000, b"1234", LATE, "ns")
                    elif f["k"] == "cfg" and who is b.rc and i < 80:
                        await b.rc.config_read(PcieId(1 + i % 3, f["where"] % 6 + 1, 0), 0, 4, LATE, "ns")
                except Exception as e:
                    check(not isinstance(e, (KeyError, IndexError, TypeError, AttributeError)), "unsupported request raises %r", e)
        return [flood(f) for f in c["flood"]]
    s = traffic.run(c, ctx, w, extra=extra)
    ctx.nontrivial(s["ops"] >= 5 and bool(c["flood"]))
    ctx.label("flood" if c["flood"] else "no flood")
    check(not w.errors, "%s", "; ".join(w.errors[:3]))
    check(not w.leaked(), "%s", "; ".join(w.leaked()[:3]))


PARTS = [
    Part("receiver", rx_case(), rx_run, 900, 30000, "one port receiving random TLPs that are held, released twice, blocked or forwarded; non-trivial if the sender ran out of credits or two hold policies mix"),
    Part("transmitter", tx_case(), tx_run, 900, 30000, "one port sending against stepwise credit grants; non-trivial if something had to wait"),
    Part("long", long_case(), long_run, 12, 200, "thousands of packets so that credit counters wrap; non-trivial when a counter wraps"),
    Part("system", sys_case(), sys_run, 160, 5000, "random topology with traffic and floods of unsupported requests; non-trivial with at least 5 operations and a flood"),
]
