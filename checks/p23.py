"""P23: Xilinx streaming interfaces carry every packet once, in order, unchanged."""
import hypothesis.strategies as st
import simcore
import cocotb
import tlpgen
import xaxis
from cocotb.triggers import Timer, RisingEdge
from cocotb.clock import Clock
from cocotbext.axi import AxiStreamBus
from cocotbext.pcie.xilinx.us.interface import (RqSource, RqSink, RcSource, RcSink, CqSource, CqSink, CcSource, CcSink, UsPcieFrame)
from runner import Part, check

PROPERTY = "P23"
ASSUMPTIONS = ["packets are at least as long as a descriptor", "a driver starts a packet in lane 0 or directly after another one in the same beat"]

SRC = {"rq": RqSource, "rc": RcSource, "cq": CqSource, "cc": CcSource}
SNK = {"rq": RqSink, "rc": RcSink, "cq": CqSink, "cc": CcSink}
MIN = {"rq": 4, "cq": 4, "rc": 3, "cc": 3}

frame = st.fixed_dictionaries({"n": st.one_of(st.integers(0, 6), st.integers(0, 40), st.sampled_from([4, 5, 8, 12, 13, 16, 28, 29, 60, 64, 128, 1024])), "salt": st.integers(0, 2 ** 16 - 1),
                               "fb": st.integers(0, 15), "lb": st.integers(0, 15), "seq": st.integers(0, 63), "disc": st.sampled_from([False, False, False, True]), "gap": st.sampled_from([0, 0, 0, 0, 1, 3, 10])})
pat = tlpgen.mix(st.just([False]), st.just([False]), st.lists(st.booleans(), min_size=2, max_size=11))
case = st.fixed_dictionaries({"cfg": st.sampled_from(xaxis.CONFIGS), "frames": st.lists(frame, min_size=1, max_size=12), "sp": pat, "kp": pat, "lim": st.sampled_from([-1, -1, 1, 2, 40]),
                              "klim": st.sampled_from([-1, -1, 1, 3]), "lazy": st.sampled_from([0, 0, 3, 40]), "nowait": st.booleans()})


def mk(cfg, k, fr):
    i = cfg[0]
    n = MIN[i] + fr["n"]
    x = fr["salt"] * 2654435761 & 0xffffffff

    def rnd(bits):
        nonlocal x
        x = (x * 6364136223846793005 + 1442695040888963407) & (1 << 64) - 1
        return x >> 64 - bits
    f = {"id": k, "data": [rnd(32) for _ in range(n)], "par": [rnd(4) for _ in range(n)], "be": [rnd(4) if i in ("rc", "cq") else None for _ in range(n)], "disc": fr["disc"]}
    if i in ("rq", "cq"):
        f["fb"], f["lb"] = fr["fb"], fr["lb"]
    if i == "rq":
        f["seq"] = fr["seq"] & (1 << xaxis.SEQ_BITS[cfg[2]]) - 1
    return f


def obj(f):
    u = UsPcieFrame()
    u.data, u.parity, u.discontinue = list(f["data"]), list(f["par"]), f["disc"]
    if f["be"][0] is not None:
        u.byte_en = list(f["be"])
    u.first_be, u.last_be, u.seq_num = f.get("fb", 0), f.get("lb", 0), f.get("seq", 0)
    return u


def same(what, k, f, u, disc):
    check(list(u.data) == f["data"], "%s: packet %d has data %s, sent %s", what, k, [hex(v) for v in u.data[:24]], [hex(v) for v in f["data"][:24]])
    check(list(u.parity) == f["par"], "%s: packet %d has other parity", what, k)
    if f["be"][0] is not None:
        check(list(u.byte_en) == f["be"], "%s: packet %d has other byte enables", what, k)
    for a, b in (("fb", "first_be"), ("lb", "last_be"), ("seq", "seq_num")):
        if a in f:
            check(getattr(u, b) == f[a], "%s: packet %d has %s %#x, sent %#x", what, k, b, getattr(u, b), f[a])
    check(bool(u.discontinue) == disc, "%s: packet %d has discontinue %r", what, k, u.discontinue)


def cycle(p):
    while True:
        for v in p:
            yield v


def bench(cfg):
    d = simcore.Dut(clk=1, s_tdata=cfg[1], s_tkeep=cfg[1] // 32, s_tvalid=1, s_tready=1, s_tlast=1, s_tuser=cfg[2])
    cocotb.start_soon(Clock(d.clk, 4, "ns").start())
    return d


async def monitor(d, beats):
    held = None
    edge = RisingEdge(d.clk)
    while True:
        await edge
        v, r = int(d.s_tvalid.value), int(d.s_tready.value)
        now = (int(d.s_tdata.value), int(d.s_tkeep.value), int(d.s_tuser.value), int(d.s_tlast.value)) if v else None
        if held is not None:
            check(now == held, "the beat on the bus changed or was withdrawn before it was accepted: %r then %r", held, now)
        held = now if v and not r else None
        if v and r:
            beats.append({"data": now[0], "keep": now[1], "user": now[2], "last": now[3]})


def run(c, ctx):
    """Source -> Sink, with an independent decoder on the wires."""
    cfg = tuple(c["cfg"])
    F = [mk(cfg, k, fr) for k, fr in enumerate(c["frames"])]
    beats, got = [], []

    async def main():
        d = bench(cfg)
        bus = AxiStreamBus.from_prefix(d, "s")
        src = SRC[cfg[0]](bus, d.clk, segments=cfg[3])
        snk = SNK[cfg[0]](AxiStreamBus.from_prefix(d, "s"), d.clk, segments=cfg[3])
        cocotb.start_soon(monitor(d, beats))
        if any(c["sp"]) and not all(c["sp"]):
            src.set_pause_generator(cycle(c["sp"]))
        if any(c["kp"]) and not all(c["kp"]):
            snk.set_pause_generator(cycle(c["kp"]))
        if c["lim"] > 3:
            src.queue_occupancy_limit_bytes = c["lim"]
        else:
            src.queue_occupancy_limit_frames = c["lim"]
        snk.queue_occupancy_limit_frames = c["klim"]

        async def feed():
            for f, fr in zip(F, c["frames"]):
                if fr["gap"]:
                    await Timer(fr["gap"] * 4, "ns")
                u = obj(f)
                if c["nowait"] and not src.full():
                    src.send_nowait(u)
                else:
                    await src.send(u)
                u.data[0] ^= 1            # the interface has its own copy
            await src.wait()
            check(src.empty() and src.idle(), "source not idle after wait()")

        async def drain():
            while len(got) < len(F):
                if c["lazy"]:
                    await Timer(4 * c["lazy"], "ns")
                if c["nowait"]:
                    await snk.wait()
                    check(not snk.empty() and snk.count() > 0, "sink empty after wait()")
                    got.append(snk.recv_nowait())
                else:
                    got.append(await snk.recv())
        a, b = cocotb.start_soon(feed()), cocotb.start_soon(drain())
        await b
        await a
        await Timer(200, "ns")
        check(snk.empty() and snk.count() == 0, "sink has more packets than were sent")
        check(src.queue_occupancy_frames == 0 and src.queue_occupancy_bytes == 0 and snk.queue_occupancy_frames == 0 and snk.queue_occupancy_bytes == 0, "occupancy counters do not return to zero")
    simcore.run(main, max_time_ns=4_000_000)
    try:
        W = xaxis.decode(cfg, beats)
    except AssertionError as e:
        check(False, "%s %d bit, %d segments: beats do not follow the product guide: %s", cfg[0], cfg[1], cfg[3], e)
    check(len(W) == len(F), "%d packets on the wires, %d sent", len(W), len(F))
    for k, (f, w) in enumerate(zip(F, W)):
        for key in ("data", "par", "be", "fb", "lb", "seq"):
            if key in f:
                check(w[key] == f[key], "%s %d bit, %d segments: packet %d on the wires has %s %s, sent %s", cfg[0], cfg[1], cfg[3], k, key, w[key], f[key])
        check(w["disc"] or not f["disc"], "discontinue lost")
        check(not w["disc"] or cfg[3] > 1 or f["disc"], "discontinue without cause")
    for k, (f, w, u) in enumerate(zip(F, W, got)):
        same("sink", k, f, u, w["disc"])
    ctx.nontrivial(len(F) > 1 and (any(c["sp"]) or any(c["kp"]) or cfg[3] > 1))
    ctx.label("%s %d/%d" % (cfg[0], cfg[1], cfg[3]))


def run_sink(c, ctx):
    """Independent driver -> Sink."""
    cfg = tuple(c["cfg"])
    F = [mk(cfg, k, fr) for k, fr in enumerate(c["frames"])]
    it = cycle(c["sp"])
    beats = xaxis.encode(cfg, F, lambda: not next(it))
    disc = {f["id"]: any(b["user"] >> (xaxis.W512 if cfg[1] == 512 else xaxis.NARROW)[cfg[0]]["disc"] & 1 for b in beats if f["id"] in b["frames"]) for f in F}
    got = []

    async def main():
        d = bench(cfg)
        snk = SNK[cfg[0]](AxiStreamBus.from_prefix(d, "s"), d.clk, segments=cfg[3])
        if any(c["kp"]) and not all(c["kp"]):
            snk.set_pause_generator(cycle(c["kp"]))
        snk.queue_occupancy_limit_frames = c["klim"]
        edge = RisingEdge(d.clk)

        async def drive():
            idle = cycle(c["idle"])
            for b in beats:
                while next(idle):
                    d.s_tvalid.value = 0
                    await edge
                d.s_tvalid.value, d.s_tdata.value, d.s_tuser.value, d.s_tlast.value = 1, b["data"], b["user"], b["last"]
                d.s_tkeep.value = b["keep"] if cfg[3] == 1 else (1 << cfg[1] // 32) - 1
                await edge
                while not int(d.s_tready.value):
                    await edge
            d.s_tvalid.value = 0
        await edge
        a = cocotb.start_soon(drive())
        while len(got) < len(F):
            got.append(await snk.recv())
        await a
        await Timer(100, "ns")
        check(snk.empty(), "sink has more packets than were sent")
    simcore.run(main, max_time_ns=4_000_000)
    for k, (f, u) in enumerate(zip(F, got)):
        same("%s %d bit, %d segments" % (cfg[0], cfg[1], cfg[3]), k, f, u, disc[f["id"]])
    ctx.nontrivial(len(F) > 1)
    ctx.label("%s %d/%d" % (cfg[0], cfg[1], cfg[3]))


def idle_pat():
    return st.one_of(st.just([False]), st.lists(st.booleans(), min_size=1, max_size=9).map(lambda x: x + [False]))


scase = st.fixed_dictionaries({"cfg": st.sampled_from(xaxis.CONFIGS), "frames": st.lists(frame, min_size=1, max_size=8), "sp": pat, "kp": pat, "klim": st.sampled_from([-1, -1, 1, 3]), "idle": idle_pat()})

PARTS = [Part("stream", case, run, 2400, 60000, "random packets from a source to a sink with random pauses, gaps and queue limits, beats decoded by the product guide; non-trivial with several packets and pauses or straddling"),
         Part("sink", scase, run_sink, 1600, 40000, "beats encoded by the product guide with random idle cycles and straddling; non-trivial with several packets")]
