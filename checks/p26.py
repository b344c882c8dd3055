"""P26: Intel hard IP streaming interfaces carry every packet once, in order, unchanged."""
import random
import hypothesis.strategies as st
import simcore
import cocotb
import tlpgen
import avst
from cocotb.triggers import Timer, RisingEdge
from cocotb.clock import Clock
from cocotbext.pcie.intel.s10 import interface as S
from cocotbext.pcie.intel.ptile import interface as P
from runner import Part, check

PROPERTY = "P26"
ASSUMPTIONS = ["packets are well formed (the header gives the length) and carry no digest", "parity is checked for covering one byte per bit and for keeping one sense, even or odd, per field"]

CLS = {"s10": dict(rx=S.S10RxBus, tx=S.S10TxBus, src=S.S10PcieSource, snk=S.S10PcieSink, frame=S.S10PcieFrame),
       "ptile": dict(rx=P.PTileRxBus, tx=P.PTileTxBus, src=P.PTilePcieSource, snk=P.PTilePcieSink, frame=P.PTilePcieFrame)}

frame = st.fixed_dictionaries({"n": tlpgen.mix(st.just(0), st.integers(1, 9), st.integers(1, 40), st.sampled_from([4, 5, 8, 12, 13, 16, 28, 29, 60, 64, 128, 1024])), "salt": st.integers(0, 2 ** 16 - 1),
                               "four": st.booleans(), "bar": st.integers(0, 7), "fn": st.integers(0, 7), "vf": tlpgen.mix(st.none(), st.integers(0, 2047)), "err": st.sampled_from([0, 0, 0, 1]), "abort": st.sampled_from([0, 0, 0, 1]),
                               "gap": st.sampled_from([0, 0, 0, 0, 1, 3, 10])})
pat = tlpgen.mix(st.just([False]), st.just([False]), st.lists(st.booleans(), min_size=2, max_size=11))
base = {"cfg": st.sampled_from(avst.CONFIGS), "par": st.booleans(), "lat": tlpgen.mix(st.just(0), st.just(0), st.just(1), st.integers(2, 5), st.sampled_from([3, 17, 18, 27])), "kp": pat, "klim": st.sampled_from([-1, -1, 1, 3]), "sp": pat}
case = st.fixed_dictionaries({**base, "frames": st.lists(frame, min_size=1, max_size=12), "lim": st.sampled_from([-1, -1, 1, 2, 40]), "lazy": st.sampled_from([0, 0, 3, 40]), "nowait": st.booleans(),
                              "clear": st.sampled_from([None, None, None, "source", "sink"]), "reset": st.sampled_from([False, False, True])})


def mk(cfg, k, fr):
    fam, w, s, d = cfg
    x = fr["salt"] * 2654435761 & 0xffffffff

    def rnd(bits):
        nonlocal x
        x = (x * 6364136223846793005 + 1442695040888963407) & (1 << 64) - 1
        return x >> 64 - bits
    dw0 = (2 if fr["n"] else 0) + fr["four"] << 29 | rnd(29) & ~0x3ff
    dw0 |= fr["n"] & 0x3ff if fr["n"] else rnd(10)
    hdr = [dw0] + [rnd(32) for _ in range(2 + fr["four"])]
    data = [rnd(32) for _ in range(fr["n"])]
    f = {"id": k, "data": data if fam == "ptile" else hdr + data, "bar": 0, "fn": 0, "vf": None, "err": 0, "abort": 0}
    f["par"] = [rnd(4) for _ in f["data"]]
    if d == "rx":
        f.update(bar=fr["bar"], fn=fr["fn"] & (1 << avst.FN_BITS[fam]) - 1, vf=fr["vf"], abort=fr["abort"] if fam == "ptile" else 0)
    else:
        f["err"] = fr["err"]
    if fam == "ptile":
        f.update(hdr=int.from_bytes(b"".join(v.to_bytes(4, "big") for v in hdr).ljust(16, b"\0"), "big"), pfx=rnd(32), hpar=rnd(16), ppar=rnd(4))
    return f


ATTR = {"data": "data", "par": "parity", "bar": "bar_range", "fn": "func_num", "vf": "vf_num", "err": "err", "abort": "tlp_abort", "hdr": "hdr", "hpar": "hdr_par", "pfx": "tlp_prfx", "ppar": "tlp_prfx_par"}


def obj(cfg, f):
    o = CLS[cfg[0]]["frame"]()
    for k, a in ATTR.items():
        if k in f and hasattr(o, a):
            setattr(o, a, list(f[k]) if isinstance(f[k], list) else f[k])
    return o


def same(what, par, f, o):
    for k, a in ATTR.items():
        if k in f and hasattr(o, a) and (par or k not in ("par", "hpar", "ppar")):
            v = getattr(o, a)
            check(v == f[k], "%s: packet %d arrives with %s %s, sent %s", what, f["id"], a, v if not isinstance(v, list) else [hex(y) for y in v[:24]], f[k] if not isinstance(f[k], list) else [hex(y) for y in f[k][:24]])


def cycle(p):
    while True:
        for v in p:
            yield v


def pauses(p):
    """The given pattern, then irregular pauses of the same density (two regular ones could starve each other)."""
    r = random.Random(str(p))
    yield from p
    while True:
        yield r.choice(p)


def bench(cfg, par):
    d = simcore.Dut(clk=1, rst=1, **{"s_" + k: v for k, v in avst.signals(cfg, par).items()})
    cocotb.start_soon(Clock(d.clk, 4, "ns").start())
    return d


async def monitor(d, names, lat, beats):
    """Record accepted beats; check stability (latency 0) or that valid answers a ready `lat` cycles before."""
    held, hist = None, [0] * lat
    edge = RisingEdge(d.clk)
    while True:
        await edge
        now = {k: int(getattr(d, "s_" + k).value) for k in names if k != "ready"}
        r = int(d.s_ready.value)
        if int(d.rst.value):
            held, hist = None, [0] * lat
            continue
        if lat:
            hist.append(r)
            r = hist.pop(0)
            check(r or not now["valid"], "valid without ready %d cycles before", lat)
        if held is not None:
            check(now == held, "the beat on the bus changed or was withdrawn before it was accepted")
        held = now if now["valid"] and not r else None
        if now["valid"] and r:
            beats.append(now)


def label(cfg, c):
    return "%s %s %d bit, %d segments, ready latency %d" % (cfg[0], cfg[3], cfg[1], cfg[2], c["lat"])


def run(c, ctx):
    """Source -> Sink, with an independent decoder on the wires."""
    cfg = tuple(c["cfg"])
    fam, par, names = CLS[cfg[0]], c["par"], list(avst.signals(tuple(c["cfg"]), c["par"]))
    F = [mk(cfg, k, fr) for k, fr in enumerate(c["frames"])]
    beats, got, mark = [], [], []

    async def main():
        d = bench(cfg, par)
        src = fam["src"](fam[cfg[3]].from_prefix(d, "s"), d.clk, d.rst, ready_latency=c["lat"])
        snk = fam["snk"](fam[cfg[3]].from_prefix(d, "s"), d.clk, d.rst, ready_latency=c["lat"])
        cocotb.start_soon(monitor(d, names, c["lat"], beats))
        edge = RisingEdge(d.clk)
        if c["clear"]:
            # what clear() discards must leave no trace
            o = [obj(cfg, f) for f in F[:2]]
            if c["clear"] == "source":
                src.pause = True
                for f in o:
                    src.send_nowait(f)
                src.clear()
                check(src.empty() and src.count() == 0, "source not empty after clear()")
                src.queue_occupancy_limit_frames = 1
                check(not src.full(), "source full after clear()")
                src.queue_occupancy_limit_frames = -1
                src.pause = False
            else:
                for f in o:
                    src.send_nowait(f)
                await src.wait()
                await Timer(400, "ns")
                check(snk.count() == len(o), "sink has %d packets of %d", snk.count(), len(o))
                snk.clear()
                check(snk.empty() and snk.count() == 0, "sink not empty after clear()")
            beats.clear()
        if c["reset"]:
            d.rst.value = 1
            for _ in range(5):
                await edge
            d.rst.value = 0
            await edge
        if any(c["sp"]) and not all(c["sp"]):
            src.set_pause_generator(pauses(c["sp"]))
        if any(c["kp"]) and not all(c["kp"]):
            snk.set_pause_generator(pauses(c["kp"]))
        if c["lim"] > 3:
            src.queue_occupancy_limit_bytes = c["lim"]
        else:
            src.queue_occupancy_limit_frames = c["lim"]
        snk.queue_occupancy_limit_frames = c["klim"]

        async def feed():
            for f, fr in zip(F, c["frames"]):
                if fr["gap"]:
                    await Timer(fr["gap"] * 4, "ns")
                o = obj(cfg, f)
                if c["nowait"] and not src.full():
                    src.send_nowait(o)
                else:
                    await src.send(o)
                if o.data:
                    o.data[0] ^= 1            # the interface has its own copy
                    o.parity[0] ^= 1
            await src.wait()
            check(src.empty() and src.idle(), "source not idle after wait()")

        async def drain():
            while len(got) < len(F):
                if c["lazy"]:
                    await Timer(4 * c["lazy"], "ns")
                if c["nowait"]:
                    await snk.wait()
                    check(not snk.empty() and snk.count() > 0, "sink empty after wait()")
                    got.append(snk.recv_nowait())
                else:
                    got.append(await snk.recv())
        a, b = cocotb.start_soon(feed()), cocotb.start_soon(drain())
        await b
        await a
        await Timer(400, "ns")
        check(snk.empty() and snk.count() == 0 and snk.idle(), "sink has more packets than were sent, or is not idle")
        check(src.queue_occupancy_frames == 0 and src.queue_occupancy_bytes == 0 and snk.queue_occupancy_frames == 0 and snk.queue_occupancy_bytes == 0, "occupancy counters do not return to zero")
    simcore.run(main, max_time_ns=4_000_000)
    try:
        W = avst.decode(cfg, par, beats)
    except AssertionError as e:
        check(False, "%s: beats do not follow the user guide: %s", label(cfg, c), e)
    check(len(W) == len(F), "%d packets on the wires, %d sent", len(W), len(F))
    for f, w in zip(F, W):
        for k, v in w.items():
            if par or k != "par":
                check(v == f[k], "%s: packet %d on the wires has %s %s, sent %s", label(cfg, c), f["id"], k, v, f[k])
    for f, o in zip(F, got):
        same(label(cfg, c), par, f, o)
    ctx.nontrivial(len(F) > 1 and (any(c["sp"]) or any(c["kp"]) or c["lat"] > 0 or cfg[2] > 1))
    ctx.label("%s %d %s %s" % (cfg[0], cfg[1], cfg[3], "L0" if not c["lat"] else "L>0"))


def run_sink(c, ctx):
    """Independent driver -> Sink."""
    cfg = tuple(c["cfg"])
    fam, par, lat = CLS[cfg[0]], c["par"], c["lat"]
    F = [mk(cfg, k, fr) for k, fr in enumerate(c["frames"])]
    it = cycle(c["sp"])
    beats = avst.encode(cfg, par, F, lambda: not next(it))
    got = []

    async def main():
        d = bench(cfg, par)
        snk = fam["snk"](fam[cfg[3]].from_prefix(d, "s"), d.clk, d.rst, ready_latency=lat)
        if any(c["kp"]) and not all(c["kp"]):
            snk.set_pause_generator(pauses(c["kp"]))
        snk.queue_occupancy_limit_frames = c["klim"]
        edge = RisingEdge(d.clk)

        async def drive():
            idle, hist, todo = pauses(c["idle"]), [0] * max(0, lat - 1), list(beats)
            while todo:
                if lat:
                    hist.append(int(d.s_ready.value))
                    ok = hist.pop(0)
                else:
                    ok = True
                if ok and not next(idle):
                    b = todo.pop(0)
                    for k, v in b.items():
                        if k != "ready":
                            getattr(d, "s_" + k).value = v
                    await edge
                    while not lat and not int(d.s_ready.value):
                        await edge
                else:
                    d.s_valid.value = 0
                    d.s_sop.value = d.s_eop.value = (1 << cfg[2]) - 1      # means nothing without valid
                    await edge
            d.s_valid.value = 0
        await edge
        a = cocotb.start_soon(drive())
        while len(got) < len(F):
            got.append(await snk.recv())
        await a
        await Timer(200, "ns")
        check(snk.empty() and snk.idle(), "sink has more packets than were sent, or is not idle")
    simcore.run(main, max_time_ns=4_000_000)
    for f, o in zip(F, got):
        same(label(cfg, c), par, f, o)
    ctx.nontrivial(len(F) > 1)
    ctx.label("%s %d %s %s" % (cfg[0], cfg[1], cfg[3], "L0" if not lat else "L>0"))


def sense(what, got, even, mask):
    check(got in (even, even ^ mask), "%s: parity %#x, byte parity is %#x (or its complement)", what, got, even)
    return got != even


def run_tlp(c, ctx):
    """TLP <-> frame."""
    t = tlpgen.build(c["tlp"])
    w = bytes(tlpgen.wire(c["tlp"]))
    hb = 16 if tlpgen.four_dw(c["tlp"]["kind"]) else 12
    if len(w) == hb and tlpgen.has_data(c["tlp"]["kind"]):
        w += bytes(tlpgen.pattern(c["tlp"]["length"] * 4, c["tlp"]["salt"]))
    hdr, data = [int.from_bytes(w[k:k + 4], "big") for k in range(0, hb, 4)], [int.from_bytes(w[k:k + 4], "little") for k in range(hb, len(w), 4)]
    for name in ("s10", "ptile"):
        cls = CLS[name]["frame"]
        f = cls.from_tlp(t)
        if name == "s10":
            check(f.data == hdr + data, "%s frame of %r has dwords %s, expected %s", name, c["tlp"], [hex(v) for v in f.data], [hex(v) for v in hdr + data])
        else:
            check(f.hdr == int.from_bytes(w[:hb].ljust(16, b"\0"), "big") and f.data == data, "%s frame of %r has header %#x, dwords %s", name, c["tlp"], f.hdr, [hex(v) for v in f.data])
        senses = {sense("%s dword %#x" % (name, v), p, avst.byte_parity(v, 4), 15) for v, p in zip(f.data, f.parity)}
        check(len(f.parity) == len(f.data) and len(senses) < 2, "%s: parity is even for some dwords and odd for others", name)
        if name == "ptile":
            f.tlp_prfx = c["pfx"]
            f.update_parity()
            sense("header %#x" % f.hdr, f.hdr_par, avst.byte_parity(f.hdr, 16), 0xffff)
            sense("prefix %#x" % f.tlp_prfx, f.tlp_prfx_par, avst.byte_parity(f.tlp_prfx, 4), 15)
        check(f.check_parity(), "check_parity rejects a fresh frame")
        g = cls(f)
        check(g == f and len(g) == len(f), "copy of a frame differs")
        # one flipped bit anywhere is noticed, by comparison and by parity
        where = c["where"] % (32 * len(g.data) + (160 if name == "ptile" else 0))
        if where < 32 * len(g.data):
            g.data[where // 32] ^= 1 << where % 32
        elif where - 32 * len(g.data) < 128:
            g.hdr ^= 1 << where - 32 * len(g.data)
        else:
            g.tlp_prfx ^= 1 << where - 32 * len(g.data) - 128
        check(g != f, "frames differing in a bit compare equal")
        check(not g.check_parity(), "check_parity accepts a frame with a flipped bit")
        check(f.check_parity(), "copy shares storage with the original")
        u = f.to_tlp()
        check(tlpgen.observe(u) == tlpgen.observe(t) and bytes(u.data) == bytes(t.data) and u == t, "%s: %r became %r", name, t, u)
    ctx.nontrivial(bool(data))
    ctx.label(c["tlp"]["kind"])


idle_pat = st.one_of(st.just([False]), st.lists(st.booleans(), min_size=1, max_size=9).map(lambda x: x + [False]))
scase = st.fixed_dictionaries({**base, "sp": st.lists(st.booleans(), min_size=0, max_size=7).map(lambda x: x + [False]), "frames": st.lists(frame, min_size=1, max_size=8), "idle": idle_pat})
tcase = st.fixed_dictionaries({"tlp": tlpgen.mix(*[tlpgen.tlp_case(max_dw=40)] * 4, tlpgen.tlp_case(max_dw=1024)), "pfx": st.integers(0, 2 ** 32 - 1), "where": st.integers(0, 4095) | st.integers(0, 33000)})

PARTS = [Part("stream", case, run, 2000, 60000, "random packets from a source to a sink with random pauses, gaps, ready latencies, queue limits, clear() and reset, beats decoded by the user guide; non-trivial with several packets and pauses, latency or two segments"),
         Part("sink", scase, run_sink, 1200, 40000, "beats encoded by the user guide with idle segments and cycles, ready latencies; non-trivial with several packets"),
         Part("tlp", tcase, run_tlp, 1500, 40000, "random TLPs to frames and back, parity against a per-byte model, single flipped bits; non-trivial with payload")]
