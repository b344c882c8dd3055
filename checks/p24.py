"""P24: Xilinx completer interfaces: every claimed request is delivered once, with its BAR, and every completion goes out once."""
import hypothesis.strategies as st
import simcore
import cocotb
import tlpgen
import xdev
from tlpgen import mix
from xdesc import spec, enables, parity
from cocotb.triggers import Timer, RisingEdge
from cocotbext.pcie.core.tlp import Tlp, TlpType, TlpAttr, TlpTc, TlpAt
from cocotbext.pcie.core.utils import PcieId
from runner import Part, check

PROPERTY = "P24"
ASSUMPTIONS = ["no messages, atomic or locked requests to the device (not implemented by the library)", "the enables of the command register are not modelled",
               "address-aligned mode is not implemented by the library", "at most one non-posted credit is granted per clock"]

KINDS = {"mr": "MEM_READ", "mr64": "MEM_READ_64", "mw": "MEM_WRITE", "mw64": "MEM_WRITE_64", "ir": "IO_READ", "iw": "IO_WRITE"}

# size: log2
bar = mix(st.just(["m", 12]), st.none(), st.tuples(st.just("m"), st.integers(4, 22)), st.tuples(st.just("m"), st.integers(8, 22)), st.tuples(st.just("M"), st.integers(4, 40)),
                st.tuples(st.just("i"), st.integers(4, 8)))

req = st.fixed_dictionaries({"op": st.just("req"), "fn": st.integers(0, 3), "bar": st.integers(0, 5), "miss": st.sampled_from([1] * 9 + [0]), "w": st.booleans(), "n": tlpgen.pick_len(1, 128),
                             "off": st.one_of(st.integers(0, 1 << 38), st.integers(0, 70), st.sampled_from([0, 31, (1 << 38) - 1])), "page": st.integers(0, 1 << 30),
                             "fbe": st.sampled_from([15, 15, 1, 8, 12, 6, 0, 14]), "lbe": st.sampled_from([15, 15, 1, 3, 7]), "tc": st.integers(0, 7), "attr": st.integers(0, 7),
                             "at": st.integers(0, 2), "rid": st.integers(0, 65535), "tag": st.integers(0, 255), "salt": st.integers(0, 255),
                             "ans": st.sampled_from(["ok", "ok", "ok", "ur", "ca", "part"]), "cut": st.lists(st.integers(1, 4), max_size=4), "cid": st.integers(0, 65535),
                             "en": st.booleans(), "disc": st.integers(0, 5)})
op = mix(req, req, req, req, req, req,
               st.fixed_dictionaries({"op": st.just("gap"), "n": st.integers(1, 60)}),
               st.fixed_dictionaries({"op": st.just("grant"), "n": st.integers(1, 32), "gaps": st.lists(st.integers(0, 3), min_size=1, max_size=4)}),
               st.fixed_dictionaries({"op": st.just("cfg"), "fn": st.integers(0, 7), "v": st.integers(0, 255), "type1": st.booleans()}),
               st.fixed_dictionaries({"op": st.just("bus"), "v": st.integers(0, 255)}),
               st.fixed_dictionaries({"op": st.just("stall"), "n": st.integers(20, 600)}),
               st.fixed_dictionaries({"op": st.just("off"), "fn": st.integers(0, 3)}),
               st.fixed_dictionaries({"op": st.just("down"), "fn": st.integers(0, 3), "n": st.integers(8, 60)}),
               st.fixed_dictionaries({"op": st.just("idle")}))


@st.composite
def cases(draw):
    c = draw(xdev.config())
    c.update(bars=draw(st.lists(st.lists(bar, min_size=6, max_size=6), min_size=1, max_size=4)), ops=draw(tlpgen.many(op, 3, 40)), ration=draw(st.booleans()),
             sp=draw(xdev.pat), kp=draw(xdev.pat), order=draw(st.lists(st.integers(0, 7), min_size=1, max_size=8)), lat=draw(st.lists(st.integers(0, 30), min_size=1, max_size=6)))
    if c["ration"]:
        c["opt"] = False
    return c


class Req:
    pass


class Harness:
    def __init__(self, c):
        self.c = c
        self.b = b = xdev.Bench(c, extra={"cfg_config_space_enable": 1, "sys_reset": 1, "cfg_phy_link_down": 1})
        b.part.on_tlp = self.on_tlp
        self.err = []
        self.posted, self.np = [], []            # sent and not delivered on CQ
        self.open = {}                           # (rid, tag) -> request on its way or being answered
        self.expect = {}                         # (rid, tag) -> completions on their way to the link
        self.todo = []
        self.granted = self.delivered = self.served = self.nposted = 0
        self.n = 0
        self.stall = False

    def fail(self, msg, *a):
        self.err.append(msg % a)

    # the link partner
    def on_tlp(self, t):
        if self.b.take_cfg(t):
            return
        o = tlpgen.observe(t)
        key = (o["requester_id"], o["tag"])
        q = self.expect.get(key)
        if not t.is_completion() or not q:
            return self.fail("unexpected packet from the device: %r", o)
        want, data, last = q.pop(0)
        for k, v in want.items():
            if o[k] != v:
                return self.fail("completion with %s %r on the link, should be %r: %r, want %r", k, o[k], v, o, want)
        if bytes(t.data) != data:
            return self.fail("completion payload differs: %r", o)
        if last:
            del self.expect[key], self.open[key]
            self.served += 1

    def layout(self):
        """Give every BAR its own place."""
        self.bars = {}
        for fn in range(len(self.b.fns)):
            spec_ = self.c["bars"][fn % len(self.c["bars"])]
            i, out = 0, []
            while i < 6:
                s = spec_[i]
                if s and not (s[0] == "M" and i == 5):
                    kind, size = s
                    slot = fn * 6 + i + 1
                    base = {"m": slot << 24, "M": slot << 42, "i": slot << 12}[kind]
                    out.append((fn, i, kind, size, base))
                    self.b.fns[fn].configure_bar(i, 1 << size, ext=kind == "M", prefetch=kind == "M", io=kind == "i")
                    i += kind == "M"
                i += 1
            self.bars[fn] = out

    async def send(self, r):
        fn = r["fn"] % len(self.b.fns)
        bars = self.bars[fn]
        hit = bars and r["miss"] != 0
        if hit:
            _, i, kind, size, base = bars[r["bar"] % len(bars)]
        else:
            kind, size, base = "mMi"[r["bar"] % 3], 4, 0
            # addresses above all BARs, or just beyond one of them
            if bars and r["miss"] == 0 and r["bar"] & 1:
                _, _, kind, size, base = bars[r["bar"] % len(bars)]
                base += 1 << size
                size = 4
            else:
                base = {"m": 0xf0000000, "M": 0xf << 60, "i": 0xf0000000}[kind]
        n = 1 if kind == "i" else r["n"]
        n = min(n, 1 << size - 2)
        room = (1 << size) // 4 - n
        dw = r["off"] % (room + 1)
        a = base + 4 * dw
        if a % 4096 + 4 * n > 4096:
            a -= a % 4096 + 4 * n - 4096
        q = Req()
        q.r = r
        name = {"m": "mw" if r["w"] else "mr", "M": "mw64" if r["w"] else "mr64", "i": "iw" if r["w"] else "ir"}[kind]
        fbe, lbe = r["fbe"], r["lbe"]
        if n > 1:
            fbe = {0: 15, 1: 8, 6: 14}.get(fbe, fbe)
        else:
            lbe = 0
        rid, tag = r["rid"], r["tag"]
        while (rid, tag) in self.open or (rid, tag) in self.b.cfg_cpl:
            tag = tag + 1 & 255
        q.c = {"kind": KINDS[name], "tc": r["tc"], "attr": r["attr"], "at": r["at"] if kind != "i" else 0, "ep": False, "ln": False, "th": False, "td": False, "ph": 0,
               "length": n, "first_be": fbe, "last_be": lbe, "address": a, "requester_id": rid, "tag": tag, "salt": r["salt"]}
        q.data = tlpgen.pattern(4 * n, r["salt"]) if tlpgen.has_data(q.c["kind"]) else b""
        np = not q.c["kind"].startswith("MEM_WRITE")
        self.n += 1
        q.order = self.n
        if hit:
            us = {"fn": fn, "bar": i, "aperture": size}
            dws = [int.from_bytes(q.data[k:k + 4], "little") for k in range(0, len(q.data), 4)]
            q.want = spec("cq", dict(q.c, us=us)) + dws
            q.be = [0] * 4 + enables("cq", q.c, len(dws))
            q.fn = fn
            (self.np if np else self.posted).append(q)
            if np:
                self.open[(rid, tag)] = q
        elif np:
            self.open[(rid, tag)] = q
            self.expect[(rid, tag)] = [({"kind": "CPL", "status": 1, "tc": r["tc"], "attr": r["attr"]}, b"", True)]
        await self.b.part.send(tlpgen.build(q.c))

    # the user application
    async def collect(self):
        while True:
            f = await self.b.cq.recv()
            d = list(f.data)
            kind = d[2] >> 11 & 15
            lst = self.posted if kind == 1 else self.np
            if not lst:
                self.fail("a request nobody sent: %s", [hex(v) for v in d[:4]])
                return
            q = lst.pop(0)
            if d != q.want:
                self.fail("request %r delivered as %s, should be %s", q.c, [hex(v) for v in d[:6]], [hex(v) for v in q.want[:6]])
                continue
            if (f.first_be, f.last_be) != (q.c["first_be"], q.c["last_be"]) or list(f.byte_en) != q.be or f.discontinue:
                self.fail("byte enables of %r: %x %x %r", q.c, f.first_be, f.last_be, f.byte_en)
            if self.c["parity"] and f.parity != [parity(v) for v in d]:
                self.fail("parity of a request")
            if lst is self.np:
                self.delivered += 1
                if self.c["ration"] and self.delivered > self.granted:
                    self.fail("%d non-posted requests delivered, %d asked for", self.delivered, self.granted)
                if any(p.order < q.order for p in self.posted):
                    self.fail("non-posted %r passed a posted request", q.c)
                self.plan(q)
            else:
                self.nposted += 1

    def plan(self, q):
        """Completions of a delivered request: [(kind, length, byte count, lower address, status, data, discontinue first, last)]"""
        c, r, out = q.c, q.r, []
        mem = c["kind"].startswith("MEM")
        if not mem:
            ps = [(0, 0, 4, 0, True)] if c["kind"] == "IO_WRITE" else [(0, 4, 4, 0, True)]
        else:
            class T:
                length, first_be, last_be = c["length"], c["first_be"], c["last_be"]
            off, cnt = tlpgen.span(T)
            a, end = c["address"] + off, c["address"] + off + cnt
            ps = []
            for n in list(r["cut"]) + [9999]:
                b = min(end, (a // 128 + n) * 128)
                ps.append((a & 3, (b + 3) // 4 * 4 - a // 4 * 4, end - a, a & 0x7f, b == end))
                a = b
                if a == end:
                    break
        stop = {"ur": 0, "ca": len(ps) - 1, "part": len(ps) // 2}.get(r["ans"])
        for k, (_, n, bc, la, last) in enumerate(ps):
            status = 0
            data = tlpgen.pattern(n, r["salt"] + k + 1)
            if k == stop and (r["ans"] != "part" or k):
                status, data, last = (1 if r["ans"] == "ur" else 4), b"", True
            out.append((len(data) // 4, bc, la, status, data, r["disc"] == k, last))
            if last:
                break
        self.todo.append((q, out))

    async def answer(self):
        k = 0
        while True:
            await Timer(self.c["lat"][k % len(self.c["lat"])] * 20 + 1, "ns")
            if not self.todo:
                continue
            k += 1
            i = self.c["order"][k % len(self.c["order"])] % len(self.todo)
            q, s = self.todo[i]
            length, bc, la, status, data, disc, last = s[0]
            c, r = q.c, q.r
            d = {"kind": "CPL_DATA" if data else "CPL", "tc": c["tc"], "attr": c["attr"], "at": 0, "ep": bool(data) and r["salt"] % 13 == 0, "length": length, "byte_count": bc, "lower_address": la, "status": status,
                 "tag": c["tag"], "requester_id": c["requester_id"], "completer_id": r["cid"] if r["en"] else q.fn, "us": {"en": r["en"]}}
            dws = [int.from_bytes(data[j:j + 4], "little") for j in range(0, len(data), 4)]
            words = spec("cc", d) + dws
            if disc and self.b.segs["cc"] == 1:
                await self.b.cc.send(self.b.frame(words, parity, disc=True))
            want = {k: d[k] for k in ("kind", "tc", "attr", "ep", "length", "byte_count", "lower_address", "status", "tag", "requester_id")}
            if not data:
                want["length"] = 0
            want["completer_id"] = r["cid"] if r["en"] else self.b.bus << 8 | q.fn
            self.expect.setdefault((c["requester_id"], c["tag"]), []).append((want, data, last))
            s.pop(0)
            if not s:
                self.todo.pop(i)
            await self.b.cc.send(self.b.frame(words, parity))

    def raise_error(self):
        check(not self.err, "%s", self.err and self.err[0])

    def settled(self):
        if self.posted or self.todo or (self.np and (not self.c["ration"] or self.delivered < self.granted)):
            return False
        return len(self.open) == len(self.np)

    async def idle(self):
        for _ in range(4000):
            self.raise_error()
            if self.settled():
                break
            await Timer(100, "ns")
        else:
            check(False, "stuck: %d posted and %d non-posted requests not delivered (%d delivered, %d asked for), %d unanswered",
                  len(self.posted), len(self.np), self.delivered, self.granted, len(self.open))
        for _ in range(12):
            await RisingEdge(self.b.d.user_clk)
        await Timer(200, "ns")
        self.raise_error()
        check(self.settled(), "late traffic")
        if not self.c["opt"]:
            got = int(self.b.d.pcie_cq_np_req_count.value)
            want = self.granted - self.delivered if self.c["ration"] else 32
            check(got == want, "pcie_cq_np_req_count is %d with %d requests allowed", got, want)

    async def grant(self, o):
        d = self.b.d
        k = 0
        for i in range(o["n"]):
            if self.granted - self.delivered >= 32:
                break
            for _ in range(o["gaps"][k % len(o["gaps"])]):
                await RisingEdge(d.user_clk)
            k += 1
            self.granted += 1
            d.pcie_cq_np_req.value = 1
            await RisingEdge(d.user_clk)
            d.pcie_cq_np_req.value = 0

    async def hold_off(self, n):
        """The user does not take requests for n clocks."""
        cq = self.b.cq
        cq.clear_pause_generator()
        cq.pause = True
        for _ in range(n):
            await RisingEdge(self.b.d.user_clk)
        cq.pause = False
        cq.set_pause_generator(xdev.cycle(self.c["kp"]))

    async def start(self):
        b, c = self.b, self.c
        b.d.pcie_cq_np_req.value = 0 if c["ration"] else 1
        self.layout()
        b.d.cfg_config_space_enable.setimmediatevalue(1)
        b.d.sys_reset.setimmediatevalue(1)
        await b.start()
        for fn, bars in self.bars.items():
            for _, i, kind, size, base in bars:
                await b.cfg_write(fn, 4 + i, base & 0xffffffff)
                if kind == "M":
                    await b.cfg_write(fn, 5 + i, base >> 32)
                t = await b.cfg("CFG_READ_0", fn, 4 + i)
                want = base & 0xffffffff | {"m": 0, "M": 12, "i": 1}[kind]
                check(t.data == want.to_bytes(4, "little"), "BAR %d of function %d reads %s after writing %#x", i, fn, bytes(t.data).hex(), base)
        for _ in range(40):
            await RisingEdge(b.d.user_clk)
        b.cc.set_pause_generator(xdev.cycle(c["sp"]))
        b.cq.set_pause_generator(xdev.cycle(c["kp"]))
        cocotb.start_soon(self.answer())
        cocotb.start_soon(self.collect())

    async def cfg_op(self, o):
        b = self.b
        if o["type1"]:
            t = await b.cfg("CFG_WRITE_1", o["fn"] & 3, 15, o["v"], 1)
            check(int(t.status) == 1, "a type 1 configuration request to an endpoint is answered with status %d", t.status)
            return
        t = await b.cfg_write(o["fn"], 15, o["v"], 1)
        if o["fn"] >= len(b.fns):
            check(int(t.status) == 1 and int(t.completer_id) >> 8 == b.bus, "configuration of absent function %d: status %d from %04x", o["fn"], t.status, int(t.completer_id))
            return
        check(int(t.status) == 0 and int(t.completer_id) == b.bus << 8 | o["fn"], "configuration write to function %d: status %d from %04x", o["fn"], t.status, int(t.completer_id))
        t = await b.cfg("CFG_READ_0", o["fn"], 15)
        check(int(t.status) == 0 and t.data[0] == o["v"] and int(t.completer_id) == b.bus << 8 | o["fn"], "configuration read of function %d: %r", o["fn"], t)


def run(c, ctx):
    res = {}

    async def main():
        h = res["h"] = Harness(c)
        await h.start()
        b = h.b
        for o in c["ops"]:
            h.raise_error()
            k = o["op"]
            if k == "req":
                await h.send(o)
            elif k == "gap":
                for _ in range(o["n"]):
                    await RisingEdge(b.d.user_clk)
            elif k == "grant" and c["ration"]:
                await h.grant(o)
            elif k == "cfg":
                await h.cfg_op(o)
            elif k == "bus":
                await h.idle()
                if h.open:
                    continue        # answers would carry the new number
                b.bus = o["v"]
                for fn in range(len(b.fns)):
                    await b.cfg_write(fn, 15, 0, 0)
            elif k == "stall":
                cocotb.start_soon(h.hold_off(o["n"]))
            elif k == "off" and not c["opt"]:
                b.d.cfg_config_space_enable.value = 0
                for _ in range(3):
                    await RisingEdge(b.d.user_clk)
                t = await b.cfg("CFG_READ_0", o["fn"], 0)
                check(int(t.status) == 2 and not t.data and int(t.completer_id) >> 8 == b.bus, "configuration space disabled, read answered %r", t)
                b.d.cfg_config_space_enable.value = 1
                for _ in range(3):
                    await RisingEdge(b.d.user_clk)
            elif k == "idle":
                await h.idle()
            elif k == "down":
                # a reset while nothing is on its way: no configuration access meanwhile, and everything goes on afterwards
                await h.idle()
                if h.open:
                    continue
                b.d.sys_reset.value = 0
                for _ in range(o["n"]):
                    await RisingEdge(b.d.user_clk)
                t = await b.cfg("CFG_READ_0", o["fn"], 0)
                check(int(t.status) == 2 and not t.data and int(t.completer_id) >> 8 == b.bus, "device in reset, configuration read answered %r", t)
                check(int(b.d.user_reset.value) == 1 and int(b.d.user_lnk_up.value) == 0 and int(b.d.cfg_phy_link_down.value) == 1,
                      "device in reset: user reset %d, link up %d, link down %d", int(b.d.user_reset.value), int(b.d.user_lnk_up.value), int(b.d.cfg_phy_link_down.value))
                b.d.sys_reset.value = 1
                for _ in range(200):
                    await RisingEdge(b.d.user_clk)
                    if not int(b.d.user_reset.value):
                        break
                else:
                    check(False, "the user's reset was not released")
                for _ in range(12):
                    await RisingEdge(b.d.user_clk)
                check(int(b.d.user_lnk_up.value) == 1 and int(b.d.cfg_phy_link_down.value) == 0, "link not up after reset")
                ctx.label("reset")
        await h.idle()
        if c["ration"]:
            # let everything out
            while h.np:
                await h.grant({"n": min(32, len(h.np)), "gaps": [0]})
                await h.idle()
        check(not h.open, "requests unanswered: %r", list(h.open))
        await Timer(2, "us")
        h.raise_error()
        check(not b.part.leaked(), "flow control credits lost: %r", b.part.leaked())

    try:
        simcore.run(main, max_time_ns=60_000_000, max_events=4_000_000)
    finally:
        h = res.get("h")
        if h and h.err:
            check(False, "%s", h.err[0])
    ctx.label(("us+" if c["plus"] else "us") + " %d" % h.b.dw)
    ctx.label("rationed" if c["ration"] else "always ready")
    ctx.nontrivial(h.delivered > 0 and h.nposted > 0)


PARTS = [Part("traffic", cases(), run, 360, 9000, "random BAR layouts, requests, credits, stalls and answers; non-trivial with posted and non-posted requests delivered")]
