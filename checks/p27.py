"""P27: Intel hard IP: packets cross between the link and the user interfaces once, in order, with the right function and BAR."""
import hypothesis.strategies as st
import simcore
import cocotb
import avst
import idev
import tlpgen
import xdev
import linkbench as lb
from tlpgen import mix
from cocotb.triggers import Timer
from cocotbext.pcie.intel.s10.interface import S10PcieFrame
from cocotbext.pcie.intel.ptile.interface import PTilePcieFrame
from runner import Part, check

PROPERTY = "P27"
ASSUMPTIONS = ["no messages, atomic or locked requests (not implemented by the library)", "the enables of the command register are not modelled",
               "a stalled user interface may hold up to 8 packets outside of the completion buffer", "packets with tx_st_err are not generated (nullifying is not implemented)"]
PIPE = 8

bar = mix(st.just(["m", 12]), st.none(), st.tuples(st.just("m"), st.integers(4, 22)), st.tuples(st.just("M"), st.integers(4, 40)), st.tuples(st.just("i"), st.integers(4, 8)))
common = {"tc": st.integers(0, 7), "attr": st.integers(0, 7), "salt": st.integers(0, 255), "tag": st.integers(0, 255), "ep": st.sampled_from([0, 0, 0, 1])}
req = st.fixed_dictionaries({"op": st.just("req"), "fn": st.integers(0, 3), "bar": st.integers(0, 5), "miss": st.sampled_from([1] * 9 + [0]), "w": st.booleans(), "n": tlpgen.pick_len(1, 64),
                             "off": mix(st.integers(0, 1 << 38), st.integers(0, 70), st.sampled_from([0, 31, (1 << 38) - 1])), "fbe": st.integers(0, 15), "lbe": st.integers(1, 15),
                             "at": st.integers(0, 2), "rid": st.integers(0, 0x7fff), **common})
cpl = st.fixed_dictionaries({"op": st.just("cpl"), "fn": st.integers(0, 3), "lost": st.sampled_from([0] * 6 + [1, 2]), "n": mix(st.just(0), tlpgen.pick_len(1, 64)), "bc": st.integers(0, 4095), "la": st.integers(0, 127),
                             "cid": st.integers(0, 65535), "status": st.sampled_from([1, 2, 4]), **common})
tx = st.fixed_dictionaries({"op": st.just("tx"), "kind": st.sampled_from(["MEM_READ", "MEM_READ_64", "MEM_WRITE", "MEM_WRITE_64", "MEM_WRITE", "CPL", "CPL_DATA", "CPL_DATA", "IO_READ", "IO_WRITE"]),
                            "n": tlpgen.pick_len(1, 128), "a": st.integers(0, 2 ** 64 - 1), "fbe": st.integers(0, 15), "lbe": st.integers(1, 15), "fn": st.integers(0, 3), "rid": st.integers(0x8000, 0xffff),
                            "bc": st.integers(0, 4095), "la": st.integers(0, 127), "status": st.sampled_from([0, 1, 2, 4]), "at": st.integers(0, 2), **common})
flood = st.fixed_dictionaries({"op": st.just("flood"), "data": st.booleans(), "limit": st.integers(10, 40), "n": st.integers(1, 40), "writes": st.integers(0, 40), "first": st.integers(1, 60), "take": st.integers(0, 60), "then": st.integers(1, 40)})
op = mix(req, req, req, req, cpl, cpl, cpl, tx, tx, tx, tx, tx,
         st.fixed_dictionaries({"op": st.just("gap"), "n": st.integers(1, 60)}),
         st.fixed_dictionaries({"op": st.just("stall"), "n": st.integers(20, 600), "tx": st.booleans()}),
         st.fixed_dictionaries({"op": st.just("cfg"), "fn": st.integers(0, 7), "v": st.integers(0, 255), "type1": st.booleans()}),
         st.fixed_dictionaries({"op": st.just("bus"), "v": st.integers(0, 255)}),
         st.fixed_dictionaries({"op": st.just("idle")}))


@st.composite
def cases(draw):
    c = draw(idev.config())
    c.update(bars=draw(st.lists(st.lists(bar, min_size=6, max_size=6), min_size=1, max_size=4)), ops=draw(tlpgen.many(op, 3, 40)), sp=draw(xdev.pat), kp=draw(xdev.pat),
             grant=draw(mix(st.none(), st.none(), st.tuples(st.integers(1, 8), st.integers(32, 80), st.integers(1, 8), st.integers(1, 8), st.integers(1, 8), st.integers(32, 80)).map(list))),
             lat=draw(st.lists(st.integers(0, 2000), min_size=1, max_size=5)))
    return c


@st.composite
def fcases(draw):
    c = draw(cases())
    c["ops"] = [draw(flood)] + c["ops"][:6] + [draw(flood)]
    return c


class Pkt:
    pass


def words(c, data):
    w = bytes(tlpgen.wire(c))
    return [int.from_bytes(w[k:k + 4], "big") for k in range(0, len(w), 4)], [int.from_bytes(data[k:k + 4], "little") for k in range(0, len(data), 4)]


def bytes_left(n, r):
    """A byte count that covers the payload."""
    return min(4095, 4 * n - (r["la"] & 3) + (r["bc"] if r["bc"] & 1 else 0))


class Harness:
    def __init__(self, c):
        self.c = c
        self.b = b = idev.Bench(c, grant=c["grant"])
        b.part.on_tlp = self.on_tlp
        self.err = []
        self.rxq = {"P": [], "NP": [], "CPL": []}
        self.txq = {"P": [], "NP": [], "CPL": []}
        self.ur = {}
        self.n = self.ndown = self.nup = 0
        self.freed = {k: [0, 0] for k in self.rxq}
        self.inflight = []
        self.flooding = False
        self.taken = []
        self.sense = None

    def fail(self, msg, *a):
        self.err.append(msg % a)

    # ---- link
    def on_tlp(self, t):
        o = tlpgen.observe(t)
        cls = lb.fc_kind(o["kind"])
        if self.c["grant"]:
            self.inflight.append((cls, (len(t.data) + 15) // 16))
        if self.b.take_cfg(t):
            return
        key = (o["requester_id"], o["tag"])
        if cls == "CPL" and key in self.ur:
            q = self.ur.pop(key)
            for k, v in {"kind": "CPL", "status": 1, "tc": q.c["tc"], "attr": q.c["attr"]}.items():
                if o[k] != v:
                    self.fail("%r answered with %s %r: %r", q.c, k, o[k], o)
            return
        lst = self.txq[cls]
        if not lst:
            return self.fail("a packet nobody sent on the link: %r", o)
        q = lst.pop(0)
        if o != q.fields or bytes(t.data) != q.data:
            return self.fail("the user sent %r, on the link is %r %s", q.fields, o, bytes(t.data)[:64].hex() if bytes(t.data) != q.data else "")
        if any(p.order < q.order for p in self.txq["P"]):
            self.fail("%r passed a posted packet on the way to the link", q.fields)
        self.nup += 1

    async def credits(self):
        """Return link credits after random delays."""
        k = 0
        names = {"P": 0, "NP": 2, "CPL": 4}
        while True:
            if not self.inflight:
                await Timer(50, "ns")
                continue
            await Timer(self.c["lat"][k % len(self.c["lat"])] + 1, "ns")
            k += 1
            cls, n = self.inflight.pop(0)
            f = self.freed[cls]
            f[0] += 1
            f[1] += n
            g = self.c["grant"][names[cls]:names[cls] + 2]
            await self.b.part.port.ext_recv(lb.dllp("UPDATE_FC_" + cls, hdr=g[0] + f[0] & 255, data=g[1] + f[1] & 4095))

    # ---- user
    async def collect(self):
        while True:
            f = await self.b.rx.recv()
            try:
                self.got(f)
            except (IndexError, AttributeError, TypeError) as e:
                self.fail("broken frame %r: %r", f, e)

    def got(self, f):
        if self.b.s10:
            n = avst.header_dws(f.data[0])
            hdr, data = f.data[:n], f.data[n:]
        else:
            hdr, data = [f.hdr >> 96 - 32 * k & 0xffffffff for k in range(4)], f.data
            hdr = hdr[:avst.header_dws(hdr[0])]
        ft = hdr[0] >> 24
        cls = "CPL" if ft & 31 == 10 else "P" if ft & 0x5f == 0x40 else "NP"
        lst = self.rxq[cls]
        if self.flooding and cls == "CPL":
            # dropped packets are judged by the flood operation
            while lst and (hdr, data) != (lst[0].hdr, lst[0].dws):
                lst.pop(0)
        if not lst:
            return self.fail("a packet nobody sent reaches the user: %s", [hex(v) for v in hdr])
        q = lst.pop(0)
        if (hdr, data) != (q.hdr, q.dws):
            return self.fail("%r reaches the user as %s / %d dwords", q.c, [hex(v) for v in hdr], len(data))
        if any(p.order < q.order for p in self.rxq["P"]):
            self.fail("%r passed a posted packet on the way to the user", q.c)
        if f.func_num != q.fn:
            self.fail("%r: func_num is %d, should be %d", q.c, f.func_num, q.fn)
        if q.bar is not None and f.bar_range != q.bar:
            self.fail("%r: bar_range is %d, should be %d", q.c, f.bar_range, q.bar)
        if f.vf_num is not None or f.err or getattr(f, "tlp_abort", 0):
            self.fail("%r: vf %r, err %r", q.c, f.vf_num, f.err)
        if self.c["par"]:
            d = [(avst.byte_parity(v, 4), p) for v, p in zip(f.data, f.parity)]
            if len(f.parity) != len(f.data) or not (all(a == p for a, p in d) or all(a ^ 15 == p for a, p in d)):
                self.fail("parity of %r", q.c)
            if not self.b.s10 and f.hdr_par not in (avst.byte_parity(f.hdr, 16), avst.byte_parity(f.hdr, 16) ^ 0xffff):
                self.fail("header parity of %r", q.c)
        self.ndown += 1
        if self.flooding:
            self.taken.append(q)

    def layout(self):
        self.bars = {}
        for fn in range(len(self.b.fns)):
            spec_ = self.c["bars"][fn % len(self.c["bars"])]
            i, out = 0, []
            while i < 6:
                s = spec_[i]
                if s and not (s[0] == "M" and i == 5):
                    kind, size = s
                    slot = fn * 6 + i + 1
                    base = {"m": slot << 24, "M": slot << 42, "i": slot << 12}[kind]
                    out.append((fn, i, kind, size, base))
                    self.b.fns[fn].configure_bar(i, 1 << size, ext=kind == "M", prefetch=kind == "M", io=kind == "i")
                    i += kind == "M"
                i += 1
            self.bars[fn] = out

    async def down(self, c, fn, bar, to_user):
        q = Pkt()
        q.c, q.fn, q.bar = c, fn, bar
        q.data = tlpgen.pattern(4 * c["length"], c["salt"]) if tlpgen.has_data(c["kind"]) else b""
        q.hdr, q.dws = words(c, q.data)
        self.n += 1
        q.order = self.n
        cls = lb.fc_kind(c["kind"])
        if to_user:
            self.rxq[cls].append(q)
        elif cls == "NP":
            self.ur[(c["requester_id"], c["tag"])] = q
        await self.b.part.send(tlpgen.build(c))
        return q

    async def request(self, r):
        fn = r["fn"] % len(self.b.fns)
        bars = self.bars[fn]
        i = None
        if bars and r["miss"]:
            _, i, kind, size, base = bars[r["bar"] % len(bars)]
        elif bars and r["bar"] & 1:
            _, _, kind, size, base = bars[r["bar"] % len(bars)]
            base += 1 << size
            size = 4
        else:
            kind, size = "mMi"[r["bar"] % 3], 4
            base = {"m": 0xf0000000, "M": 0xf << 60, "i": 0xf0000000}[kind]
        n = 1 if kind == "i" else min(r["n"], 1 << size - 2)
        a = base + 4 * (r["off"] % ((1 << size) // 4 - n + 1))
        if a % 4096 + 4 * n > 4096:
            a -= a % 4096 + 4 * n - 4096
        tag = r["tag"]
        while (r["rid"], tag) in self.ur or (r["rid"], tag) in self.b.cfg_cpl:
            tag = tag + 1 & 255
        fbe, lbe = (r["fbe"], 0) if n == 1 else (r["fbe"] or 15, r["lbe"])
        if kind == "i":
            fbe = fbe or 1
        name = ("IO_" if kind == "i" else "MEM_") + ("WRITE" if r["w"] else "READ") + ("_64" if kind == "M" else "")
        await self.down({"kind": name, "tc": r["tc"], "attr": r["attr"], "at": r["at"] if kind != "i" else 0, "ep": bool(r["ep"] and r["w"]), "ln": False, "th": False, "td": False, "ph": 0, "length": n, "first_be": fbe, "last_be": lbe,
                         "address": a, "requester_id": r["rid"], "tag": tag, "salt": r["salt"]}, fn, None if i is None else 6 if kind == "i" else i, i is not None)

    async def completion(self, r, to_user=True):
        fn = r["fn"] % len(self.b.fns)
        rid = self.b.bus << 8 | fn
        if r["lost"] == 1:
            rid ^= 0x100
        elif r["lost"] == 2:
            rid |= 8 if r["fn"] & 1 else 7
        n = r["n"]
        return await self.down({"kind": "CPL_DATA" if n else "CPL", "tc": r["tc"], "attr": r["attr"], "at": 0, "ep": bool(r["ep"] and n), "ln": False, "th": False, "td": False, "length": n, "byte_count": bytes_left(n, r) if n else r["bc"] or 4, "lower_address": r["la"],
                                "bcm": False, "status": 0 if n else r["status"], "requester_id": rid, "completer_id": r["cid"], "tag": r["tag"], "salt": r["salt"]}, fn, None, not r["lost"])

    async def up(self, r):
        k = r["kind"]
        n = r["n"] if k.startswith("MEM") or k == "CPL_DATA" else 1
        if self.c["grant"]:
            n = min(n, 128)
        me = self.b.bus << 8 | r["fn"] % len(self.b.fns)
        c = {"kind": k, "tc": r["tc"], "attr": r["attr"], "at": 0, "ep": bool(r["ep"] and tlpgen.has_data(k)), "ln": False, "th": False, "td": False, "length": n if k != "CPL" else 0, "tag": r["tag"], "salt": r["salt"]}
        if k.startswith("CPL"):
            c.update(byte_count=bytes_left(n, r) if k != "CPL" else r["bc"] or 4, lower_address=r["la"], bcm=False, status=r["status"] if k == "CPL" else 0, requester_id=r["rid"], completer_id=me)
        else:
            a = r["a"] & ~3
            if not k.endswith("64"):
                a &= 0xffffffff
            elif a < 1 << 32:
                a |= 1 << 40
            a -= max(0, a % 4096 + 4 * n - 4096)
            c.update(address=a, ph=0, first_be=(r["fbe"] or 1) if n > 1 or k.startswith("IO") else r["fbe"], last_be=r["lbe"] if n > 1 else 0, requester_id=me, at=r["at"] if k.startswith("MEM") else 0)
        q = Pkt()
        self.n += 1
        q.order, q.fields = self.n, tlpgen.fields(c)
        q.data = tlpgen.pattern(4 * n, r["salt"]) if tlpgen.has_data(k) else b""
        hdr, dws = words(c, q.data)
        f = (S10PcieFrame if self.b.s10 else PTilePcieFrame)()
        if self.b.s10:
            f.data = hdr + dws
        else:
            f.data = dws
            f.hdr = int.from_bytes(b"".join(v.to_bytes(4, "big") for v in hdr).ljust(16, b"\0"), "big")
        f.update_parity()
        self.txq[lb.fc_kind(k)].append(q)
        await self.b.tx.send(f)

    def raise_error(self):
        check(not self.err, "%s", self.err and self.err[0])

    def settled(self):
        return not any(self.rxq.values()) and not any(self.txq.values()) and not self.ur and not self.inflight

    async def idle(self):
        for _ in range(4000):
            self.raise_error()
            if self.settled():
                break
            await Timer(100, "ns")
        else:
            check(False, "stuck: %r not delivered to the user, %r not on the link, %d unanswered", {k: len(v) for k, v in self.rxq.items()}, {k: len(v) for k, v in self.txq.items()}, len(self.ur))
        await self.b.clocks(50)
        self.raise_error()

    async def hold_off(self, o):
        x = self.b.tx if o["tx"] else self.b.rx
        x.clear_pause_generator()
        x.pause = True
        await self.b.clocks(o["n"])
        x.pause = False
        x.set_pause_generator(xdev.cycle(self.c["sp" if o["tx"] else "kp"]))

    async def quiet(self):
        await self.b.clocks(80)
        await Timer(300, "ns")
        await self.b.clocks(80)

    async def flood(self, o):
        """Fill the completion buffer: what fits arrives, what does not is dropped, and nothing else counts."""
        b, dev, L = self.b, self.b.dev, o["limit"]
        await self.idle()
        saved = dev.rx_buf_cplh_fc_limit, dev.rx_buf_cpld_fc_limit
        n = o["n"]
        if o["data"]:
            dev.rx_buf_cpld_fc_limit = L * ((n + 3) // 4)
        else:
            dev.rx_buf_cplh_fc_limit = L
        b.rx.clear_pause_generator()
        b.rx.pause = True
        await self.quiet()
        self.flooding, self.taken = True, []
        sent = 0

        async def batch(k):
            nonlocal sent
            out = []
            for _ in range(k):
                sent += 1
                out.append(await self.completion({"fn": sent, "lost": 0, "n": n, "tc": 0, "attr": 0, "ep": 0, "bc": 4 * n, "la": 0, "status": 0, "cid": sent, "tag": sent & 255, "salt": sent & 255}))
            await self.quiet()
            return out
        fn = next((k for k, v in self.bars.items() if any(x[2] != "i" for x in v)), None)
        if fn is not None:
            _, i, kind, size, base = next(x for x in self.bars[fn] if x[2] != "i")
            for k in range(o["writes"]):
                w = {"kind": "MEM_WRITE" if kind == "m" else "MEM_WRITE_64", "tc": 0, "attr": 0, "at": 0, "ep": False, "ln": False, "th": False, "td": False, "ph": 0, "length": 1, "first_be": 15, "last_be": 0, "address": base,
                     "requester_id": k, "tag": k, "salt": k}
                await self.down(w, fn, i, True)
        one = await batch(o["first"])
        if o["take"]:
            b.rx.pause = False
            for _ in range(3000):
                if len(self.taken) >= min(o["take"], o["first"] + o["writes"] * (fn is not None) - 1):
                    break
                await b.clocks(1)
                if all(not q for q in self.rxq.values()):
                    break
            b.rx.pause = True
            await self.quiet()
        # completions the user has by now
        mid = sum(q in one for q in self.taken)
        two = await batch(o["then"])
        b.rx.pause = False
        last = -1
        while len(self.taken) != last:
            last = len(self.taken)
            await Timer(2, "us")
        self.raise_error()
        self.flooding = False
        for q in list(self.rxq["CPL"]):
            self.rxq["CPL"].remove(q)
        ids = {id(q) for q in self.taken}
        a, z = [id(q) in ids for q in one], [id(q) in ids for q in two]
        check(all(x >= y for x, y in zip(a, a[1:])) and all(x >= y for x, y in zip(z, z[1:])), "equal completions, but a later one was accepted after an earlier one was dropped")
        na, nz = sum(a), sum(z)
        check(min(L, len(one)) <= na <= L + PIPE, "room for %d completions, the user has taken none: %d of %d were accepted", L, na, len(one))
        room = L - (na - mid)
        check(min(room, len(two)) <= nz <= max(0, room + PIPE), "room for %d completions, %d in the buffer: %d of %d more were accepted", L, na - mid, nz, len(two))
        dev.rx_buf_cplh_fc_limit, dev.rx_buf_cpld_fc_limit = saved
        b.rx.set_pause_generator(xdev.cycle(self.c["kp"]))
        await self.idle()
        return na < len(one) or nz < len(two)

    async def start(self):
        b = self.b
        self.layout()
        if self.c["grant"]:
            cocotb.start_soon(self.credits())
        await b.start()
        for fn, bars in self.bars.items():
            for _, i, kind, size, base in bars:
                await b.cfg_write(fn, 4 + i, base & 0xffffffff)
                if kind == "M":
                    await b.cfg_write(fn, 5 + i, base >> 32)
                t = await b.cfg("CFG_READ_0", fn, 4 + i)
                want = base & 0xffffffff | {"m": 0, "M": 12, "i": 1}[kind]
                check(t.data == want.to_bytes(4, "little"), "BAR %d of function %d reads %s after writing %#x", i, fn, bytes(t.data).hex(), base)
        b.tx.set_pause_generator(xdev.cycle(self.c["sp"]))
        b.rx.set_pause_generator(xdev.cycle(self.c["kp"]))
        cocotb.start_soon(self.collect())

    async def cfg_op(self, o):
        b = self.b
        if o["type1"]:
            t = await b.cfg("CFG_WRITE_1", o["fn"] & 3, 15, o["v"], 1)
            check(int(t.status) == 1, "a type 1 configuration request to an endpoint is answered with status %d", t.status)
            return
        t = await b.cfg_write(o["fn"], 15, o["v"], 1)
        if o["fn"] >= len(b.fns):
            check(int(t.status) == 1 and int(t.completer_id) >> 8 == b.bus, "configuration of absent function %d: status %d from %04x", o["fn"], t.status, int(t.completer_id))
            return
        check(int(t.status) == 0 and int(t.completer_id) == b.bus << 8 | o["fn"], "configuration write to function %d: status %d from %04x", o["fn"], t.status, int(t.completer_id))
        t = await b.cfg("CFG_READ_0", o["fn"], 15)
        check(int(t.status) == 0 and t.data[0] == o["v"] and int(t.completer_id) == b.bus << 8 | o["fn"], "configuration read of function %d: %r", o["fn"], t)


def run(c, ctx):
    res = {"drops": 0}

    async def main():
        h = res["h"] = Harness(c)
        await h.start()
        b = h.b
        for o in c["ops"]:
            h.raise_error()
            k = o["op"]
            if k == "req":
                await h.request(o)
            elif k == "cpl":
                await h.completion(o)
            elif k == "tx":
                await h.up(o)
            elif k == "gap":
                await b.clocks(o["n"])
            elif k == "stall":
                cocotb.start_soon(h.hold_off(o))
            elif k == "cfg":
                await h.cfg_op(o)
            elif k == "bus":
                await h.idle()
                b.bus = o["v"]
                for fn in range(len(b.fns)):
                    await b.cfg_write(fn, 15, 0, 0)
            elif k == "flood":
                await h.idle()
                await b.clocks(700)
                res["drops"] += await h.flood(o)
            elif k == "idle":
                await h.idle()
        await h.idle()
        await Timer(2, "us")
        h.raise_error()
        check(h.settled(), "late traffic")
        check(not b.part.leaked(), "flow control credits lost: %r", b.part.leaked())

    try:
        simcore.run(main, max_time_ns=60_000_000, max_events=4_000_000)
    finally:
        h = res.get("h")
        if h and h.err:
            check(False, "%s", h.err[0])
    ctx.label("%s %d" % (c["fam"], h.b.dw))
    ctx.label("link credits" if c["grant"] else "no credit limit")
    if any(o["op"] == "flood" for o in c["ops"]):
        ctx.label("completions dropped" if res["drops"] else "all completions fit")
        ctx.nontrivial(res["drops"] > 0)
    else:
        ctx.nontrivial(h.ndown > 0 and h.nup > 0)


PARTS = [Part("traffic", cases(), run, 400, 9000, "random BAR layouts, requests, completions, user packets, stalls, link credits; non-trivial with packets delivered in both directions"),
         Part("flood", fcases(), run, 200, 5000, "completion bursts around the size of the completion buffer with requests among them; non-trivial when completions had to be dropped")]
