"""P28: Intel hard IP: configuration outputs, credit outputs and interrupt requests."""
import hypothesis.strategies as st
import simcore
import cocotb
import avst
import idev
import linkbench as lb
import tlpgen
from tlpgen import mix
from cocotb.triggers import Timer, RisingEdge, FallingEdge
from cocotbext.pcie.intel.s10.interface import S10PcieFrame
from cocotbext.pcie.intel.ptile.interface import PTilePcieFrame
from runner import Part, check

PROPERTY = "P28"
ASSUMPTIONS = ["fields of features the library does not implement (SR-IOV, ATS, TPH, ACS, LTR, PASID, page requests) are zero", "interrupts are requested only while MSI is enabled and for granted vectors",
               "P-tile has no MSI request port", "P-tile header credit limits are compared modulo 256 (the library counts in 8 bits)"]

# capability places of the Stratix 10 and P-tile models (dword numbers) are found by walking the lists
RW = ["command", "pcie2", "pcie4", "pcie6", "pcie7", "pcie10", "msi0", "msi1", "msi2", "msi3", "msix0", "aer2", "aer3", "aer5", "pm1"]
op = mix(*[st.fixed_dictionaries({"op": st.just("write"), "fn": st.integers(0, 3), "reg": st.sampled_from(RW), "v": mix(st.integers(0, 2 ** 32 - 1), st.sampled_from([0, 2 ** 32 - 1]), st.integers(0, 31).map(lambda k: 1 << k)), "be": st.sampled_from([15, 15, 15, 1, 2, 4, 8, 3, 12])})] * 5,
         st.fixed_dictionaries({"op": st.just("status")}),
         st.fixed_dictionaries({"op": st.just("status")}),
         *[st.fixed_dictionaries({"op": st.just("msi"), "fn": st.integers(0, 3), "num": st.integers(0, 31), "tc": st.integers(0, 7), "set": st.booleans(), "mm": st.integers(0, 5), "addr": mix(st.integers(0, (1 << 62) - 1), st.integers(0, (1 << 30) - 1)),
                                  "data": st.integers(0, 0xffff), "hold": st.sampled_from([0, 0, 1, 2, 9]), "busy": st.integers(0, 3)})] * 3,
         *[st.fixed_dictionaries({"op": st.just("tx"), "kind": st.sampled_from(["MEM_READ", "MEM_WRITE_64", "CPL_DATA", "IO_WRITE"]), "k": st.integers(1, 12), "n": st.integers(2, 64), "fn": st.integers(0, 3), "wait": st.booleans()})] * 2,
         st.fixed_dictionaries({"op": st.just("bus"), "v": st.integers(0, 255)}),
         st.fixed_dictionaries({"op": st.just("gap"), "n": st.integers(1, 60)}))


@st.composite
def cases(draw):
    c = draw(idev.config(fam=("s10", "s10", "ptile")))
    c.update(ops=draw(tlpgen.many(op, 3, 30)), msi=draw(st.lists(st.sampled_from([0, 1, 2, 3, 4, 5, 8, 16, 17, 31, 32]), min_size=4, max_size=4)), msix=draw(st.lists(mix(st.just(-1), st.integers(0, 0x7ff)), min_size=4, max_size=4)),
             ro=draw(st.lists(st.integers(0, 2 ** 32 - 1), min_size=4, max_size=4)),
             grant=draw(mix(st.none(), st.tuples(st.integers(2, 127), st.integers(32, 2000), st.integers(2, 127), st.integers(2, 127), st.integers(2, 127), st.integers(32, 2000)).map(list))))
    return c


class Harness:
    def __init__(self, c):
        self.c = c
        s10 = c["fam"] == "s10"
        w = 32 if s10 else 16
        sig = {"tl_cfg_func": 2 if s10 else 3, "tl_cfg_add": 5, "tl_cfg_ctl": w}
        if s10:
            sig.update(tx_ph_cdts=8, tx_pd_cdts=12, tx_nph_cdts=8, tx_cplh_cdts=8, app_msi_req=1, app_msi_ack=1, app_msi_tc=3, app_msi_num=5, app_msi_func_num=2)
            if c["ltile"]:
                sig.update(tx_npd_cdts=12, tx_cpld_cdts=12)
        else:
            sig.update(tx_cdts_limit=16, tx_cdts_limit_tdm_idx=3)
        kw = {}
        for k in range(4):
            kw["pf%d_msi_enable" % k] = bool(c["msi"][k])
            if c["msi"][k]:
                kw["pf%d_msi_count" % k] = c["msi"][k]
            kw["pf%d_msix_enable" % k] = c["msix"][k] >= 0
            if c["msix"][k] >= 0:
                kw.update({"pf%d_msix_table_size" % k: c["msix"][k], "pf%d_msix_table_bir" % k: k, "pf%d_msix_table_offset" % k: 0x1000 * k + 8, "pf%d_msix_pba_bir" % k: 5 - k, "pf%d_msix_pba_offset" % k: 0x800 * k + 16})
        self.b = b = idev.Bench(c, extra=sig, grant=c["grant"], **kw)
        for n in ("app_msi_req", "app_msi_tc", "app_msi_num", "app_msi_func_num"):
            if n in sig:
                getattr(b.d, n).setimmediatevalue(0)
        for k, f in enumerate(b.fns):
            x = c["ro"][k]
            f.pcie_cap.interrupt_message_number = x & 31
            f.pcie_cap.current_link_speed = x >> 5 & 15
            f.pcie_cap.negotiated_link_width = x >> 9 & 63
            f.aer_ext_cap.advanced_error_interrupt_message_number = x >> 15 & 31
            f.pm_cap.no_soft_reset = bool(x >> 20 & 1)
        b.part.on_tlp = self.on_tlp
        self.err = []
        self.seen = {}
        self.limits = {}
        self.acks = 0
        self.used = [0] * 6
        self.freed = [0] * 6
        self.user = []
        self.msis = []

    def fail(self, msg, *a):
        self.err.append(msg % a)

    def on_tlp(self, t):
        o = tlpgen.observe(t)
        i = {"P": 0, "NP": 2, "CPL": 4}[lb.fc_kind(o["kind"])]
        self.used[i] += 1
        self.used[i + 1] += (len(t.data) + 15) // 16
        if self.b.take_cfg(t):
            return
        for lst in (self.msis, self.user):
            for k, (kind, want, data) in enumerate(lst):
                if o["kind"] == kind and all(o[x] == v for x, v in want.items()) and bytes(t.data) == data:
                    lst.pop(k)
                    return
        self.fail("unexpected packet from the device: %r %s; interrupts due: %r", o, bytes(t.data)[:16].hex(), self.msis)

    async def monitor(self):
        d, edge = self.b.d, RisingEdge(self.b.clk)
        last = 0
        while True:
            await edge
            self.seen[(int(d.tl_cfg_func.value), int(d.tl_cfg_add.value))] = int(d.tl_cfg_ctl.value)
            if self.b.s10:
                a = int(d.app_msi_ack.value)
                self.acks += a
                if a and last:
                    self.fail("app_msi_ack for more than one clock")
                last = a
            else:
                self.limits[int(d.tx_cdts_limit_tdm_idx.value)] = int(d.tx_cdts_limit.value)

    async def credits(self):
        """Return link credits now and then, in lumps."""
        g = self.c["grant"]
        while True:
            await Timer(1500, "ns")
            for i, cls in ((0, "P"), (2, "NP"), (4, "CPL")):
                if self.used[i] - self.freed[i] > min(g[i] // 2, 5) or self.used[i + 1] - self.freed[i + 1] > g[i + 1] // 2 and g[i + 1]:
                    self.freed[i:i + 2] = self.used[i:i + 2]
                    await self.b.part.port.ext_recv(lb.dllp("UPDATE_FC_" + cls, hdr=g[i] + self.freed[i] & 255, data=g[i + 1] + self.freed[i + 1] & 4095))

    async def rd(self, f, reg):
        t = await self.b.cfg("CFG_READ_0", f, reg)
        check(int(t.status) == 0, "configuration read of function %d: status %d", f, t.status)
        return int.from_bytes(t.data, "little")

    async def start(self):
        b, c = self.b, self.c
        cocotb.start_soon(self.monitor())
        if c["grant"]:
            cocotb.start_soon(self.credits())
        await b.start()
        self.place = []
        for f in range(len(b.fns)):
            m, p = {}, (await self.rd(f, 13) & 0xff)
            while p:
                v = await self.rd(f, p >> 2)
                m[v & 0xff], p = p >> 2, v >> 8 & 0xff
            check((5 in m) == bool(c["msi"][f]), "MSI capability of function %d with %d vectors", f, c["msi"][f])
            check((17 in m) == (c["msix"][f] >= 0), "MSI-X capability of function %d", f)
            if 5 in m:
                v = await self.rd(f, m[5]) >> 17 & 7
                check(v == (c["msi"][f] - 1).bit_length(), "function %d was configured for %d MSI vectors and offers 2**%d", f, c["msi"][f], v)
            if 17 in m:
                v = [await self.rd(f, m[17] + k) for k in range(3)]
                check(v[0] >> 16 & 0x7ff == c["msix"][f] and v[1] == 0x1000 * f + 8 + f and v[2] == 0x800 * f + 16 + 5 - f, "MSI-X capability of function %d is %r, configured with size %d", f, [hex(x) for x in v], c["msix"][f])
            e, p = {}, 0x40
            while p:
                v = await self.rd(f, p)
                e[v & 0xffff], p = p, v >> 22
            v = await self.rd(f, m[16] + 1)
            check(v & 7 == 2, "maximum payload size supported is %d, configured 512 bytes", v & 7)
            check(bool(v >> 5 & 1) == c["etag"], "extended tag support of function %d", f)
            self.place.append({"msi": m.get(5), "msix": m.get(17), "pcie": m[16], "pm": m[1], "aer": e[1]})

    def reg(self, f, name):
        if name == "command":
            return 1
        k = name.rstrip("0123456789")
        p = self.place[f][k]
        return None if p is None else p + int(name[len(k):])

    async def write(self, f, name, v, be=15):
        r = self.reg(f, name)
        if r is None:
            return
        if name == "pm1":
            v &= ~3          # stay in D0
        t = await self.b.cfg_write(f, r, v, be)
        check(int(t.status) == 0, "configuration write to function %d: status %d", f, t.status)

    async def expected(self, f):
        r = {}
        for n in ("command", "pcie0", "pcie2", "pcie4", "pcie6", "pcie7", "pcie10", "msi0", "msi1", "msi2", "msi3", "msix0", "aer2", "aer3", "aer5", "pm1"):
            k = self.reg(f, n)
            r[n] = 0 if k is None else await self.rd(f, k)

        def bit(name, k, n=1):
            return r[name] >> k & (1 << n) - 1
        b, msi = self.b, self.place[f]["msi"] is not None
        # common half words
        ctl = (bit("command", 1) << 15 | bit("pcie10", 9) << 14 | bit("command", 2) << 7 | bit("pcie2", 8) << 6 | bit("pcie2", 12, 3) << 3 | bit("pcie2", 5, 3))
        rpt = bit("command", 6) << 13 | bit("command", 8) << 12 | bit("pcie2", 2) << 11 | bit("pcie2", 1) << 10 | bit("pcie2", 0) << 9 | bit("pcie2", 3) << 8
        ids = bit("pcie10", 8) << 15 | bit("pcie2", 11) << 14 | bit("pcie2", 4) << 13 | b.bus
        slot = bit("command", 10) << 13 | bit("pcie0", 25, 5) << 8 | bit("pcie6", 10) << 4 | bit("pcie6", 6, 2) << 2 | bit("pcie6", 8, 2)
        irq = bit("msix0", 30) << 6 | bit("msix0", 31) << 5 | bit("msi0", 20, 3) << 2 | bit("msi0", 23) << 1 | bit("msi0", 16)
        sys = bit("pcie7", 2) << 15 | bit("pcie7", 1) << 14 | bit("pcie7", 0) << 13
        # the AER message number is in a register only root ports have: use the configured value
        soft, rcb, aer, speed, width = bit("pm1", 3), bit("pcie4", 3), self.c["ro"][f] >> 15 & 31, bit("pcie4", 16, 4), bit("pcie4", 20, 6)
        ari, atom = bit("pcie10", 5), bit("pcie10", 6)
        if not b.s10:
            e = {0: ctl | rpt, 1: ids, 2: soft << 15 | rcb << 14 | slot, 3: 0, 4: bit("pcie10", 7) << 14 | ari << 7 | atom << 6, 5: speed << 12, 6: r["msi1"] & 0xffff, 7: r["msi1"] >> 16, 8: r["msi2"] & 0xffff, 9: r["msi2"] >> 16,
                 12: sys | aer << 8 | irq, 13: r["msi3"] & 0xffff, 14: r["aer2"] & 0xffff, 15: r["aer2"] >> 16, 16: r["aer5"] & 0xffff, 17: r["aer5"] >> 16, 18: r["aer3"] & 0xffff, 19: r["aer3"] >> 16, 28: width}
            n, drop, mask = 32, [6, 7, 8, 9, 10, 11, 13, 29], {12: 0xffe0}
            e.update({k: 0 for k in range(32) if k not in e and k not in (10, 11, 29)})
        elif self.c["ltile"]:
            e = {0: ids << 16 | ctl | width << 8, 1: sys << 16 | aer << 24 | width << 18 | soft << 17 | rcb << 16 | slot, 2: speed << 12 | ari << 5 | atom << 4, 3: r["msi1"], 4: r["msi2"], 6: (r["msi3"] & 0xffff) << 16 | irq,
                 7: speed << 6 | width}
            n, drop, mask = 8, [3, 4, 5], {6: 0xffe0}
        else:
            e = {0: ids << 16 | ctl | rpt, 1: soft << 15 | rcb << 14 | slot, 2: speed << 28 | ari << 7 | atom << 6, 3: r["msi1"], 4: r["msi2"], 6: (r["msi3"] & 0xffff) << 16 | sys | aer << 8 | irq, 7: r["aer2"], 8: r["aer5"], 9: r["aer3"]}
            n, drop, mask = 10, [3, 4, 5], {6: 0xffe0}
        out = {}
        for k in range(n):
            m = 0xffffffff
            if not msi:
                # without the capability nothing is promised about its fields
                if k in drop:
                    m = 0
                elif k in mask:
                    m = mask[k] & 0xffff
            out[k] = (e.get(k, 0), m if k in e else 0)
        return out

    async def status(self):
        want = {}
        for f in range(len(self.b.fns)):
            for k, v in (await self.expected(f)).items():
                want[(f, k)] = v
        await self.b.clocks(4)
        self.seen.clear()
        await self.b.clocks(len(want) + 8)
        seen = dict(self.seen)
        check(set(seen) == set(want), "tl_cfg shows (function, index) pairs %r, missing %r", sorted(set(seen) - set(want))[:5], sorted(set(want) - set(seen))[:5])
        for k, (v, m) in want.items():
            check(seen[k] & m == v & m, "tl_cfg_ctl of function %d at index %#x is %#x, the registers say %#x (mask %#x)", k[0], k[1], seen[k], v, m)

    async def check_credits(self):
        for _ in range(3000):
            self.raise_error()
            if not self.user and not self.msis:
                break
            await Timer(100, "ns")
        else:
            check(False, "stuck: %d packets of the user and %d interrupts not on the link", len(self.user), len(self.msis))
        g = self.c["grant"] or [0] * 6
        names = ["tx_ph_cdts", "tx_pd_cdts", "tx_nph_cdts", "tx_npd_cdts", "tx_cplh_cdts", "tx_cpld_cdts"]
        # the pump may return credits at any time: compare until they agree
        for _ in range(40):
            await self.b.clocks(8 if self.b.s10 else 16)
            u, fr = list(self.used), list(self.freed)
            self.limits.clear()
            await self.b.clocks(3 if self.b.s10 else 16)
            if (u, fr) == (self.used, self.freed):
                break
        bad = []
        for i, n in enumerate(names):
            mod = (256, 4096)[i & 1]
            if self.b.s10:
                if not hasattr(self.b.d, n) or not self.b.dev.__dict__.get(n):
                    continue
                want = (g[i] + fr[i] - u[i]) % mod if g[i] else mod - 1
                got = int(getattr(self.b.d, n).value)
            else:
                idx = (0, 4, 1, 5, 2, 6)[i]
                check(idx in self.limits, "tx_cdts_limit does not show index %d", idx)
                got, want = self.limits[idx] % mod, (g[i] + fr[i]) % mod if g[i] else 0
            if got != want:
                bad.append("%s is %d, should be %d (granted %d + %d, used %d)" % (n, got, want, g[i], fr[i], u[i]))
        check(not bad, "%s", "; ".join(bad))

    async def tx(self, o):
        b = self.b
        for k in range(o["k"]):
            n = 1 if o["kind"].startswith("IO") else o["n"]
            me = b.bus << 8 | o["fn"] % len(b.fns)
            c = {"kind": o["kind"], "tc": 0, "attr": 0, "at": 0, "ep": False, "ln": False, "th": False, "td": False, "length": n, "tag": k, "salt": n + k}
            if o["kind"] == "CPL_DATA":
                c.update(byte_count=4 * n, lower_address=0, bcm=False, status=0, requester_id=0x4321, completer_id=me)
            else:
                c.update(address=0x1_2345_6000 if o["kind"].endswith("64") else 0x23456000, ph=0, first_be=15, last_be=15 if n > 1 else 0, requester_id=me)
            data = tlpgen.pattern(4 * n, c["salt"]) if tlpgen.has_data(o["kind"]) else b""
            w = bytes(tlpgen.wire(c))
            hdr, dws = [int.from_bytes(w[j:j + 4], "big") for j in range(0, len(w), 4)], [int.from_bytes(data[j:j + 4], "little") for j in range(0, len(data), 4)]
            f = (S10PcieFrame if b.s10 else PTilePcieFrame)()
            if b.s10:
                f.data = hdr + dws
            else:
                f.data, f.hdr = dws, int.from_bytes(w.ljust(16, b"\0"), "big")
            f.update_parity()
            self.user.append((o["kind"], {x: c[x] for x in ("tag", "length", "tc", "attr")}, data))
            await b.tx.send(f)
        if o["wait"]:
            await self.check_credits()

    async def msi(self, o):
        b, d = self.b, self.b.d
        f = o["fn"] % len(b.fns)
        if not b.s10 or self.place[f]["msi"] is None:
            return
        v = await self.rd(f, self.place[f]["msi"])
        cap = v >> 17 & 7
        if o["set"] or not v >> 16 & 1 or v >> 20 & 7 > cap:
            await self.write(f, "msi0", 1 << 16 | min(o["mm"], cap) << 20)
            await self.write(f, "msi1", o["addr"] & 0xffffffff)
            await self.write(f, "msi2", o["addr"] >> 32)
            await self.write(f, "msi3", o["data"])
        await self.write(f, "command", 6, 3)
        m = [await self.rd(f, self.place[f]["msi"] + k) for k in range(4)]
        mm = m[0] >> 20 & 7
        num = o["num"] & (1 << mm) - 1
        addr = m[1] | m[2] << 32
        data = (m[3] & 0xffff & ~((1 << mm) - 1) | num).to_bytes(4, "little")
        for _ in range(o["busy"]):
            await self.tx({"kind": "MEM_WRITE_64", "k": 2, "n": 20, "fn": f, "wait": False})
        self.msis.append(("MEM_WRITE_64" if addr >> 32 else "MEM_WRITE", {"address": addr, "length": 1, "first_be": 15, "last_be": 0, "tc": o["tc"], "requester_id": b.bus << 8 | f, "attr": 0}, data))
        acks = self.acks
        edge = RisingEdge(b.clk)
        await edge
        d.app_msi_func_num.value, d.app_msi_num.value, d.app_msi_tc.value, d.app_msi_req.value = f, num, o["tc"], 1
        for _ in range(3000):
            await edge
            if int(d.app_msi_ack.value):
                break
        else:
            check(False, "app_msi_req was not acknowledged")
        for _ in range(o["hold"]):
            await edge
        d.app_msi_req.value = 0
        d.app_msi_func_num.value, d.app_msi_num.value, d.app_msi_tc.value = f ^ 1, num ^ 31, o["tc"] ^ 7
        await b.clocks(4)
        for _ in range(1000):
            self.raise_error()
            if not self.msis:
                break
            await Timer(100, "ns")
        check(not self.msis, "the interrupt was acknowledged but no message was sent: %r", self.msis)
        await b.clocks(12)
        self.raise_error()
        check(self.acks == acks + 1, "%d acknowledgements for one request", self.acks - acks)

    def raise_error(self):
        check(not self.err, "%s", self.err and self.err[0])


def run(c, ctx):
    res = {"msi": 0, "status": 0}

    async def main():
        h = res["h"] = Harness(c)
        await h.start()
        b = h.b
        for o in c["ops"]:
            h.raise_error()
            k = o["op"]
            if k == "write":
                await h.write(o["fn"] % len(b.fns), o["reg"], o["v"], o["be"])
            elif k == "status":
                await h.status()
                res["status"] += 1
            elif k == "msi":
                await h.msi(o)
                res["msi"] += 1
            elif k == "tx":
                await h.tx(o)
            elif k == "gap":
                await b.clocks(o["n"])
            elif k == "bus":
                await h.check_credits()
                b.bus = o["v"]
                for f in range(len(b.fns)):
                    await b.cfg_write(f, 15, 0, 0)
        await h.status()
        await h.check_credits()
        await Timer(1, "us")
        h.raise_error()

    try:
        simcore.run(main, max_time_ns=60_000_000, max_events=4_000_000)
    finally:
        h = res.get("h")
        if h and h.err:
            check(False, "%s", h.err[0])
    ctx.label("ptile" if c["fam"] == "ptile" else "ltile" if c["ltile"] else "htile")
    ctx.label("finite credits" if c["grant"] else "infinite credits")
    ctx.nontrivial(any(o["op"] == "write" for o in c["ops"]) and any(o["op"] in ("tx", "msi") for o in c["ops"]))


PARTS = [Part("ports", cases(), run, 200, 8000, "register writes on the link, user packets, interrupt requests, bus number changes, link credits; non-trivial with register writes and traffic")]
