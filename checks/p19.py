"""P19: message-signalled interrupts reach exactly their own handlers."""
import hypothesis.strategies as st
import simcore  # noqa: F401
import topo
import cocotb
from cocotb.triggers import Timer
from cocotbext.pcie.core import RootComplex, Device, MemoryEndpoint, Switch
from cocotbext.pcie.core.caps import MsiCapability, MsixCapability
from cocotbext.pcie.core.tlp import TlpTc, TlpAttr
from tlpgen import mix, many
from cocotbext.axi import MemoryRegion
from runner import Part, check

PROPERTY = "P19"
ASSUMPTIONS = ["no vector is masked (the models leave masking to the user)", "devices are enabled and bus mastering is on"]

msi = st.fixed_dictionaries({"b64": st.booleans(), "mask": st.booleans(), "ext": st.booleans(), "mmc": st.integers(0, 5)})
msix = st.fixed_dictionaries({"n": st.one_of(st.integers(1, 8), st.sampled_from([31, 32, 33, 40])), "off": st.integers(0, 12), "hi": st.booleans()})
func = st.fixed_dictionaries({"msi": mix(msi, msi, msi, st.none()), "msix": mix(st.none(), st.none(), msix), "etag": st.booleans()})
devs = st.lists(st.lists(func, min_size=1, max_size=3), min_size=1, max_size=3)
fire = st.tuples(st.just("fire"), st.lists(st.tuples(st.integers(0, 8), st.integers(0, 40)), min_size=1, max_size=6), st.integers(0, 7))
big = st.fixed_dictionaries({"msi": st.none(), "msix": st.fixed_dictionaries({"n": mix(st.sampled_from([64, 128, 256, 257, 512, 513, 1024, 1025, 2047, 2048]), st.integers(41, 2048)), "off": st.integers(0, 255), "hi": st.booleans()}), "etag": st.booleans(), "size": st.just(131072)})
op = mix(
    st.tuples(st.just("alloc"), st.integers(0, 8), st.sampled_from([1, 1, 1, 2, 5, 33]), st.sampled_from([1, 4, 32, 32, 64])),
    st.tuples(st.just("free"), st.integers(0, 8)),
    st.tuples(st.just("msi"), st.integers(0, 8)),
    fire, fire, fire,
    st.tuples(st.just("irq"), st.integers(0, 8), st.integers(0, 40))).map(list)
case = st.fixed_dictionaries({"devs": devs, "sw": st.booleans(), "first": st.sampled_from([9, 9, 9, 3, 2, 1, 0]), "ops": st.tuples(fire, many(op, 0, 14)).map(lambda x: [list(x[0])] + x[1])})


class Fn(MemoryEndpoint):
    def __init__(self, d):
        super().__init__()
        self.d = d
        self.mem0 = self.add_region(d.get("size", 4096))
        self.mem1 = self.add_region(d.get("size", 4096), ext=True, prefetch=True)
        self.pcie_cap.extended_tag_supported = d["etag"]
        if d["msi"]:
            m = self.msi_cap = MsiCapability()
            m.msi_64bit_address_capable, m.msi_per_vector_mask_capable = d["msi"]["b64"], d["msi"]["mask"]
            m.msi_extended_message_data_capable, m.msi_multiple_message_capable = d["msi"]["ext"], d["msi"]["mmc"]
            self.register_capability(m)
        if d["msix"]:
            x = self.msix_cap = MsixCapability()
            x.msix_table_size = d["msix"]["n"] - 1
            x.msix_table_bar_indicator_register = 1 if d["msix"]["hi"] else 0
            x.msix_table_offset = d["msix"]["off"] * 8 * 32
            x.msix_pba_bar_indicator_register = x.msix_table_bar_indicator_register
            x.msix_pba_offset = d.get("size", 4096) - 64
            self.register_capability(x)

    @property
    def table(self):
        return self.mem1 if self.d["msix"]["hi"] else self.mem0


def run(c, ctx):
    info = {"fired": 0, "kinds": set()}

    async def main():
        rc = RootComplex()
        fns = []
        up = rc
        if c["sw"]:
            up = Switch()
            rc.make_port().connect(up)
        for dd in c["devs"]:
            dev = Device()
            for fd in dd:
                fns.append(dev.append_function(Fn(fd)))
            up.make_port().connect(dev)
        await rc.enumerate()
        S = []
        for f in fns:
            d = rc.find_device(f.pcie_id)
            await d.enable_device()
            await d.set_master()
            S.append({"f": f, "d": d, "mode": None, "handlers": {}})
        got, want = [], []

        def handler(tag):
            async def cb():
                got.append(tag)
                if tag[1] % 3 == 1:
                    # a handler may take its time; the others do not wait for it
                    await Timer(400, "us")
            return cb

        async def alloc(s, lo, hi):
            f, d = s["f"], s["d"]
            exp, mode = -1, None
            if s["mode"] is None and hi >= lo:
                if f.d["msix"] and f.d["msix"]["n"] >= lo:
                    exp, mode = min(f.d["msix"]["n"], hi), "msix"
                elif f.d["msi"] and 1 << f.d["msi"]["mmc"] >= lo:
                    exp, mode = min(1 << f.d["msi"]["mmc"], hi), "msi"
            if mode == "msix":
                before = bytes(f.table)
            r = await d.alloc_irq_vectors(lo, hi)
            check((r if exp > 0 else r < 0) == (exp if exp > 0 else True), "alloc_irq_vectors(%d, %d) returns %r, expected %d (mode %s)", lo, hi, r, exp, s["mode"])
            if mode:
                s["mode"] = mode
                if mode == "msix":
                    lo_, hi_ = f.msix_cap.msix_table_offset, f.msix_cap.msix_table_offset + 16 * f.d["msix"]["n"]
                    now = bytes(f.table)
                    check(now[:lo_] == before[:lo_] and now[hi_:] == before[hi_:], "MSI-X setup changed memory outside the table")
                ready(s)
                entries = [bytes(x["f"].table[o:o + 12]) for x in S if x["mode"] == "msix" for n in range(nvec(x)) for o in [x["f"].msix_cap.msix_table_offset + 16 * n]]
                check(len(set(entries)) == len(entries), "two MSI-X table entries in use hold the same message")

        def ready(s):
            f, d = s["f"], s["d"]
            check(len(d.msi_vectors) >= nvec(s), "%d vectors for a function with %d", len(d.msi_vectors), nvec(s))
            if s["mode"] == "msix":
                check(f.msix_cap.msix_enable and not f.msix_cap.msix_function_mask, "MSI-X not enabled after allocation")
                check(not (f.d["msi"] and f.msi_cap.msi_enable), "both MSI and MSI-X enabled")
            else:
                check(f.msi_cap.msi_enable and f.msi_cap.msi_multiple_message_enable == f.d["msi"]["mmc"], "MSI enable after allocation")
                check(not (f.d["msix"] and f.msix_cap.msix_enable), "both MSI and MSI-X enabled")
            for k in range(nvec(s)):
                s["handlers"].setdefault(k, [])
                if not s["handlers"][k]:
                    add(s, k)

        def nvec(s):
            return s["f"].d["msix"]["n"] if s["mode"] == "msix" else 1 << s["f"].d["msi"]["mmc"] if s["mode"] == "msi" else 0

        def add(s, k):
            tag = (S.index(s), k, len(s["handlers"][k]), s["mode"])
            s["handlers"][k].append(tag)
            s["d"].request_irq(k, handler(tag))

        async def fire(s, k, t):
            f = s["f"]
            n = nvec(s)
            attr = TlpAttr.RO if t & 1 else TlpAttr(0)
            tc = TlpTc(t)
            if s["mode"] is None:
                for cap, kind in (("msi", "MSI"), ("msix", "MSI-X")):
                    if f.d[cap]:
                        try:
                            if cap == "msi":
                                await f.msi_cap.issue_msi_interrupt(0)
                            else:
                                await f.msix_cap.issue_msix_interrupt(0x80000000, 0)
                        except Exception:
                            continue
                        check(False, "%s interrupt issued although disabled", kind)
                return
            if s["mode"] == "msi":
                if k == n or k > 2 * n:
                    try:
                        await f.msi_cap.issue_msi_interrupt(k)
                    except ValueError:
                        return
                    check(False, "MSI %d issued, only %d enabled", k, n)
                k %= n
                await f.msi_cap.issue_msi_interrupt(k, attr=attr, tc=tc)
            else:
                k %= n
                o = f.msix_cap.msix_table_offset + 16 * k
                e = bytes(f.table[o:o + 16])
                addr, data, ctl = int.from_bytes(e[:8], "little"), int.from_bytes(e[8:12], "little"), int.from_bytes(e[12:], "little")
                check(ctl & 1 == 0, "MSI-X vector %d is masked after allocation", k)
                await f.msix_cap.issue_msix_interrupt(addr, data, attr=attr, tc=tc)
            want.extend(s["handlers"][k])
            pend.add((S.index(s), k))
            info["fired"] += 1
            info["kinds"].add(s["mode"])

        pend = set()
        for s in S[:c["first"]]:
            await alloc(s, 1, 32)
        for o in c["ops"]:
            if o[0] == "fire":
                ts = [cocotb.start_soon(fire(S[a % len(S)], k, o[2])) for a, k in o[1]]
                for t in ts:
                    await t
                await Timer(5, "us")
                check(sorted(got) == sorted(want), "handlers run %r, expected %r", sorted(got), sorted(want))
                got.clear()
                want.clear()
                for i, s in enumerate(S):
                    for k in s["handlers"]:
                        ev = s["d"].msi_vectors[k].event
                        check(ev.is_set() == ((i, k) in pend), "event of vector %d of function %d is %s", k, i, ev.is_set())
                        ev.clear()
                pend.clear()
                continue
            s = S[o[1] % len(S)]
            if o[0] == "alloc":
                await alloc(s, o[2], o[3])
            elif o[0] == "free":
                await s["d"].free_irq_vectors()
                s["mode"] = None
                f = s["f"]
                check(not (f.d["msi"] and f.msi_cap.msi_enable) and not (f.d["msix"] and f.msix_cap.msix_enable), "interrupts still enabled after free_irq_vectors")
            elif o[0] == "irq":
                k = o[2]
                if k < nvec(s):
                    add(s, k)
            elif o[0] == "msi":
                f = s["f"]
                r = await s["d"].enable_msi_range(1, 32)
                if f.d["msi"] and s["mode"] is None:
                    check(r == 1 << f.d["msi"]["mmc"], "enable_msi_range returns %r", r)
                    s["mode"] = "msi"
                    ready(s)
                else:
                    check(r < 0, "enable_msi_range returns %r", r)
    simcore.run(main, max_time_ns=100_000_000)
    ctx.nontrivial(info["fired"] > 0)
    ctx.label("+".join(sorted(info["kinds"])))


bigcase = st.fixed_dictionaries({"devs": st.tuples(big).map(lambda f: [list(f)]), "sw": st.just(False), "first": st.just(0), "ops": st.tuples(
    st.integers(0, 3), st.lists(st.integers(0, 2047), min_size=1, max_size=6)).map(lambda x: [["alloc", 0, 1, 4096], ["fire", [[0, k] for k in x[1] + [-1]], 0]] + [["free", 0], ["alloc", 0, 1, 32]] * (x[0] == 3))})


# ------------------------------------------------------------------ the message itself

u32 = st.one_of(st.integers(0, 0xffffffff), st.sampled_from([0, 0xffff, 0xffffffff, 0xffe0, 0x1ffff]))
shot = st.fixed_dictionaries({"x": st.booleans(), "addr": st.integers(0, 63), "region": st.integers(0, 2), "data": u32, "mme": st.integers(0, 5), "k": st.integers(0, 31),
                              "xe": st.booleans(), "attr": st.integers(0, 7), "tc": st.integers(0, 7), "off": st.integers(0, 9)})
msgcase = st.fixed_dictionaries({"sw": st.booleans(), "fns": st.lists(st.fixed_dictionaries({"msi": msi, "msix": msix, "etag": st.booleans()}), min_size=1, max_size=3), "shots": many(
    st.tuples(st.integers(0, 2), shot).map(list), 1, 12)})


def run_msg(c, ctx):
    """The host programs address and data itself; the device sends exactly that message."""
    info = {"n": 0}

    async def main():
        rc = RootComplex()
        up = rc
        if c["sw"]:
            up = Switch()
            rc.make_port().connect(up)
        dev = Device()
        fns = [dev.append_function(Fn(fd)) for fd in c["fns"]]
        up.make_port().connect(dev)
        await rc.enumerate()
        low = rc.mem_pool.alloc_region(256)
        areas = [(low.get_absolute_address(0), low.mem)]
        for a in (0x1_2345_0000, 0x7000_0000_1000_0000):
            r = MemoryRegion(256)
            rc.mem_address_space.register_region(r, a)
            areas.append((a, r.mem))
        for f in fns:
            d = rc.find_device(f.pcie_id)
            await d.enable_device()
            await d.set_master()
        seen = []
        w = topo.Wire(keep=False)
        w.on_tlp = lambda port, t: seen.append((t.fmt_type.name, int(t.attr), int(t.tc), int(t.requester_id), t.address, t.first_be, t.last_be, t.length, bytes(t.data))) \
            if t.fmt_type.name.startswith("MEM") else None
        with topo.tapped(w):
            for who, o in c["shots"]:
                f = fns[who % len(fns)]
                x, m = o["x"], f.d["msi"]
                base, mem = areas[o["region"] % (3 if x or m["b64"] else 1)]
                addr, data = base + 4 * o["addr"], o["data"]
                before = [bytes(a[1][:256]) for a in areas]
                cap = f.msix_cap if x else f.msi_cap
                pos = cap.offset * 4

                async def put(reg, v, n=4):
                    await rc.config_write(f.pcie_id, pos + reg, v.to_bytes(n, "little"))
                del seen[:]
                if x:
                    await put(2, 0x8000, 2)
                    await f.msix_cap.issue_msix_interrupt(addr, data, attr=TlpAttr(o["attr"]), tc=TlpTc(o["tc"]))
                else:
                    mme = min(o["mme"], m["mmc"])
                    await put(4, addr & 0xffffffff)
                    if m["b64"]:
                        await put(8, addr >> 32)
                    await put(12 if m["b64"] else 8, data)
                    await put(2, 1 | mme << 4 | o["xe"] << 10, 2)
                    if not (m["ext"] and o["xe"]):
                        data &= 0xffff
                    k = o["k"] % (1 << mme)
                    data = data >> mme << mme | k
                    await f.msi_cap.issue_msi_interrupt(k, attr=TlpAttr(o["attr"]), tc=TlpTc(o["tc"]))
                await Timer(5, "us")
                want = [bytearray(v) for v in before]
                i = [a[1] is mem for a in areas].index(True)
                raw = data.to_bytes(4, "little")
                want[i][4 * o["addr"]:4 * o["addr"] + 4] = raw
                for (a, b), v in zip(areas, want):
                    check(bytes(b[:256]) == bytes(v), "message %08x to %#x: memory at %#x differs at %r", data, addr, a, [k for k in range(256) if b[k] != v[k]][:8])
                msg = ("MEM_WRITE_64" if addr >> 32 else "MEM_WRITE", o["attr"], o["tc"], int(f.pcie_id), addr, 15, 0, 1, raw)
                check(seen == [msg] * (2 if c["sw"] else 1), "message %r seen on the links as %r", msg, seen)
                info["n"] += 1
                await put(2, 0, 2)
    simcore.run(main, max_time_ns=20_000_000)
    ctx.nontrivial(info["n"] > 0)


PARTS = [
    Part("messages", msgcase, run_msg, 160, 6000, "address and data programmed by the host, also above 4 GB and with extended data; non-trivial when an interrupt is issued"),
    Part("irq", case, run, 250, 10000, "histories of allocation, handler registration, interrupts and release over several functions; non-trivial when an interrupt is issued"),
    Part("big", bigcase, run, 8, 200, "MSI-X tables of up to 2048 vectors; non-trivial when an interrupt is issued"),
]
