"""Hand-written request TLPs against a device or the root complex, and a model of the answers."""
import hypothesis.strategies as st
import simcore
import tlpgen
import linkbench as lb
import cocotb
from cocotb.triggers import Timer
from runner import check
from cocotbext.pcie.core import RootComplex, MemoryEndpoint, Device
from cocotbext.pcie.core.tlp import Tlp, TlpType, TlpAttr, TlpTc, CplStatus
from cocotbext.pcie.core.utils import PcieId

CONTIG_FIRST, CONTIG_LAST = (15, 14, 12, 8), (1, 3, 7, 15)


@st.composite
def request(draw, kinds):
    k = draw(st.sampled_from(kinds))
    o = {"k": k, "sel": draw(st.integers(0, 11)), "off": draw(st.one_of(st.integers(0, 40), st.integers(0, 0x3fff))), "salt": draw(st.integers(1, 250)),
         "tc": draw(st.sampled_from([0, 0, 0, 1, 5, 7])), "attr": draw(st.sampled_from([0, 0, 1, 2, 4, 7])), "gap": draw(st.sampled_from([0, 0, 0, 7, 100, 2000])),
         "req": draw(st.sampled_from([0, 0, 0, 0x10, 0x230, 0xffff, 8]))}
    if k[0] == "m" or k[:2] == "xm":
        n = draw(st.one_of(st.integers(1, 4), st.sampled_from([16, 31, 32, 33, 64, 128, 256, 1024]), st.integers(1, 1024)))
        o["dw"] = n
        if n == 1:
            o["fbe"], o["lbe"] = draw(st.integers(0, 15)), 0
        elif n == 2 and draw(st.booleans()):
            o["fbe"], o["lbe"] = draw(st.integers(1, 15)), draw(st.integers(1, 15))
            o["off"] &= ~7
        else:
            o["fbe"], o["lbe"] = draw(st.sampled_from(CONTIG_FIRST)), draw(st.sampled_from(CONTIG_LAST))
    else:
        o["dw"], o["fbe"], o["lbe"] = 1, draw(st.integers(0, 15)), 0
    return o


area = st.tuples(st.sampled_from(["m32", "p32", "m64", "p64", "io"]), st.integers(4, 14), st.booleans())


@st.composite
def case(draw, kinds, whos=("dev", "rc")):
    who = draw(st.sampled_from(whos))
    fns = [draw(st.lists(area, max_size=4)) for _ in range(draw(st.integers(1, 3)))]
    if not any(fns):
        fns[0] = [draw(area)]
    return {"who": who, "fns": fns, "bus": draw(st.sampled_from([0, 1, 5, 255])), "mps": draw(st.integers(0, 5)), "rcb": draw(st.booleans()), "split": draw(st.booleans()),
            "fnum": draw(st.sampled_from(["seq", "gap"])), "ops": draw(tlpgen.many(request(kinds), 1, 30)), "slow": draw(st.sampled_from([400, 400, 20000]))}


class Area:
    def __init__(self, name, base, size, io, mem, salt):
        self.name, self.base, self.size, self.io, self.mem = name, base, size, io, mem
        init = tlpgen.pattern(size, salt)
        mem[0:size] = init
        self.model = bytearray(init)
        self.log = []        # (index, offset, value) of byte writes

    def enabled(self, off, dw, fbe, lbe):
        """Offsets of the enabled bytes."""
        out = []
        for i in range(dw):
            be = fbe if i == 0 else lbe if i == dw - 1 else 15
            out += [off + 4 * i + b for b in range(4) if be >> b & 1]
        return out


def handlers(mem, errs, name):
    """User read and write callbacks over a byte array, checking what they are given."""
    async def read(addr, length):
        if length < 0 or addr < 0 or addr + length > len(mem):
            errs.append("%s: read callback called with offset 0x%x length %d (size %d)" % (name, addr, length, len(mem)))
        return bytes(mem[addr:addr + length])

    async def write(addr, data):
        if len(data) == 0 or addr < 0 or addr + len(data) > len(mem):
            errs.append("%s: write callback called with offset 0x%x length %d (size %d)" % (name, addr, len(data), len(mem)))
        mem[addr:addr + len(data)] = data
    return read, write


def run(c, ctx):
    st_ = {"ur": 0, "ok": 0, "posted": 0, "split": 0, "dropped": 0, "part": 0}
    errs = []

    async def main():
        fc = [64, 1024, 64, 64, 64, 1024]
        part = lb.Partner(fc, symbol_ps=c["slow"])
        areas = []
        fnums = []
        if c["who"] == "rc":
            rc = RootComplex()
            rc.max_payload_size = c["mps"]
            rc.read_completion_boundary = c["rcb"]
            rc.split_on_all_rcb = c["split"]
            br = lb.root_port(rc, part.port)
            br.sec_bus_num, br.sub_bus_num = 1, 255
            for b in (br, rc.upstream_bridge):
                b.mem_base, b.mem_limit = 0xc000_0000, 0xc00f_ffff
                b.io_base, b.io_limit = 0x8000_0000, 0x8000_0fff
                b.prefetchable_mem_base, b.prefetchable_mem_limit = 0x8000_0000_0000_0000, 0x8000_0000_000f_ffff
            bus = None
            for n, fn in enumerate(c["fns"]):
                for i, (kind, log, cb) in enumerate(fn):
                    pool = rc.io_pool if kind == "io" else rc.mem_pool
                    r = pool.alloc_region(1 << log)
                    areas.append(Area("host%d.%d" % (n, i), r.get_absolute_address(0), 1 << log, kind == "io", r.mem, n * 7 + i))
            # addresses that belong to nothing (the last two lie in the root complex's own windows)
            holes = {"m": [0x7000_0000, 0x1_0000_0000, 0x7fff_f000, 0xc010_0000, 0xffff_0000], "io": [0x7000_0000, 0x7fff_f000, 0x8000_1000, 0xffff_0000]}
        else:
            dev = Device()
            lb.device_port(dev, part.port)
            m32, m64, io = 0xc000_0000, 0x8000_0001_0000_0000, 0x8000_0000
            bus = c["bus"]
            for n, fn in enumerate(c["fns"]):
                f = MemoryEndpoint()
                f.vendor_id, f.device_id = 0x1200 + n, 0x3400 + n
                f.pcie_cap.max_payload_size = c["mps"]
                if c["fnum"] == "gap":
                    f.pcie_id = PcieId(0, 0, n * 2 + (n > 0))
                    dev.add_function(f)
                else:
                    dev.append_function(f)
                fnums.append(f.function_num)
                for i, (kind, log, cb) in enumerate(fn):
                    bar = f.bar_ptr
                    if bar + (2 if kind.endswith("64") else 1) > 6:
                        break
                    size = max(1 << log, 4 if kind == "io" else 16)
                    name = "f%d.bar%d" % (n, bar)
                    mem = bytearray(size) if cb else None
                    r, w = handlers(mem, errs, name) if cb else (None, None)
                    m = f.add_region(size, r, w, ext=kind.endswith("64"), prefetch=kind.startswith("p"), io=kind == "io")
                    if kind == "io":
                        io = base = (io + size - 1) & -size
                        io += size + 0x100
                    elif kind.endswith("64"):
                        m64 = base = (m64 + size - 1) & -size
                        m64 += size + 0x1000
                    else:
                        m32 = base = (m32 + size - 1) & -size
                        m32 += size + 0x1000
                    f.bar[bar] |= base & 0xffff_ffff
                    if kind.endswith("64"):
                        f.bar[bar + 1] |= base >> 32
                    areas.append(Area(name, base, size, kind == "io", mem if cb else m, n * 7 + i))
                # the remaining BARs are not implemented
            holes = {"m": [0xb000_0000, 0x9000_0000_0000_0000, 0xf000_0000, 0xffff_f000, 0x2000], "io": [0x7000_0000, 0xf000_0000, 0x100]}
        await Timer(300, "ns")
        live = {}
        extra = []

        def on_tlp(t):
            if not t.is_completion():
                extra.append("unexpected request %r" % t)
                return
            k = (int(t.requester_id), t.tag)
            if k not in live:
                extra.append("completion for no outstanding request: %r" % t)
                return
            r = live[k]
            if r["done"]:
                extra.append("completion after the last one of its request: %r" % t)
                return
            r["cpls"].append((simcore.wheel.now, t, len(clock)))
            if t.status != CplStatus.SC or not r["read_mem"]:
                r["done"] = True
            else:
                r["dw"] += len(t.data) // 4
                if r["dw"] >= r["o"]["dw"]:
                    r["done"] = True
        part.on_tlp = on_tlp
        clock = []           # one entry per request handed over
        reqs = []
        tagno = 0
        if c["who"] == "dev":
            # the device learns its bus number from a type 0 configuration write
            for n, fnum in enumerate(fnums):
                t = Tlp()
                t.fmt_type = TlpType.CFG_WRITE_0
                t.completer_id = PcieId(bus, 0, fnum)
                t.address, t.tag, t.first_be = 0x3c, 200 + n, 0
                t.set_data(bytes(4))
                live[(0, 200 + n)] = {"cpls": [], "done": False, "read_mem": False}
                await part.send(t)
                await Timer(2, "us")
                check(live[(0, 200 + n)]["done"], "configuration write to function %d was not answered", fnum)
        for o in c["ops"]:
            if o["gap"]:
                await Timer(o["gap"], "ns")
            k = o["k"]
            t = Tlp()
            t.requester_id = PcieId.from_int(o["req"] if c["who"] == "dev" else 0x100 + (o["req"] & 0xff))
            t.tag = tagno % 192
            tagno += 1
            if any(not r["done"] for kk, r in live.items() if kk == (int(t.requester_id), t.tag)):
                # tag still in use
                await Timer(100, "us")
            if not (k.startswith("i") or k.startswith("xi")) and not k.startswith("c"):
                t.tc, t.attr = TlpTc(o["tc"]), TlpAttr(o["attr"])
            r = {"o": dict(o), "t": t, "cpls": [], "done": False, "read_mem": False, "dw": 0, "want": None, "posted": False}
            a = None
            off = o["off"] & ~3
            if k in ("mr", "mw", "ir", "iw"):
                cand = [x for x in areas if x.io == (k[0] == "i")]
                if not cand:
                    k = "x" + k
                else:
                    a = cand[o["sel"] % len(cand)]
                    dw = min(o["dw"], a.size // 4)
                    off %= a.size
                    dw = min(dw, (a.size - off) // 4)
                    dw = min(dw, (0x1000 - ((a.base + off) & 0xfff)) // 4, (0x1000 - (off & 0xfff)) // 4)
                    r["o"]["dw"] = dw
                    t.address = a.base + off
            if k[0] == "x":
                h = holes["io" if "i" in k else "m"]
                t.address = h[o["sel"] % len(h)] + (off & 0xffc)
                r["o"]["dw"] = dw = 1 if "i" in k else min(o["dw"], (0x1000 - (t.address & 0xfff)) // 4)
            fbe, lbe = o["fbe"], o["lbe"]
            if k[0] in "mx" and "i" not in k:
                if dw == 1:
                    lbe = 0
                elif not lbe:
                    lbe = 15
            r["o"]["lbe"] = lbe
            kk = k.lstrip("x")
            n = r["o"]["dw"]
            data = tlpgen.pattern(n * 4, o["salt"])
            t.length, t.first_be, t.last_be = n, fbe, lbe
            if kk in ("mr", "mw"):
                big = t.address > 0xffffffff
                t.fmt_type = TlpType[("MEM_READ" if kk == "mr" else "MEM_WRITE") + ("_64" if big else "")]
                r["read_mem"] = kk == "mr"
                r["posted"] = kk == "mw"
                if kk == "mw":
                    t.set_data(data)
                r["want"] = "SC" if a else "UR"
            elif kk in ("ir", "iw"):
                t.fmt_type = TlpType.IO_READ if kk == "ir" else TlpType.IO_WRITE
                t.length = n = 1
                t.last_be = 0
                if kk == "iw":
                    data = data[:4]
                    t.set_data(data)
                r["want"] = "SC" if a else "UR"
            elif kk in ("cr", "cw", "c1r", "c1w"):
                one = "1" in kk
                t.fmt_type = TlpType[("CFG_READ_" if kk.endswith("r") else "CFG_WRITE_") + ("1" if one else "0")]
                t.address = [0, 0x3c, 0, 8][o["sel"] % 4] if kk.endswith("r") else 0x3c
                t.length = 1
                t.last_be = 0
                fn = (fnums + [6, 7])[o["sel"] % (len(fnums) + 2)] if fnums else 0
                t.completer_id = PcieId(bus or 0, 0, fn)
                if kk.endswith("w"):
                    t.first_be = 0
                    t.set_data(bytes(4))
                r["want"] = "SC" if c["who"] == "dev" and not one and fn in fnums else "UR"
            else:
                # an unexpected completion
                t.fmt_type = TlpType.CPL_DATA if o["sel"] & 1 else TlpType.CPL
                t.length = 0
                t.first_be = t.last_be = 0
                if o["sel"] & 1:
                    t.set_data(data[:4 * min(n, 4)])
                t.byte_count = 4
                t.completer_id = PcieId(1 + (o["sel"] & 1), 0, 0)
                if c["who"] == "dev":
                    t.requester_id = PcieId(bus, 0, (fnums + [7])[o["sel"] % (len(fnums) + 1)])
                else:
                    t.requester_id = PcieId.from_int([0, 0x100, 0x123, 0][o["sel"] % 4])
                r["want"], r["posted"] = "drop", True
            r["a"], r["off"] = a, off
            # model
            en = a.enabled(off, n, fbe, t.last_be) if a else []
            if a and kk in ("mw", "iw"):
                for p in en:
                    a.model[p] = data[p - off]
                    a.log.append((len(clock), p, data[p - off]))
                if len(en) < 4 * n:
                    st_["part"] += 1
            r["en"] = en
            r["at"] = len(clock)
            if a and kk in ("mr", "ir"):
                r["snap"] = {p: a.model[p] for p in en}
            if not r["posted"]:
                live[(int(t.requester_id), t.tag)] = r
            reqs.append(r)
            clock.append(0)
            await part.send(t)
        for _ in range(400):
            if all(r["done"] or r["posted"] for r in reqs):
                break
            await Timer(1, "us")
        await Timer(60, "us")
        check(not extra, "%s", "; ".join(extra[:3]))
        check(not errs, "%s", "; ".join(errs[:3]))
        for r in reqs:
            verify(c, r, bus, st_)
        for a in areas:
            got = bytes(a.mem[0:a.size])
            if got != bytes(a.model):
                i = next(i for i in range(a.size) if got[i] != a.model[i])
                check(False, "contents of %s differ at offset 0x%x: %r, expected %r", a.name, i, got[i:i + 8], bytes(a.model[i:i + 8]))
        lk = part.leaked()
        check(not lk, "credits not returned after all requests were handled: %s", lk)

    try:
        simcore.run(main, max_time_ns=30_000_000)
    except (simcore.TimeLimit, simcore.SimLimit, simcore.Deadlock) as e:
        check(False, "requests are not answered: %s", e)
    return st_


def verify(c, r, bus, st_):
    t = r["t"]
    if r["posted"]:
        st_["posted" if r["want"] != "drop" else "dropped"] += 1
        return
    cpls = [x[1] for x in r["cpls"]]
    check(cpls, "no completion for %r (expected %s)", t, r["want"])
    check(r["done"], "completions for %r are incomplete: %d of %d DWs", t, r["dw"], r["o"]["dw"])
    for x in cpls:
        check(x.tc == t.tc and x.attr == t.attr, "completion %r does not echo TC and Attr of %r", x, t)
        if bus is not None:
            check(x.completer_id.bus == bus, "completion %r from a device on bus %d", x, bus)
    if r["want"] == "UR":
        st_["ur"] += 1
        # unallocated host memory is the root complex's own: it may answer CA
        err = (CplStatus.UR, CplStatus.CA) if c["who"] == "rc" and t.address < 0x8000_0000 else (CplStatus.UR,)
        if len(err) == 2 and t.first_be == 0 and t.fmt_type in (TlpType.IO_READ, TlpType.IO_WRITE):
            return           # touches no byte at all
        check(len(cpls) == 1 and cpls[0].status in err and not cpls[0].data and cpls[0].fmt_type == TlpType.CPL, "%r: expected one UR completion, got %r", t, cpls)
        return
    check(all(x.status == CplStatus.SC for x in cpls), "%r: expected success, got %r", t, cpls)
    name = t.fmt_type.name
    if "WRITE" in name:
        check(len(cpls) == 1 and cpls[0].fmt_type == TlpType.CPL and not cpls[0].data, "%r: write answered by %r", t, cpls)
        st_["ok"] += 1
        return
    data = b"".join(bytes(x.data) for x in cpls)
    check(len(data) == 4 * t.length and all(x.fmt_type == TlpType.CPL_DATA for x in cpls), "%r: %d bytes returned", t, len(data))
    st_["ok"] += 1
    if len(cpls) > 1:
        st_["split"] += 1
    if name.startswith("CFG"):
        return
    a = r["a"]
    upto = r["cpls"][-1][2]
    later = [w for w in a.log if r["at"] < w[0] < upto]
    for p in r["en"]:
        got = data[p - r["off"]]
        if got != r["snap"][p] and got not in [v for _, q, v in later if q == p]:
            check(False, "%r returned 0x%02x for %s+0x%x, expected 0x%02x", t, got, a.name, p, r["snap"][p])
