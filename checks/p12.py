"""P12: every non-posted operation ends with the answer to its own request, or a timeout."""
import hypothesis.strategies as st
import simcore
import tlpgen
import linkbench as lb
import cocotb
from cocotb.triggers import Timer, Event
from cocotb.queue import Queue
from runner import Part, check
from cocotbext.pcie.core import RootComplex, MemoryEndpoint, Device
from cocotbext.pcie.core.tlp import Tlp, TlpType, CplStatus
from cocotbext.pcie.core.utils import PcieId

PROPERTY = "P12"
ASSUMPTIONS = ["a completion arriving after its request timed out arrives before the same tag is allocated again (tags rotate); a later one cannot be told "
               "apart on the wire", "completions of one request arrive in address order, as the specification requires"]

BASE = 0xc000_0000
OK = {"how": "ok"}


@st.composite
def answer(draw, bad):
    how = draw(st.sampled_from(["ok", "ok", "ok", "ok"] + (["ur", "ca", "none", "late", "stop", "nodata", "extra", "partial-ur"] if bad else [])))
    return {"how": how, "delay": draw(st.sampled_from([0, 0, 1, 20, 150, 400])), "gap": draw(st.sampled_from([0, 0, 5, 60])),
            "cuts": draw(st.lists(st.integers(1, 33), max_size=4)), "late": draw(st.sampled_from([10, 200, 1500]))}


@st.composite
def op(draw, bad, small):
    k = draw(st.sampled_from(["mr", "mr", "mr", "ior", "iow", "cr", "cw"]))
    ln = draw(st.one_of(st.sampled_from([1, 2, 3, 4, 5, 64, 128, 200]), st.integers(1, 520))) if k == "mr" else draw(st.integers(1, 4))
    off = draw(st.one_of(st.integers(0, 7), st.integers(0, 0x2ff)))
    if k != "mr":
        ln = min(ln, 4 - off % 4)
    return {"k": k, "off": off, "len": ln, "to": draw(st.sampled_from([3000, 3000, 1200, 5000])) if bad else draw(st.sampled_from([0, 0, 100000]))}


@st.composite
def case(draw, bad):
    n = draw(st.integers(1, 3 if bad else 6))
    streams = [draw(st.lists(op(bad, bad), min_size=1, max_size=3 if bad else 8)) for _ in range(n)]
    return {"who": draw(st.sampled_from(["rc", "ep"])), "streams": streams, "ans": draw(st.lists(answer(bad), min_size=1, max_size=8)),
            "tags": 32 if bad else draw(st.sampled_from([1, 2, 3, 8, 32, 256])), "etag": draw(st.booleans()),
            "stray": draw(st.lists(st.fixed_dictionaries({"t": st.integers(0, 3000), "tag": st.sampled_from([31, 30, 29, 255, 256, 300, 1023]), "dw": st.integers(0, 4)}),
                                   max_size=3)) if bad else [],
            "alias": draw(st.lists(st.sampled_from([None, None, [256, ""], [512, ""], [768, ""], [0, "bus"], [0, "dev"], [0, "fn"], [256, "fn"]]), min_size=1, max_size=4)),
            "flood": draw(st.sampled_from([0, 0, 0, 70])) if bad else 0}


def byte_at(k, a):
    return (a * 7 + k * 31 + (a >> 8) * 13 + 5) & 0xff


def run(c, ctx):
    res = {}
    expect = {}
    fc = [64, 1024, 64, 64, 64, 1024]
    state = {"tagreuse": 0, "late": 0, "timeout": 0, "bad": 0, "split": 0}
    errors = []

    async def main():
        part = lb.Partner(fc)
        if c["who"] == "rc":
            rc = RootComplex()
            rc.tag_count = c["tags"]
            rc.max_read_request_size = 0
            br = lb.root_port(rc, part.port)
            br.sec_bus_num, br.sub_bus_num = 1, 1
            for b in (br, rc.upstream_bridge):
                b.mem_base, b.mem_limit = BASE, BASE + 0xfffffff
                b.io_base, b.io_limit = 0x8000_0000, 0x8fff_ffff
            who, my, other = rc, PcieId(0, 0, 0), PcieId(1, 0, 0)
            io0 = 0x8000_0000
            ntags = min(c["tags"], 256)
        else:
            f = MemoryEndpoint()
            d = Device()
            d.append_function(f)
            lb.device_port(d, part.port)
            d.bus_num = 1
            f.bus_master_enable = True
            f.tag_count = c["tags"] if c["tags"] < 32 else 256
            f.pcie_cap.extended_tag_field_enable = c["etag"]
            f.pcie_cap.max_read_request_size = 0
            who, my, other = f, PcieId(1, 0, 0), PcieId(0, 0, 0)
            io0 = 0
            ntags = min(f.tag_count, 256 if c["etag"] else 32)
        base = BASE if c["who"] == "rc" else 0
        nops = 0
        live = {}            # tag -> request not yet fully answered or timed out
        sendq = Queue()      # one at a time: packets of different requests interleave

        async def pump():
            while True:
                t, ev = await sendq.get()
                await part.send(t)
                ev.set()
        cocotb.start_soon(pump())

        async def put(t):
            ev = Event()
            sendq.put_nowait((t, ev))
            await ev.wait()

        def opno(t):
            if t.fmt_type in (TlpType.CFG_READ_0, TlpType.CFG_WRITE_0, TlpType.CFG_READ_1, TlpType.CFG_WRITE_1):
                return t.completer_id.device
            return ((t.address - (io0 if t.fmt_type in (TlpType.IO_READ, TlpType.IO_WRITE) else base)) >> 12)

        async def reply(t, a, idx):
            if a["delay"]:
                await Timer(a["delay"], "ns")
            k = opno(t)
            how = a["how"]
            if how in ("late",):
                # wait until after the requester has given up
                await Timer(idx[1] + a["late"], "ns")
                state["late"] += 1
            if how == "none":
                return
            if how in ("ur", "ca"):
                cpl = Tlp.create_completion_for_tlp(t, other, False, CplStatus.UR if how == "ur" else CplStatus.CA)
                live.pop(t.tag, None)
                await put(cpl)
                return
            name = t.fmt_type.name
            if not name.startswith("MEM"):
                cpl = Tlp.create_completion_for_tlp(t, other, "READ" in name)
                if "READ" in name:
                    cpl.set_data(bytes(byte_at(k, (t.address & 0xfff) + i) for i in range(4)))
                cpl.byte_count = 4
                if how != "late":
                    live.pop(t.tag, None)
                await put(cpl)
                if how == "extra":
                    await put(Tlp(cpl))
                return
            done = 0
            left = tlpgen.span(t)[1]
            cuts = list(a["cuts"])
            first = True
            while done < t.length:
                cur = t.address + done * 4
                off = tlpgen.span(t)[0] if first else 0
                n = t.length - done
                if cuts:
                    # stop at a 64-byte boundary, as completers do
                    room = (64 - cur % 64) // 4 + (cuts.pop(0) - 1) // 16 * 16
                    if room < n:
                        n = room
                        state["split"] += 1
                if how == "stop" and not first:
                    return
                cpl = Tlp.create_completion_data_for_tlp(t, other)
                if (how == "partial-ur" and not first) or (how == "nodata" and (not first or n == t.length)):
                    cpl = Tlp.create_completion_for_tlp(t, other, False, CplStatus.UR if how == "partial-ur" else CplStatus.SC)
                    live.pop(t.tag, None)
                    await put(cpl)
                    return
                cpl.set_data(bytes(byte_at(k, (cur & 0xfff) + i) for i in range(n * 4)))
                cpl.byte_count = left
                cpl.lower_address = (cur + off) & 0x7f
                if done + n == t.length and how != "late":
                    live.pop(t.tag, None)
                await put(cpl)
                if a["gap"]:
                    await Timer(a["gap"], "ns")
                done += n
                left -= n * 4 - off
                first = False
            if how == "extra":
                await put(Tlp(cpl))

        seen = {}

        def on_tlp(t):
            if t.is_completion():
                errors.append("requester sent a completion %r" % t)
                return
            k = opno(t)
            name = t.fmt_type.name
            if t.tag >= ntags:
                errors.append("tag %d used, only %d tags enabled" % (t.tag, ntags))
            if t.tag in live:
                errors.append("tag %d used for %r while %r is outstanding" % (t.tag, t, live[t.tag]))
            if t.requester_id != my:
                errors.append("requester id %r, expected %r" % (t.requester_id, my))
            live[t.tag] = t
            al = c.get("alias", [None])[len(seen) % len(c.get("alias", [None]))]
            if al:      # somebody else's completion that looks a bit like the answer
                x = Tlp()
                x.fmt_type = TlpType.CPL_DATA if "READ" in name else TlpType.CPL
                x.requester_id = my._replace(**{"": {}, "bus": {"bus": 5}, "dev": {"device": 1}, "fn": {"function": 1}}[al[1]])
                x.completer_id, x.tag, x.tc, x.attr = other, t.tag + al[0], t.tc, t.attr
                if "READ" in name:
                    x.set_data(b"\xee" * (4 * t.length))
                x.byte_count = tlpgen.span(t)[1] if name.startswith("MEM") else 4
                x.lower_address = (t.address + tlpgen.span(t)[0]) & 0x7f if name.startswith("MEM") else 0
                cocotb.start_soon(put(x))
            i = seen.get(k, 0)
            seen[k] = i + 1
            a = dict(c["ans"][(k + i) % len(c["ans"])])
            o = ops[k]
            single = a["how"]
            if single in ("stop", "partial-ur") and (not name.startswith("MEM") or not a["cuts"]):
                a["how"] = "none" if single == "stop" else "ur"
            if single == "nodata" and name not in ("MEM_READ", "MEM_READ_64"):
                a["how"] = "ok"
            # will the answer be split at all?
            if a["how"] in ("stop", "partial-ur"):
                room = (64 - t.address % 64) // 4 + (a["cuts"][0] - 1) // 16 * 16
                if room >= t.length:
                    a["how"] = "none" if single == "stop" else "ur"
            expect.setdefault(k, []).append(a["how"])
            if a["how"] in ("none", "stop", "late"):
                async def expire():
                    await Timer(o["to"] + 800, "ns")
                    if live.get(t.tag) is t:
                        del live[t.tag]
                cocotb.start_soon(expire())
            cocotb.start_soon(reply(t, a, (i, o["to"] + 800)))
        part.on_tlp = on_tlp

        ops = []
        tasks = []

        async def stream(items):
            for k, o in items:
                a = o["off"]
                t0 = simcore.wheel.now
                try:
                    if o["k"] == "mr":
                        r = await who.mem_read(base + (k << 12) + a, o["len"], o["to"], "ns")
                    elif o["k"] == "ior":
                        r = await who.io_read(io0 + (k << 12) + a, o["len"], o["to"], "ns")
                    elif o["k"] == "iow":
                        r = await who.io_write(io0 + (k << 12) + a, bytes(o["len"]), o["to"], "ns")
                    elif o["k"] == "cr":
                        r = await rc.config_read(PcieId(1, k, 0), a, o["len"], o["to"], "ns")
                    else:
                        r = await rc.config_write(PcieId(1, k, 0), a, bytes(o["len"]), o["to"], "ns")
                    res[k] = ("ok", r)
                except Exception as e:
                    res[k] = ("err", str(e), type(e).__name__)
                res[k] += ((simcore.wheel.now - t0) / 1000,)
        per = []
        for s in c["streams"]:
            items = []
            for o in s:
                if nops >= 32:
                    break
                o = dict(o)
                if c["who"] == "ep" and o["k"] in ("cr", "cw"):
                    o["k"] = "ior" if o["k"] == "cr" else "iow"
                ops.append(o)
                items.append((nops, o))
                nops += 1
            per.append(items)
        await Timer(100, "ns")

        async def stray(s):
            await Timer(s["t"], "ns")
            t = Tlp()
            t.fmt_type = TlpType.CPL_DATA if s["dw"] else TlpType.CPL
            t.requester_id, t.completer_id, t.tag = my, other, s["tag"]
            if s["tag"] in live:
                return
            if s["dw"]:
                t.set_data(bytes(4 * s["dw"]))
            t.byte_count = 4 * s["dw"] or 4
            await put(t)
        if c["stray"]:
            # keep the injected tags out of the range the requests use
            for s in c["stray"]:
                cocotb.start_soon(stray(dict(s, tag=s["tag"] if s["tag"] >= 255 else 255)))
        for _ in range(c["flood"]):
            await stray({"t": 0, "tag": 255, "dw": 1})
        tasks = [cocotb.start_soon(stream(p)) for p in per]
        for t in tasks:
            await t.join()
        await Timer(120, "us")
        return ops, part

    total_req = sum(1 + (o["len"] + o["off"] % 128) // 128 for s in c["streams"] for o in s)
    badcase = any(a["how"] not in ("ok",) for a in c["ans"])
    if badcase and total_req > 30:
        # keep within one round of the tag counter (see ASSUMPTIONS)
        c = dict(c, streams=[s[:1] for s in c["streams"]])
    try:
        ops, part = simcore.run(main, max_time_ns=3_000_000)
    except (simcore.TimeLimit, simcore.SimLimit, simcore.Deadlock) as e:
        check(False, "an operation never finished: %s; outcomes so far %r", e, res)
    hows = [h for l in expect.values() for h in l]
    ctx.nontrivial(any(h != "ok" for h in hows) if badcase else len(hows) > min(c["tags"], 8))
    for h in sorted(set(hows)):
        ctx.label(h)
    ctx.label(c["who"])
    check(not errors, "%s", "; ".join(errors[:3]))
    for k, o in enumerate(ops):
        hs = expect.get(k, [])
        r = res[k]
        good = hs and all(h in ("ok", "extra") for h in hs)
        what = "%s of %d bytes at 0x%x answered %r" % (o["k"], o["len"], o["off"], hs)
        # a configuration access reports failure as all ones, a write not at all
        if o["k"] == "cw":
            check(r[0] == "ok", "%s: %r", what, r)
        elif o["k"] == "cr":
            want = bytes(byte_at(k, o["off"] + i) for i in range(o["len"])) if good else b"\xff" * o["len"]
            check(r[0] == "ok" and bytes(r[1]) == want, "%s: returned %r, expected %r", what, r, want)
        elif good:
            if o["k"] == "iow":
                check(r[0] == "ok", "%s: %r", what, r)
            else:
                want = bytes(byte_at(k, o["off"] + i) for i in range(o["len"]))
                check(r[0] == "ok" and bytes(r[1]) == want, "%s: returned %r, expected %r", what, r, want)
        else:
            check(r[0] == "err" and r[2] in ("Exception", "AssertionError"), "%s: expected a failure, got %r", what, r)
            first_bad = [h for h in hs if h not in ("ok", "extra")][0]
            if len(hs) == 1 and first_bad in ("none", "late"):
                check(o["to"] <= r[3] <= o["to"] + 700, "%s: timed out after %g ns, timeout is %d ns", what, r[3], o["to"])
    if badcase:
        lk = part.leaked()
        check(not lk, "credits never returned by the requester after all operations ended: %s (sent %r, limits %r)", lk, part.sent, part.adv)


PARTS = [
    Part("good", case(False), run, 800, 20000, "concurrent operations with few tags, delayed, interleaved and split answers; non-trivial with more requests than tags (or 8)"),
    Part("faults", case(True), run, 900, 20000, "missing, late, erroneous, truncated, duplicated and stray completions; non-trivial when a request got such an answer"),
]
