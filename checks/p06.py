"""P06: acknowledgements on a link say exactly what was received."""
import hypothesis.strategies as st
import simcore
import tlpgen
from tlpgen import mix, many
import linkbench as lb
from cocotb.triggers import Timer
from cocotbext.pcie.core.dllp import Dllp
from runner import Part, check

PROPERTY = "P06"
ASSUMPTIONS = ["replay after a NAK is not implemented by the library, so no NAK for outstanding packets is injected", "never more than 2047 packets unacknowledged (specification limit)"]

KINDS = ["MEM_WRITE", "MEM_READ", "CPL", "CPL_DATA", "MEM_WRITE_64", "CFG_WRITE_0"]
tlp = tlpgen.tlp_case(names=KINDS, max_dw=32)
rxop = mix(
    st.tuples(st.just("in"), st.integers(1, 6)),
    st.tuples(st.just("in"), st.integers(1, 6)),
    st.tuples(st.just("dup"), st.one_of(st.integers(1, 6), st.integers(1, 2047))),
    st.tuples(st.just("gap"), st.one_of(st.integers(1, 6), st.integers(1, 2046))),
    st.tuples(st.just("wait"), st.sampled_from([1, 10, 60, 300, 1500])),
    st.tuples(st.just("tx"), st.integers(1, 4)),
    st.tuples(st.just("ack"), st.integers(0, 1000)),
    st.tuples(st.just("odd"), st.booleans(), st.booleans(), st.integers(1, 1000)),
    st.tuples(st.just("settle"))).map(list)
case = st.fixed_dictionaries({"kinds": st.lists(tlp, min_size=1, max_size=4), "lat": st.sampled_from([0, 0, 50, 400, 2000]), "symbol": st.sampled_from([20, 400, 4000]),
                              "pre": st.one_of(st.just(0), st.sampled_from([0, 3, 2040, 4090])), "pretx": st.sampled_from([0, 0, 0, 5, 4090]),
                              "ops": many(rxop, 1, 16)})
M = 4096


def kept(p):
    """Sequence numbers of the packets in the retry buffer (None if the port has no such buffer)."""
    b = getattr(p, "retry_buffer", None)
    b = getattr(b, "_queue", b)
    try:
        return [t.seq for t in b]
    except (TypeError, AttributeError):
        return None


def run(c, ctx):
    s = {"acc": 0, "tx": 0, "ackd": 0, "dups": 0, "gaps": 0, "acks": 0, "odd": 0}
    got = []
    seqs = []

    async def main():
        hist = []              # (time, "ACK"/"NAK", seq)
        oos = set()            # accepted counts at which an out-of-sequence packet has arrived

        def on_tx(pkt):
            if isinstance(pkt, Dllp):
                n = pkt.type.name
                if n in ("ACK", "NAK"):
                    hist.append((simcore.wheel.now, n, pkt.seq))
                    # numbers never run ahead of what was accepted; and never fall back
                    d = (s["acc"] - 1 - pkt.seq) % M
                    check(d < 2048, "%s %d sent, but only packets up to %d were received", n, pkt.seq, (s["acc"] - 1) % M)
                    done = s["acc"] - d
                    check(done >= s.setdefault("last", 0), "%s %d goes back: %d packets were already acknowledged", n, pkt.seq, s["last"])
                    s["last"] = done
                    if n == "NAK":
                        check(done in oos, "NAK %d sent although nothing arrived out of sequence after that packet", pkt.seq)
            else:
                seqs.append(pkt.seq)
        p = lb.PeerPort(on_tx, [0] * 6, c["symbol"])
        p.max_latency_timer_steps = c["lat"] * 1000

        async def rx(t):
            got.append(t.requester_id.bus * 256 + t.requester_id.device * 8 + t.requester_id.function if hasattr(t.requester_id, "bus") else t.requester_id)
            t.release_fc()
        p.rx_handler = rx
        for k in ("INIT_FC1_P", "INIT_FC1_NP", "INIT_FC1_CPL", "INIT_FC2_P", "INIT_FC2_NP", "INIT_FC2_CPL"):
            await p.ext_recv(lb.dllp(k))
        unit = c["symbol"] * 200        # longest packet: 32 DW and overhead

        async def push(seq, no):
            k = dict(c["kinds"][no % len(c["kinds"])])
            k["requester_id"] = no % 65536
            t = tlpgen.build(k)
            t.seq = seq % M
            await p.ext_recv(t)

        async def settle():
            await Timer(c["lat"] * 1000 + 6 * unit + 1000, "step")
            while len(seqs) < s["tx"]:
                await Timer(unit, "step")
            await Timer(c["lat"] * 1000 + 6 * unit + 1000, "step")
            want = (s["acc"] - 1) % M
            if s["acc"] or oos or s["dups"]:
                check(hist, "%d packets received, no acknowledgement within the latency limit", s["acc"])
                kind = "NAK" if s["acc"] in oos else "ACK"
                check(hist[-1][2] == want, "last %s sent is for %d, %d packets were received", hist[-1][1], hist[-1][2], s["acc"])
                if kind == "NAK":
                    check(any(n == "NAK" and q == want for _, n, q in hist), "no NAK %d after an out-of-sequence packet", want)
                else:
                    check(hist[-1][1] == "ACK", "NAK %d without anything out of sequence", want)
            check([x % 65536 for x in range(s["acc"])] == got, "packets delivered %r", got[-8:])
            check(seqs == [x % M for x in range(s["tx"])], "sequence numbers sent %r", seqs[-8:])
            left = kept(p)
            check(left is None or len(left) == s["tx"] - s["ackd"], "%d packets kept for replay, %d sent and %d acknowledged", len(left or ()), s["tx"], s["ackd"])

        async def send(n):
            for _ in range(n):
                k = dict(c["kinds"][s["tx"] % len(c["kinds"])])
                s["tx"] += 1
                await p.send(tlpgen.build(k))
        for _ in range(c["pre"]):
            await push(s["acc"], s["acc"])
            s["acc"] += 1
            if s["acc"] % 200 == 0:
                await settle()
        for _ in range(c["pretx"] // 500 + 1):
            n = min(500, c["pretx"] - s["tx"])
            await send(n)
            await settle()
            if n:
                s["ackd"] = s["tx"]
                await p.ext_recv(lb.dllp("ACK", seq=(s["tx"] - 1) % M))
        for o in c["ops"]:
            if o[0] == "in":
                for _ in range(o[1]):
                    await push(s["acc"], s["acc"])
                    s["acc"] += 1
            elif o[0] == "dup":
                if s["acc"]:
                    n, nn = len(hist), s["dups"]
                    await push(s["acc"] - min(o[1], s["acc"]), 50000)
                    s["dups"] += 1
                    await Timer(6 * unit + 1000, "step")
                    check(len(hist) > n, "duplicate packet not acknowledged")
            elif o[0] == "gap":
                first = s["acc"] not in oos
                n = sum(1 for h in hist if h[1] == "NAK")
                oos.add(s["acc"])
                await push(s["acc"] + o[1], 60000)
                s["gaps"] += 1
                if first:
                    await Timer(6 * unit + 1000, "step")
                    check(sum(1 for h in hist if h[1] == "NAK") == n + 1, "out-of-sequence packet caused %d NAKs", sum(1 for h in hist if h[1] == "NAK") - n)
                else:
                    await Timer(6 * unit + 1000, "step")
                    check(sum(1 for h in hist if h[1] == "NAK") == n, "another NAK before anything was received")
            elif o[0] == "wait":
                await Timer(o[1], "ns")
            elif o[0] == "tx":
                await send(o[1])
            elif o[0] == "ack":
                # only for packets that are out
                out = len(seqs) - s["ackd"]
                n = o[1] % (out + 1)
                s["ackd"] += n
                s["acks"] += n
                await p.ext_recv(lb.dllp("ACK", seq=(s["ackd"] - 1) % M))
            elif o[0] == "odd":
                # acknowledgement of a packet not sent yet or long acknowledged
                while len(seqs) < s["tx"]:
                    await Timer(unit, "step")
                if o[2]:
                    seq = s["tx"] - 1 + o[3]
                else:
                    seq = s["ackd"] - 1 - o[3]
                s["odd"] += 1
                await p.ext_recv(lb.dllp("NAK" if o[1] else "ACK", seq=seq % M))
            else:
                await settle()
        await settle()
        left = kept(p)
        check(left is None or left == [x % M for x in range(s["ackd"], s["tx"])], "packets kept for replay: %r", left)
    simcore.run(main, max_time_ns=20_000_000, max_events=3_000_000)
    ctx.nontrivial(s["dups"] + s["gaps"] > 0 or s["acks"] > 0 and s["odd"] > 0)
    ctx.label("%s%s%s%s" % ("dup " if s["dups"] else "", "gap " if s["gaps"] else "", "odd " if s["odd"] else "", "wrap" if max(s["acc"], s["tx"]) > M else ""))


PARTS = [Part("acknak", case, run, 700, 20000, "histories of in-sequence, duplicate and out-of-sequence packets, own packets, and acknowledgements (valid, stale, premature), also around wrap; non-trivial with a duplicate, a gap, or both valid and odd acknowledgements")]
