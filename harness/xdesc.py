"""UltraScale(+) descriptors, written from PG156/PG213."""
import tlpgen

REQ = {"MEM_READ": 0, "MEM_WRITE": 1, "IO_READ": 2, "IO_WRITE": 3, "FETCH_ADD": 4, "SWAP": 5, "CAS": 6, "MEM_READ_LOCKED": 7,
       "CFG_READ_0": 8, "CFG_READ_1": 9, "CFG_WRITE_0": 10, "CFG_WRITE_1": 11}


def base(name):
    return name[:-3] if name.endswith("_64") else name


def parity(dw):
    return sum((1 ^ bin(dw >> 8 * i & 0xff).count("1") & 1) << i for i in range(4))


def spec(i, c):
    """Descriptor dwords of interface i, from the product guides (PG156/PG213)."""
    name = c["kind"]
    x = c["us"]
    tail = c["tc"] << 25 | c["attr"] << 28
    if i in ("cq", "rq"):
        r = REQ[base(name)]
        if name in tlpgen.CFG:
            d = [c["address"], 0]
        else:
            d = [c["address"] & 0xfffffffc | c["at"], c["address"] >> 32]
        d.append(c["length"] | r << 11 | c["requester_id"] << 16)
        if i == "cq":
            d.append(c["tag"] | x["fn"] << 8 | x["bar"] << 16 | x["aperture"] << 19 | tail)
        else:
            d[2] |= int(c["ep"]) << 15
            d.append(c["tag"] | c["completer_id"] << 8 | int(x["en"]) << 24 | tail)
        return d
    locked = int("LOCKED" in name) << 29
    d1 = c["length"] | c["status"] << 11 | int(c["ep"]) << 14 | c["requester_id"] << 16
    d2 = c["tag"] | c["completer_id"] << 8 | tail
    if i == "cc":
        return [c["lower_address"] | c["at"] << 8 | c["byte_count"] << 16 | locked, d1, d2 | int(x["en"]) << 24]
    return [x["la"] | x["err"] << 12 | c["byte_count"] << 16 | locked | int(x["done"]) << 30, d1, d2]


def enables(i, c, ndw):
    """Byte enables of the payload dwords."""
    if i == "cq":
        if ndw == 0:
            return []
        return [c["first_be"]] + [15] * (ndw - 2) + ([c["last_be"]] if ndw > 1 else [])
    off = c["us"]["la"] & 3
    valid = range(off, min(off + c["byte_count"], 4 * ndw))
    return [sum(1 << b for b in range(4) if 4 * k + b in valid) for k in range(ndw)]
