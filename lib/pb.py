"""Minimal protobuf wire decoder for the files the model checker writes (proto/graph.proto)."""
import struct


def varint(b, i):
    r = s = 0
    while True:
        c = b[i]; i += 1
        r |= (c & 127) << s
        if c < 128: return r, i
        s += 7


def fields(b):
    i, n = 0, len(b)
    while i < n:
        k, i = varint(b, i)
        f, w = k >> 3, k & 7
        if w == 0:
            v, i = varint(b, i)
            if v >= 1 << 63: v -= 1 << 64
        elif w == 1:
            v = struct.unpack("<d", b[i:i + 8])[0]; i += 8
        elif w == 2:
            l, i = varint(b, i); v = b[i:i + l]; i += l
        elif w == 5:
            v = struct.unpack("<f", b[i:i + 4])[0]; i += 4
        else:
            raise ValueError("wire type %d" % w)
        yield f, v


def nodes(b):
    return [v.decode() for f, v in fields(b) if f == 1]


def namevalue(b):
    d = {1: "", 2: ""}
    for f, v in fields(b): d[f] = v.decode()
    return d[1], d[2]


def message(b):
    m = {"sender": "", "receivers": [], "name": "", "values": [], "is_return": False, "lossy": False}
    for f, v in fields(b):
        if f == 1: m["sender"] = v.decode()
        elif f == 2: m["receivers"].append(v.decode())
        elif f == 3: m["name"] = v.decode()
        elif f == 4: m["values"].append(namevalue(v))
        elif f == 5: m["is_return"] = bool(v)
        elif f == 6: m["lossy"] = bool(v)
    return m


def link(b):
    l = {"src": 0, "dest": 0, "name": "", "labels": [], "weight": 0.0, "messages": [], "req_id": 0,
         "threads": {}, "type": "", "returns": {}}
    for f, v in fields(b):
        if f == 1: l["src"] = v
        elif f == 2: l["dest"] = v
        elif f == 3: l["name"] = v.decode()
        elif f == 4: l["labels"].append(v.decode())
        elif f == 5: l["weight"] = v
        elif f == 6: l["messages"].append(message(v))
        elif f == 7: l["req_id"] = v
        elif f == 8:
            d = {1: 0, 2: 0}
            for g, w in fields(v): d[g] = w
            l["threads"][d[1]] = d[2]
        elif f == 9: l["type"] = v.decode()
        elif f == 10:
            n, w = namevalue(v); l["returns"][n] = w
    return l


def links(b):
    total, ls = 0, []
    for f, v in fields(b):
        if f == 1: total = v
        elif f == 2: ls.append(link(v))
    return total, ls
