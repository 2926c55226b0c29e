"""Builders of the bytes a peer may send (the environment of the specification)."""
import random


def le(v, n):
    return [(v >> (8 * i)) & 0xFF for i in range(n)]


def be(v, n):
    return le(v, n)[::-1]


def encaps(cmd, handle, data, status=0, length=None, ctx=None, opt=0):
    h = handle if isinstance(handle, list) else le(handle, 4)
    st = status if isinstance(status, list) else le(status, 4)
    n = len(data) if length is None else length
    return le(cmd, 2) + le(n, 2) + h + st + (ctx or [0] * 8) + le(opt, 4) + list(data)


def item(t, data, length=None):
    return le(t, 2) + le(len(data) if length is None else length, 2) + list(data)


def cpf(items, count=None):
    out = le(len(items) if count is None else count, 2)
    for it in items:
        out += it if isinstance(it, list) else item(*it)
    return out


def mrresp(svc, status, data=(), add=(), reserved=0, addlen=None):
    out = [svc & 0xFF, reserved, status, len(add) if addlen is None else addlen]
    for a in add:
        out += le(a, 2)
    return out + list(data)


def rr(handle, cpfbytes, **kw):
    return encaps(0x6F, handle, [0] * 6 + list(cpfbytes), **kw)


def reply(handle, svc, status=0, data=(), add=(), extra=(), **kw):
    """A SendRRData reply carrying a message router response."""
    return rr(handle, cpf([(0, []), (0xB2, mrresp((svc | 0x80), status, data, add))] + list(extra)), **kw)


def reg(handle, **kw):
    return encaps(0x65, handle, [1, 0, 0, 0], **kw)


def sockaddr(ip, port, family=2):
    return be(family, 2) + be(port, 2) + list(ip) + [0] * 8


def foresp(o2t, t2o, serial=1, vendor=0, oserial=0, o2tapi=10000, t2oapi=10000, app=(), appsize=None):
    n = len(app) // 2 if appsize is None else appsize
    q = lambda v, k: v if isinstance(v, list) else le(v, k)
    return q(o2t, 4) + q(t2o, 4) + q(serial, 2) + q(vendor, 2) + q(oserial, 4) + q(o2tapi, 4) + q(t2oapi, 4) + [n, 0] + list(app)


def chunks(rng, b, mode):
    """Cuts a byte list into stream elements."""
    if mode == "one":
        return [{"d": b}]
    if mode == "hdr":
        return [{"d": b[:24]}, {"d": b[24:]}]
    if mode == "bytes":
        return [{"d": [x]} for x in b]
    out, i = [], 0
    while i < len(b):
        n = rng.choice([1, 2, 3, 5, 8, 13, 24, 30, 100])
        out.append({"d": b[i:i + n]})
        i += n
    return out
