"""Script generators: each family exercises the properties it is listed under in
campaigns.py. A script is the environment's half of a behaviour of System.tla: the
calls of the user, the bytes of the peer, the datagrams of the network, the clock.
What the library must do in response is only in the specification."""
import random
import struct
from eip import *

FAMS = {}


def fam(f):
    FAMS[f.__name__] = f
    return f


class Sc:
    """One script under construction."""

    def __init__(self, rng, fam_, **kw):
        self.rng = rng
        self.d = {"fam": fam_, "rnd": rng.choice([0, 1, 0x0101, 0x7fffffff, rng.getrandbits(31)]), "ops": []}
        if rng.random() < .3:                     # the clock just before it outgrows some representation
            edge = rng.choice([2 ** 31, 2 ** 32, 2 ** 31 * 1000, 2 ** 32 * 1000, 2 ** 31 * 10 ** 6, 2 ** 32 * 10 ** 6,
                               2 ** 31 // 1000, 2 ** 32 // 1000, 2 ** 53 // 1000, 20000])
            self.d["clk"] = edge - rng.choice([1, 100, 5000, rng.randrange(1, 20000), rng.randrange(1, 20000)])
        self.d.update(kw)
        self.h = {}
        self.nc = 0
        self.ns = 0

    def op(self, op, **kw):
        o = {"op": op}
        o.update(kw)
        self.d["ops"].append(o)
        return o

    def session(self, host=None, port=None, to=None, mode=None, **kw):
        r = self.rng
        s = self.ns
        self.ns += 1
        ip = [r.choice([10, 127, 172, 192, 224, 255 - 32]), r.randrange(256), r.randrange(256), r.randrange(1, 255)]
        h = handle(r)
        self.h[s] = h
        a = dict(s=s, host=".".join(map(str, ip)), ip=ip, port=port or r.choice([44818, 44818, 2222, 1, 65535, 40000]))
        if to:
            a["to"] = to
        a["rx"] = [chunks(r, reg(h), mode or "one")]
        a.update(kw)
        self.op("sess", **a)
        return s

    def done(self):
        return self.d


def waits(r, ms):
    """how long to wait for packets: seldom very long"""
    return r.choice(ms) if r.random() < .98 else r.choice([255, 256, 999, 1000, 1001, 4999, 30001, 32768, 60001, 65536, 100000, 3600000])


def handle(r):
    return r.choice([le(1, 4), le(0x80000000, 4), le(0xffffffff, 4), le(r.randrange(1, 2 ** 32), 4),
                     le(r.randrange(1, 2 ** 32), 4), le(r.randrange(1, 256), 4), le(0x100, 4)])


def rbytes(r, n):
    m = r.randrange(3)
    if m == 0:
        return [r.randrange(256) for _ in range(n)]
    if m == 1:
        return [r.choice([0, 1, 127, 128, 255]) for _ in range(n)]
    return [i % 256 for i in range(n)]


def err(r):
    """a general status that is no success"""
    return r.choice([1, 2, 5, 6, 8, 0x0b, 0x10, 0x14, 0x16, 0x1e, 0x20, 0x26, 0xd0, 0xff, r.randrange(1, 256), r.randrange(1, 256)])


def id16(r):
    return r.choice([0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x101, 0x7fff, 0x8000, 0xffff, r.randrange(65536), r.randrange(256)])


def rpath(r, eight=False):
    n = r.choice([1, 2, 2, 3, 3])
    p = [id16(r) for _ in range(n)]
    if eight and r.random() < .85:
        p = [x % 256 for x in p]
    return p


def ritems(r, big=False):
    return [{"t": r.choice([0x8000, 0x8001, 0, 0xB1, 0x8002, 0x0C]), "d": rbytes(r, r.choice([0, 1, 2, 4, 16, 40]))}
            for _ in range(r.choice([0, 0, 1, 2, 3]))]


def rdata(r):
    return rbytes(r, r.choice([0, 1, 2, 3, 4, 8, 30, 100, r.randrange(0, 200)]))


BIG = [255, 256, 4096, 8192, 32763, 32764, 32765, 33000, 65000, 65515]
SVCS = [1, 2, 4, 5, 8, 9, 0x0a, 0x0d, 0x0e, 0x10, 0x18, 0x4b, 0x4c, 0x4f, 0x7f, 0]


def mr(sc, s, rx=None, **kw):
    """a random explicit request; rx: reply elements or a function of the service"""
    r = sc.rng
    rt = kw.pop("r", r.choice(["std", "std", "8", "yas"]))
    a = dict(s=s, r=rt, svc=r.choice(SVCS + [r.randrange(128)]), path=rpath(r, rt != "std"), data=rdata(r), items=ritems(r),
             form=r.choice([3, 4, 5, 5]))
    if rt == "yas":
        a["path"] = [x % 256 for x in a["path"]]
    a.update(kw)
    if rx is None:
        rx = chunks(r, good(sc, s, a["svc"]), r.choice(["one", "hdr", "random"]))
    elif callable(rx):
        rx = rx(a["svc"])
    return sc.op("mr", rx=[rx], **a)


def good(sc, s, svc, **kw):
    r = sc.rng
    st = kw.pop("status_", None)
    if st is None:
        st = r.choice([0, 0, 0, err(r), err(r), err(r), err(r)])
    add = kw.pop("add", [id16(r) for _ in range(r.choice([0, 0, 1, 2, 5]))])
    data = kw.pop("data", None)
    if data is None:
        data = rdata(r)
    extra = kw.pop("extra", [item(x["t"], x["d"]) for x in ritems(r)])
    return reply(sc.h[s], svc, status=st, data=data, add=add, extra=extra, **kw)


def ok(sc, s, svc, data, mode="one"):
    return chunks(sc.rng, reply(sc.h[s], svc, data=data), mode)


# ---------------------------------------------------------------- P01 sessions
@fam
def sess(r, i):
    sc = Sc(r, "sess")
    k = i % 8
    if k == 0:                                    # plain life
        s = sc.session(to=r.choice([None, 1, 5, 999, 1000, 1001, 2500, 5000, 60000]))
        for _ in range(r.randrange(3)):
            mr(sc, s)
        if r.random() < .3:
            mr(sc, s, rx=[{"k": "tmo"}])
        if r.random() < .7:
            sc.op("unsess", s=s)
            sc.op("unsess", s=s)
    elif k == 1:                                  # several, interleaved
        ss = [sc.session() for _ in range(r.randrange(2, 5))]
        for _ in range(r.randrange(2, 8)):
            mr(sc, r.choice(ss))
        r.shuffle(ss)
        for s in ss[:r.randrange(len(ss) + 1)]:
            sc.op("unsess", s=s)
        for s in ss[len(ss):]:
            mr(sc, s)
        if r.random() < .5:
            mr(sc, sc.session())
    elif k == 2:                                  # connection attempts
        sc.session(conn=r.choice(["inprog", "refused", "inprog-refused", "timeout", "timeout"]), to=r.choice([None, 1, 50, 1500, 999, 1001, 5000, 20000, 60000]))
        s = sc.session(conn=r.choice(["ok", "inprog"]))
        mr(sc, s)
    elif k == 3:                                  # registration answered in pieces
        s = sc.session(mode=r.choice(["bytes", "hdr", "random"]))
        mr(sc, s)
    elif k == 4:                                  # registration refused
        h = handle(r)
        st = r.choice([1, 2, 3, 0x64, 0x65, 0x69, 0x80000000, 0x10000])
        s = sc.session(rx=[chunks(r, encaps(0x65, r.choice([h, [0] * 4]), [1, 0, 0, 0], status=st), "random")])
        s2 = sc.session()
        mr(sc, s2)
    elif k == 5:                                  # registration not answered properly
        h = handle(r)
        full = reg(h)
        n = r.randrange(0, len(full))
        cut = ([{"d": full[:n]}] if n else []) + [{"k": r.choice(["eof", "rst", "tmo"])}]
        sc.session(rx=[cut], to=r.choice([None, 10, 300, 2500, 10000]))
        s2 = sc.session()
        mr(sc, s2)
    elif k == 6:                                  # unregistering on a dead connection
        s = sc.session()
        mr(sc, s, rx=[{"k": r.choice(["eof", "rst"])}])
        if r.random() < .5:
            sc.op("unsess", s=s)
        else:
            sc.op("unsess", s=s, tx=[{"k": "fail", "after": r.choice([0, 5, 23])}])
        s2 = sc.session()
        mr(sc, s2)
    else:                                         # many in sequence, some left for the end
        for _ in range(r.randrange(3, 7)):
            s = sc.session()
            if r.random() < .5:
                mr(sc, s)
            if r.random() < .6:
                sc.op("unsess", s=s)
    return sc.done()


# ---------------------------------------------------------------- P02 the stream
@fam
def seg(r, i):
    sc = Sc(r, "seg")
    k = i % 9
    s = sc.session(to=r.choice([None, 20, 1234] + ([1999, 2500, 5000, 10000, 60000] if k == 6 else [])))
    if k in (0, 1):
        for _ in range(3):
            mode = r.choice(["bytes", "hdr", "random", "one"])
            mr(sc, s, rx=lambda v: chunks(r, good(sc, s, v), mode))
    elif k == 2:                                  # every two-part cut
        for _ in range(4):
            def two(v):
                b = good(sc, s, v)
                n = r.choice([1, 23, 24, 25, len(b) - 1, r.randrange(1, len(b))])
                return [{"d": b[:n]}, {"d": b[n:]}]
            mr(sc, s, rx=two)
    elif k == 3:                                  # interrupted receptions
        def intr(v):
            out = []
            for c in chunks(r, good(sc, s, v), "random"):
                while r.random() < .4:
                    out.append({"k": "eintr"})
                out.append(c)
            return out
        for _ in range(3):
            mr(sc, s, rx=intr)
    elif k == 4:                                  # large replies
        n = r.choice([505, 1000, 4096, 8000, 20000, 30000, 32740, 40000, 65480])
        mr(sc, s, rx=lambda v: [{"d": c["d"]} for c in cutn(good(sc, s, v, data=rbytes(r, n), extra=[]), r.choice([536, 1448, 1460, 4096, 65536]))])
        mr(sc, s)
    elif k == 5:                                  # the peer goes away in the middle
        mr(sc, s)

        def cut(v):
            b = good(sc, s, v)
            n = r.choice([0, 1, 23, 24, 25, len(b) - 1, r.randrange(len(b))])
            return ([{"d": b[:n]}] if n else []) + [{"k": r.choice(["eof", "rst"])}]
        mr(sc, s, rx=cut)
        s2 = sc.session()
        mr(sc, s2)
        if r.random() < .5:
            mr(sc, s, rx=[])
    elif k == 6:                                  # ... or falls silent
        def mute(v):
            b = good(sc, s, v)
            n = r.choice([0, 1, 23, 24, 25, len(b) - 1, r.randrange(len(b))])
            return ([{"d": b[:n]}] if n else []) + ([{"k": "tmo"}] if r.random() < .7 else [])
        mr(sc, s, rx=mute)
        s2 = sc.session()
        mr(sc, s2)
    elif k == 7:                                  # sending in pieces
        for _ in range(3):
            t = r.choice([{"k": "ok", "chunk": r.choice([1, 2, 7, 23, 24, 25, 40])},
                          {"k": "eintr", "after": r.choice([0, 1, 10, 24, 30])}])
            mr(sc, s, tx=[t])
    else:                                         # sending fails
        mr(sc, s)
        mr(sc, s, tx=[{"k": "fail", "after": r.choice([0, 0, 1, 10, 24, 30]), "errno": r.choice([32, 104, 11, 110])}], rx=[])
        sc.op("unsess", s=s)
        s2 = sc.session()
        mr(sc, s2)
    return sc.done()


def cutn(b, n):
    return [{"d": b[i:i + n]} for i in range(0, len(b), n)]


# ---------------------------------------------------------------- P03 bad replies
def badreply(r, sc, s, v):
    """a complete packet which must be refused"""
    h = sc.h[s]
    k = r.randrange(4)
    if k == 0:
        b = good(sc, s, v)
        return b[:8] + le(r.choice([1, 2, 3, 0x64, 0x65, 0x69, 0x100, 0x10000, 0x1000000, 0x80000000, 0xffffffff]), 4) + b[12:]
    if k == 1:                                    # a foreign handle
        f = list(h)
        j = r.randrange(4)
        f[j] ^= r.choice([1, 0x80, 0xff])
        return rr(f, cpf([(0, []), (0xB2, mrresp(v | 0x80, 0, rdata(r)))]))
    if k == 2:
        return rr([0, 0, 0, 0], cpf([(0, []), (0xB2, mrresp(v | 0x80, 0, rdata(r)))]))
    return encaps(0x6F, h, [], status=r.choice([1, 2, 3]))


@fam
def badst(r, i):
    sc = Sc(r, "badst")
    s = sc.session()
    s2 = sc.session() if i % 3 == 0 else None
    for j in range(r.randrange(2, 6)):
        if r.random() < .5:
            mr(sc, s, rx=lambda v: chunks(r, badreply(r, sc, s, v), r.choice(["one", "random"])))
        elif r.random() < .3:
            h = sc.h[s]
            cmd = r.choice([0x6F, 0x63, 4, 0x64])
            st = r.choice([0, 0, 1, 0x69, 0x80000000])
            hh = r.choice([h, h, le(7, 4)])
            sc.op("raw", s=s, cmd=cmd, h=r.choice([h, [0] * 4]), st=[0] * 4, data=rdata(r),
                  rx=[chunks(r, encaps(cmd, hh, rdata(r), status=st), "one")])
        elif s2 is not None and r.random() < .5:  # the answer for the other session
            mr(sc, s, rx=lambda v: [{"d": good(sc, s2, v)}])
        else:
            mr(sc, r.choice([s, s if s2 is None else s2]))
    return sc.done()


@fam
def late(r, i):
    """A reply that comes after the receive timeout, then another request."""
    sc = Sc(r, "late")
    s = sc.session(to=50)
    first = good(sc, s, 0x0e, status_=0, add=[], extra=[], data=[1, 1, 1, 1])
    mr(sc, s, r="std", svc=0x0e, path=[4, 100, 3], form=3, data=[], items=[], rx=[{"k": "tmo"}, {"d": first}])
    second = good(sc, s, 0x0e, status_=0, add=[], extra=[], data=[2, 2, 2, 2])
    mr(sc, s, r="std", svc=0x0e, path=[4, 101, 3], form=3, data=[], items=[], rx=[{"d": second}])
    return sc.done()


# ---------------------------------------------------------------- P04 requests
@fam
def req(r, i):
    sc = Sc(r, "req")
    s = sc.session()
    s2 = sc.session() if i % 4 == 0 else s
    for _ in range(r.randrange(3, 7)):
        t = r.choice([s, s2])
        if r.random() < .15:
            h = r.choice([sc.h[t], handle(r), [0] * 4])
            cmd = r.choice([0, 4, 0x63, 0x64, 0x6F, 0x70, 0x72])
            sc.op("raw", s=t, cmd=cmd, h=h, st=r.choice([[0] * 4, le(1, 4), le(0x69, 4)]), data=rdata(r),
                  rx=[chunks(r, encaps(cmd, sc.h[t], rdata(r)), "one")])
        elif r.random() < .1:
            mr(sc, t, data=rbytes(r, r.choice([500, 1000, 5000, 20000] + ([32760, 33000, 50000, 65400] if r.random() < .2 else []))), form=5, items=[])
        elif r.random() < .1:
            mr(sc, t, form=5, items=[{"t": r.choice([0x8000, 0xB1, 0xffff]), "d": rbytes(r, r.choice([0, 300, 1000]))} for _ in range(r.randrange(1, 6))])
        else:
            mr(sc, t)
    return sc.done()


# ---------------------------------------------------------------- P05 responses
def malformed(r, h, v):
    """reply packets whose content does not parse (or that a peer should not send)"""
    k = r.randrange(10)
    body = mrresp(v | 0x80, 0, rdata(r), [1, 2])
    if k == 0:
        return rr(h, cpf([(0, []), (0xB2, body)])[:r.randrange(0, 14)])
    if k == 1:
        return rr(h, cpf([(0, [])]))
    if k == 2:
        return rr(h, cpf([]))
    if k == 3:
        return encaps(0x6F, h, [0] * r.randrange(0, 7))
    if k == 4:
        return rr(h, cpf([(0, []), (0xB2, body[:r.randrange(0, 8)])]))
    if k == 5:
        return rr(h, cpf([(0, []), (0xB2, mrresp(v | 0x80, 0, [], [1], addlen=r.choice([2, 3, 127, 255])))]))
    if k == 6:
        return rr(h, cpf([item(0, []), item(0xB2, body, length=len(body) + r.choice([1, 2, 100, 60000]))]))
    if k == 7:
        return rr(h, cpf([item(0, [], length=r.choice([1, 4, 200, 65535])), item(0xB2, body)]))
    if k == 8:
        return rr(h, cpf([(0, []), (0xB2, body)], count=r.choice([0, 1, 3, 255, 65535])))
    return rr(h, cpf([(0, []), (0xB2, body)]) + [9] * r.randrange(1, 5))


@fam
def resp(r, i):
    sc = Sc(r, "resp")
    s = sc.session()
    for _ in range(r.randrange(3, 7)):
        k = r.random()
        if k < .55:
            mr(sc, s, log=r.choice([0, 0, 1]))
        elif k < .59:                             # a service code without the bit of responses, or another
            mr(sc, s, rx=lambda v: [{"d": rr(sc.h[s], cpf([(0, []), (0xB2, mrresp(r.choice([v, 0, 0x7F, 0x80, 0xFF, r.randrange(256)]), r.choice([0, 0, 1, 6]), rdata(r), [id16(r)] * r.randrange(3), reserved=r.choice([0, 1, 0x80, 0xFF])))]))}])
        elif k < .65:
            mr(sc, s, rx=lambda v: [{"d": good(sc, s, v, status_=r.choice([0, err(r), 6]), add=[id16(r) for _ in range(r.choice([1, 2, 20, 127, 255]))])}])
        elif k < .73:
            mr(sc, s, rx=lambda v: [{"d": good(sc, s, v, extra=[item(r.choice([0x8000, 0x8001, 0x7777]), rdata(r) if r.random() < .9 else []) for _ in range(r.randrange(1, 5) if r.random() < .95 else 256)])}])
        elif k < .755:                            # items up to the largest that fits a packet
            mr(sc, s, rx=lambda v: [{"d": good(sc, s, v, add=[], extra=[], data=rbytes(r, r.choice(BIG)))}])
        else:
            mr(sc, s, rx=lambda v: [{"d": malformed(r, sc.h[s], v)}])
    return sc.done()


# ---------------------------------------------------------------- mutations (P06)
def mutate(r, b):
    b = list(b)
    for _ in range(r.choice([1, 1, 2, 4])):
        k = r.randrange(5)
        if not b:
            return rbytes(r, r.randrange(1, 40))
        if k == 0:
            b[r.randrange(len(b))] = r.choice([0, 1, 0x7f, 0x80, 0xff, r.randrange(256)])
        elif k == 1:
            b = b[:r.randrange(len(b) + 1)]
        elif k == 2:
            j = r.randrange(len(b) + 1)
            b = b[:j] + rbytes(r, r.randrange(1, 8)) + b[j:]
        elif k == 3:
            j = r.randrange(len(b))
            del b[j:j + r.randrange(1, 8)]
        else:
            b[r.randrange(len(b))] ^= 1 << r.randrange(8)
    return b


def fixlen(b):
    """makes the length field of a packet match"""
    b = list(b) + [0] * (24 - len(b)) if len(b) < 24 else list(b)
    b[2:4] = le(min(len(b) - 24, 65535), 2)
    return b


def mutreply(r, b):
    """a mutated packet; mostly only behind the header, with the length kept right"""
    k = r.random()
    if k < .7:
        return fixlen(b[:24] + mutate(r, b[24:]))
    if k < .85:
        return fixlen(mutate(r, b))
    return mutate(r, b)


@fam
def hostile(r, i):
    """mutated answers to every kind of request"""
    sc = Sc(r, "hostile", log=r.choice(["off", "trace", "trace"]))
    k = i % 11
    if k == 0:
        sc.session(rx=[chunks(r, mutreply(r, reg(handle(r))), "one")])
        mr(sc, sc.session())
        return sc.done()
    s = sc.session()
    m = lambda b: chunks(r, mutreply(r, b), r.choice(["one", "random"]))
    g = lambda svc, d: reply(sc.h[s], svc, data=d)
    if k in (1, 2):
        mr(sc, s, rx=lambda v: m(good(sc, s, v)))
        mr(sc, s)
    elif k == 3:
        a = openargs(r, sc, s)
        a["rx"] = [[{"d": mutreply(r, openreply(r, sc, s, a)), "echo": []}]]
        sc.op("open", **a)
        sc.op("hasopen")
        sc.op("handle", to=r.choice([0, 5, 20]))
    elif k == 4:
        sc.op("ident", s=s, inst=1, rx=[m(g(1, identdata(r)))])
    elif k == 5:
        pa = paramargs(r, sc, s)
        n = len(pa["rx"])
        j = r.randrange(n)
        pa["rx"][j] = chunks(r, mutreply(r, flat(pa["rx"][j])), "one")
        sc.op("param", **pa)
    elif k == 6:
        fileops(r, sc, s, mut=lambda b: mutreply(r, b))
    elif k == 7:
        det = r.choice([0, 1])
        rx = dpirx(r, sc, s, r.randrange(1, 4), det)
        j = r.randrange(len(rx))
        rx[j] = chunks(r, mutreply(r, flat(rx[j])), "one")
        sc.op("dpi", s=s, clear=r.choice([0, 1]), details=det, rx=rx)
    elif k == 8:
        sc.op("dpiobj", s=s, inst=r.randrange(5), rx=[m(g(14, rbytes(r, r.choice([0, 1, 29, 30, 31]))))])
    elif k == 9:
        c = opened(r, sc, s)
        ds = []
        for j in range(r.randrange(3, 10)):
            b = iodg(r, sc, c)
            if r.random() < .8:
                b = mutate(r, b)
            ds.append({"at": j * 5, "b": b})
        sc.op("handle", to=50, dg=ds)
        sc.op("close", s=s, c=c, rx=[m(g(0x4e, [0] * 10))])
    else:
        sc.op("param", **paramargs(r, sc, s, p=1))
        sc.op("update", s=s, p=1, ty="u8", rx=[m(g(14, [1, 2, 3, 4]))])
        mr(sc, s)
    return sc.done()


def flat(rx):
    return [x for e in rx for x in e["d"]]


@fam
def fuzzdec(r, i):
    """mutated input of the decoders"""
    sc = Sc(r, "fuzzdec", log=r.choice(["off", "trace"]))
    for _ in range(12):
        k = r.randrange(7)
        if k == 0:
            sc.op("cpfx", b=mutate(r, cpf([(x["t"], x["d"]) for x in ritems(r)])))
        elif k == 1:
            sc.op("encx", b=mutate(r, encaps(r.choice([4, 0x63, 0x65, 0x6F]), handle(r), rdata(r))))
        elif k == 2:
            sc.op("mrx", b=mutate(r, mrresp(r.randrange(256), r.randrange(256), rdata(r), [1, 2, 3])))
        elif k == 3:
            sc.op("fox", b=mutate(r, foresp(rbytes(r, 4), rbytes(r, 4), app=rbytes(r, 2 * r.randrange(4)))))
        elif k == 4:
            sc.op("epathx", b=mutate(r, rawpath(r)), yas=r.choice([0, 1]))
        elif k == 5:
            bufop(r, sc, hostile_=True)
        else:
            sc.op("cpfx", b=rbytes(r, r.randrange(0, 12)))
    return sc.done()


# ---------------------------------------------------------------- Forward Open (P07)
def ncp(r, large, size, ty=None, fix=None, prio=None, red=None):
    ty = r.choice([1, 2, 2]) if ty is None else ty
    fix = r.choice([0, 1]) if fix is None else fix          # bit: 0 fixed, 1 variable
    prio = r.randrange(4) if prio is None else prio
    red = r.choice([0, 0, 1]) if red is None else red
    flags = red * 0x8000 + ty * 0x2000 + prio * 0x400 + fix * 0x200
    return le(size + flags * 65536, 4) if large else le((size % 512) + flags, 2) + [0, 0]


def openparams(r, large=False, **kw):
    trig = kw.pop("trig", r.choice([0, 1, 1, 0x21, 0xA3, 0x80, 2, 3]))
    o2trt = kw.pop("o2tRT", r.choice([0, 0, 1]))
    t2ort = kw.pop("t2oRT", r.choice([0, 0, 1]))
    size = lambda: r.choice([0, 1, 2, 4, 8, 30, 32, 100, 505 - 6, r.randrange(0, 500)] + ([600, 4000, 65000] if large else []))
    o2ts = kw.pop("o2ts", None)
    t2os = kw.pop("t2os", None)
    p = dict(prio=r.randrange(256), ticks=r.randrange(256),
             o2tId=handle(r), t2oId=handle(r), vendor=r.choice([0, 1, 342, 65535]), oserial=handle(r),
             mult=kw.pop("mult", r.choice([0, 0, 1, 2, 3, 7])), o2tRPI=le(r.choice([1000, 10000, 100000, 2 ** 31, 500]), 4),
             t2oRPI=le(r.choice([1000, 10000, 100000, 2 ** 31, 500]), 4),
             o2tP=ncp(r, large, size() if o2ts is None else o2ts, ty=kw.pop("o2tTy", None), fix=kw.pop("o2tFix", None)),
             t2oP=ncp(r, large, size() if t2os is None else t2os, ty=kw.pop("t2oTy", None), fix=kw.pop("t2oFix", None)),
             trig=trig, o2tRT=o2trt, t2oRT=t2ort, path=rbytes(r, r.choice([0, 2, 4, 6, 8, 12, 20, 60, 254] if r.random() < .1 else [0, 2, 4, 6, 8, 12, 20])))
    if r.random() < .15:                      # fields left at their defaults
        for f in r.sample(sorted(p), r.randrange(1, 5)):
            if f not in ("o2tP", "t2oP", "trig"):
                del p[f]
    p.update(kw)
    return p


def openargs(r, sc, s, large=None, **kw):
    large = r.choice([0, 0, 1]) if large is None else large
    c = sc.nc
    sc.nc += 1
    a = dict(s=s, c=c, large=large, p=openparams(r, large, **kw))
    if large and r.random() < .3:
        a["via"] = "flag"
    return a


def apiof(r):
    return r.choice([100, 200, 1000, 5000, 10000, 10100, 20000, 25000, 100000, 1000000])


def openreply(r, sc, s, a, o2tapi=None, t2oapi=None, o2t=None, t2o=None, items=None, status=0, data=None, serial=None, **kw):
    """remembers in sc.conn[c] what the peer said; the T->O id the originator chose is echoed unless given"""
    p = a["p"]
    o2t = o2t or handle(r)
    d = dict(o2t=o2t, t2o=t2o or handle(r), a=a, s=s, seq=r.choice([0, 0, 0, 65533, 32766, r.randrange(65536)]))
    d["o2tapi"] = apiof(r) if o2tapi is None else o2tapi
    d["t2oapi"] = apiof(r) if t2oapi is None else t2oapi
    if not hasattr(sc, "conn"):
        sc.conn = {}
    sc.conn[a["c"]] = d
    odd = r.random() < .05                        # a device that does not echo who opened the connection
    resp_ = foresp(o2t, d["t2o"], serial=0 if serial is None else serial, vendor=id16(r) if odd else p.get("vendor", 0),
                   oserial=rbytes(r, 4) if odd else p.get("oserial", [0] * 4),
                   o2tapi=d["o2tapi"], t2oapi=d["t2oapi"], app=rbytes(r, 2 * r.choice([0, 0, 1, 3])))
    if items is None:
        items = openitems(r)
    return reply(sc.h[s], 0x5B if a.get("large") else 0x54, status=status, data=resp_ if data is None else data,
                 add=kw.get("add", ()), extra=items)


def openitems(r):
    its = []
    k = r.randrange(6)
    if k == 1:
        its.append(item(0x8000, sockaddr([192, 168, 1, r.randrange(1, 255)], r.choice([2222, 2223, 44818, 65535]))))
    if k == 2:
        its.append(item(0x8000, sockaddr([0, 0, 0, 0], r.choice([2222, 60000]))))
    if k == 3:
        its.append(item(0x8001, sockaddr([239, 192, 1, 4], 2222)))
    if k == 4:
        its += [item(0x8001, sockaddr([239, 192, 1, 4], 2222)), item(0x8000, sockaddr([10, 1, 2, r.randrange(1, 255)], 2222))]
    return its


# offsets of the serial number: in the reply, and in the request
def serecho(eight):
    return [[24 + 6 + 2 + 4 + 4 + 4 + 8, 24 + 6 + 2 + 4 + 4 + 2 + (4 if eight else 8) + 10, 2]]


def opened(r, sc, s, eight=False, **kw):
    """a connection that the peer accepts, its own serial number echoed"""
    rep = {k: kw.pop(k) for k in ("o2tapi", "t2oapi", "o2t", "t2o", "items") if k in kw}
    ex = {k: kw.pop(k) for k in ("nolisten", "lis") if k in kw}
    if "nolisten" not in ex and "lis" not in ex and r.random() < .12:      # some of the listeners only
        ex["lis"] = [k for k in ("recv", "send", "close") if r.random() < .5]
    a = openargs(r, sc, s, **kw)
    a.update(ex)
    b = openreply(r, sc, s, a, **rep)
    a["rx"] = [[{"d": b, "echo": serecho(eight)}]]
    sc.op("open", **a)
    return a["c"]


@fam
def fo(r, i):
    sc = Sc(r, "fo")
    k = i % 8
    eight = i % 5 == 4
    if eight or r.random() < .2:
        sc.op("mgr", r="8" if eight else "std")
    s = sc.session()
    if k in (0, 1, 2):
        for _ in range(r.randrange(1, 5) if r.random() < .93 else r.choice([12, 20])):
            opened(r, sc, s, eight=eight, **({"path": rbytes(r, r.choice([1, 3, 5, 7, 61]))} if r.random() < .1 else {}))
        sc.op("hasopen")
    elif k == 3:                                  # refused
        a = openargs(r, sc, s)
        a["rx"] = [[{"d": openreply(r, sc, s, a, status=err(r),
                                    add=[r.choice([0x100, 0x106, 0x107, 0x114, 0x315])] * r.randrange(0, 3),
                                    data=rbytes(r, r.choice([0, 2, 8, 10])))}]]
        sc.op("open", **a)
        sc.op("hasopen")
        opened(r, sc, s, eight=eight)
        sc.op("hasopen")
    elif k == 4:                                  # an id in use
        t = handle(r)
        opened(r, sc, s, eight=eight, t2o=t)
        opened(r, sc, s, eight=eight, t2o=t)
        opened(r, sc, s, eight=eight, t2o=le(r.randrange(1, 2 ** 32), 4))
        sc.op("hasopen")
    elif k == 5:                                  # too short an answer
        a = openargs(r, sc, s)
        full = foresp(handle(r), handle(r), app=rbytes(r, 6))
        a["rx"] = [[{"d": openreply(r, sc, s, a, data=full[:r.randrange(0, len(full))])}]]
        sc.op("open", **a)
        sc.op("hasopen")
        opened(r, sc, s, eight=eight)
    elif k == 6:                                  # two sessions
        s2 = sc.session()
        for _ in range(r.randrange(2, 5)):
            opened(r, sc, r.choice([s, s2]), eight=eight)
        sc.op("handle", to=r.choice([0, 3]))
    else:                                         # many refused ones first
        p = openparams(r, o2tTy=r.choice([1, 2]), t2oTy=r.choice([1, 2]))
        n = r.choice([3, 20, 40])
        sc.op("burn", s=s, n=n, large=0, p=p,
              rx=[[{"d": reply(sc.h[s], 0x54, status=1, add=[0x100], data=[0] * 8)}]] * n)
        for _ in range(2):
            opened(r, sc, s, eight=eight)
    return sc.done()


@fam
def foburn(r, i):
    """identifiers stay unique over hundreds of opens"""
    sc = Sc(r, "foburn", rnd=0x0101)
    s = sc.session()
    p = openparams(r, o2tTy=1, t2oTy=2, path=[1, 2])
    n = 300
    sc.op("burn", s=s, n=n, large=0, p=p, rx=[[{"d": reply(sc.h[s], 0x54, status=1, add=[0x100])}]] * n)
    opened(r, sc, s)
    return sc.done()


# ---------------------------------------------------------------- IO traffic (P08..P13)
def iobody(r, sc, c, n=None, seq=None):
    d = sc.conn[c]
    p, large = d["a"]["p"], d["a"].get("large")
    t = p.get("t2oP", [0] * 4)
    size = t[0] + 256 * t[1] if large else (t[0] + 256 * t[1]) % 512
    fixed = ((t[3] if large else t[1]) & 2) == 0
    b = []
    if p["trig"] % 4:
        d["seq"] = (d["seq"] + r.choice([1, 1, 1, 1, 1, 1, 0, 2, 65535])) % 65536 if seq is None else seq
        b += le(d["seq"], 2)
    if p.get("t2oRT"):
        b += r.choice([rbytes(r, 4), rbytes(r, 4), [0] * 4, [1, 0, 0, 0]])
    if n is None:
        n = size if fixed else r.choice([0, 1, 2, 5, 17])
    return b + rbytes(r, n), size, fixed


def iodg(r, sc, c, n=None, seq=None):
    b, _, _ = iobody(r, sc, c, n, seq)
    its = [(0x8002, sc.conn[c]["t2o"] + le(r.randrange(2 ** 32), 4)), (0xB1, b)]
    if r.random() < .03:                          # more items than the two that count
        its += [r.choice([(0x8001, sockaddr([10, 0, 0, 1], 2222)), (0xB1, rbytes(r, 3)), (0, [])])] * r.choice([1, 2])
    return cpf(its)


def smallio(r, **kw):
    d = dict(o2ts=r.choice([0, 1, 4, 8]), t2os=r.choice([0, 1, 2, 4, 8]), large=r.choice([0, 0, 1]))
    if r.random() < .04:
        d[r.choice(["o2ts", "t2os"])] = r.choice([100, 255, 256, 257, 400, 499])
    elif r.random() < .015:                       # sizes that only large connections have
        d["large"] = 1
        d[r.choice(["o2ts", "t2os"])] = r.choice([505, 600, 1490, 2050, 4100, 4100, 9000, 9000, 33000, 65480])
    d.update(kw)
    return d


def t2oids(r, n):
    """distinct ids that differ in little"""
    base = r.randrange(2 ** 32)
    out = []
    while len(out) < n:
        x = (base ^ (1 << r.randrange(32))) if out and r.random() < .6 else r.randrange(2 ** 32)
        if x not in out:
            out.append(x)
    return [le(x, 4) for x in out]


def howmany(r, few):
    """connections open at a time: few, and now and then many"""
    return few if r.random() < .95 else r.choice([9, 13, 17, 33, 66])


@fam
def route(r, i):
    """several connections, their datagrams interleaved"""
    sc = Sc(r, "route", cost=r.choice([0, 0, 1, 3]))
    eight = i % 7 == 6
    if eight:
        sc.op("mgr", r="8")
    s = sc.session()
    n = howmany(r, r.randrange(1, 5))
    cs = [opened(r, sc, s, eight=eight, t2o=t, t2oapi=r.choice([10000, 100000, 1000000]), o2tapi=r.choice([10000, 50000, 1000000]),
                 nolisten=r.choice([0, 0, 0, 0, 1]), **smallio(r)) for t in t2oids(r, n)]
    setdata(r, sc, cs)
    for _ in range(r.randrange(2, 6)):
        to = waits(r, [0, 1, 3, 5, 10, 20, 50])
        if r.random() < .3:
            sc.op("dg", dg=[{"at": r.randrange(3), "b": iodg(r, sc, r.choice(cs))} for _ in range(r.randrange(1, 4))])
            sc.op("adv", u=r.randrange(3, 30))
        ds = []
        top = 10 * to - 12 - 3 * 6
        for _ in range(r.randrange(0, 6)):
            at = r.randrange(0, top) if top > 0 and r.random() < .8 else 0
            if to == 0:
                at = 0
            x = r.random()
            c = r.choice(cs)
            if x < .75:
                b = iodg(r, sc, c)
            elif x < .85:
                b = wrongsize(r, sc, c)
            else:
                b = foreign(r, sc)
            ds.append({"at": at, "b": b})
        sc.op("handle", to=to, dg=ds)
        if r.random() < .1:
            relisten(r, sc, r.choice(cs))
        if r.random() < .15 and len(cs) > 1:
            c = cs.pop(r.randrange(len(cs)))
            closeop(r, sc, c)
    return sc.done()


def relisten(r, sc, c, where=None, kind=None):
    """another listener, or none"""
    sc.gens = getattr(sc, "gens", 1) + 1
    op = {"op": "relisten", "c": c, "k": kind or r.choice(["recv", "send", "close"]), "g": r.choice([sc.gens] * (3 if where is None else 15) + [0])}
    (sc.d["ops"] if where is None else where).append(op)


def setdata(r, sc, cs):
    for c in cs:
        d = sc.conn[c]
        p, large = d["a"]["p"], d["a"].get("large")
        w = p.get("o2tP", [0] * 4)
        size = w[0] + 256 * w[1] if large else (w[0] + 256 * w[1]) % 512
        fixed = ((w[3] if large else w[1]) & 2) == 0
        d["o2tsize"], d["o2tfixed"] = size, fixed
        if r.random() < .8:
            sc.op("setdata", c=c, b=rbytes(r, size if fixed and r.random() < .9 else r.choice([0, 1, 3, size])))


def wrongsize(r, sc, c):
    """a datagram whose data does not match the size (which a fixed size connection must drop)"""
    _, size, fixed = iobody(r, sc, c)
    n = r.choice([max(0, size - 1), size + 1, size + 2, 0, 2 * size + 1, size + 4])
    return iodg(r, sc, c, n)


def foreign(r, sc):
    """datagrams nobody is waiting for"""
    k = r.randrange(11)
    cs = sorted(sc.conn)
    c = r.choice(cs)
    t = sc.conn[c]["t2o"]
    b, _, _ = iobody(r, sc, c)
    if k == 0:
        return rbytes(r, r.choice([0, 1, 2, 3, 10, 40, 504]))
    if k == 1:
        u = list(t)
        if r.random() < .5:
            u[r.randrange(4)] ^= 1 << r.randrange(8)
        else:                                     # ids made of parts of this one
            u = r.choice([[0, 0] + t[2:], t[:2] + [0, 0], [0] * 4, [255] * 4, t[::-1], t[2:] + t[:2], [255, 255] + t[2:],
                          t[:3] + [0], [0] + t[1:], t[1:] + [0], le((int.from_bytes(t, "little") + r.choice([1, -1, 256, 65536])) % 2 ** 32, 4)])
        if any(u == sc.conn[x]["t2o"] for x in cs):
            return [1]
        return cpf([(0x8002, u + [0] * 4), (0xB1, b)])
    if k == 2:
        return cpf([(0x8002, t + [0] * 4)])
    if k == 3:
        return cpf([(0x8002, t[:r.randrange(4)]), (0xB1, b)])
    if k == 4:
        return cpf([(0x8002, t + [0] * 4), (0xB1, b)], count=r.choice([0, 1]))
    if k == 5:
        return cpf([item(0x8002, t + [0] * 4), item(0xB1, b, length=len(b) + r.choice([1, 2, 500, 65000]))])
    if k == 6:
        full = cpf([(0x8002, t + [0] * 4), (0xB1, b + [0])])
        return full[:r.randrange(len(full))]
    if k == 7:
        return cpf([(0x8002, sc.conn[c]["o2t"] + [0] * 4), (0xB1, b)]) if all(sc.conn[c]["o2t"] != sc.conn[x]["t2o"] for x in cs) else [0]
    if k == 8:
        return []
    if k == 9:
        return cpf([(0x8002, t + [0] * 4), (0xB1, b[:r.randrange(0, 7)])])
    return encaps(0x63, [0] * 4, rdata(r))


@fam
def fixsize(r, i):
    """fixed and variable sizes in both directions"""
    sc = Sc(r, "fixsize")
    s = sc.session()
    large = i % 3 == 2
    big = [700] if r.random() < .9 else [9000, 32768, 40000, 60000]
    c = opened(r, sc, s, large=int(large), o2tapi=1000, t2oapi=1000000, o2ts=r.choice([0, 1, 2, 8] + (big if large else [])),
               t2os=r.choice([0, 1, 2, 4, 6, 8] + (big if large else [])), o2tFix=r.choice([0, 0, 1]), t2oFix=r.choice([0, 0, 1]),
               nolisten=int(r.random() < .15))
    d = sc.conn[c]
    setdata(r, sc, [c])
    for _ in range(r.randrange(3, 8)):
        ds = []
        for j in range(r.randrange(0, 4)):
            x = r.random()
            b = iodg(r, sc, c) if x < .4 else wrongsize(r, sc, c) if x < .8 else iodg(r, sc, c, r.randrange(0, 12))
            ds.append({"at": 2 * j, "b": b})
        if r.random() < .5:
            sc.op("setdata", c=c, b=rbytes(r, max(0, d["o2tsize"] + r.choice([0, 0, 0, -1, 1, 2, -2, 6]))))
        if r.random() < .3:
            sc.op("on", c=c, k="send", do=[], set=[rbytes(r, max(0, d["o2tsize"] + r.choice([0, 0, -1, 1])))])
        sc.op("handle", to=r.choice([3, 5, 10]), dg=ds)
    return sc.done()


@fam
def watchdog(r, i):
    """silence, traffic and the watchdog at its edges"""
    sc = Sc(r, "watchdog", cost=r.choice([0, 0, 0, 1]))
    s = sc.session()
    n = howmany(r, r.choice([1, 1, 2, 3]))
    cs = []
    for t in t2oids(r, n):
        api = r.choice([100, 1000, 2500, 5000, 10000, 20000])
        mult = r.choice([0, 0, 0, 1, 2, 3, 4, 5, 6, 7])
        if r.random() < .12:                      # limits of hours: more microseconds than 32 bits hold
            api, mult = r.choice([(5000000, 7), (10000000, 7), (9000000, 7), (20000000, 6), (36000000, 5)])
        cs.append(opened(r, sc, s, t2o=t, t2oapi=api, o2tapi=r.choice([1000, 10000, 1000000]), mult=mult,
                         nolisten=int(r.random() < .1), **smallio(r)))
    setdata(r, sc, cs)
    if r.random() < .3:
        sc.op("hold", c=r.choice(cs))
    for _ in range(r.randrange(3, 9)):
        c = r.choice(cs)
        d = sc.conn[c]
        limit = 4 * 2 ** d["a"]["p"].get("mult", 0) * (d["t2oapi"] // 100)
        x = r.random()
        if x < .35:                               # approach the limit from the last reception
            sc.op("handle", to=2, dg=[{"at": 0, "b": iodg(r, sc, c)}])
            left = limit - r.choice([0, 0, 1, -1, 10, -10, 20, limit // 2])
            if r.random() < .45:                  # none of this is a sign of life
                part = r.choice([1, max(1, left // 2), max(1, left - 1)])
                sc.op("adv", u=part)
                for _ in range(r.choice([1, 1, 2])):
                    y = r.random()
                    if y < .4:
                        relisten(r, sc, c)
                    elif y < .55:
                        setdata(r, sc, [c])
                    elif y < .65:
                        sc.op(r.choice(["hold", "drop"]), c=c)
                    elif y < .75:
                        sc.op("hasopen")
                    elif y < .85 and len(cs) > 1:
                        closeop(r, sc, r.choice([k for k in cs if k != c]))
                    elif y < .93:
                        setdata(r, sc, [opened(r, sc, s, t2oapi=1000000, o2tapi=1000000, **smallio(r))])
                    else:
                        mr(sc, s)
                sc.op("adv", u=max(0, left - part))
                sc.op("handle", to=0)
            elif r.random() < .5:
                sc.op("adv", u=max(0, left))
                sc.op("handle", to=0)
            else:
                k = r.choice([1, 2, 3])
                for _ in range(k):
                    sc.op("adv", u=max(0, left // k))
                    sc.op("handle", to=r.choice([0, 0, 1]))
        elif x < .5:
            sc.op("adv", u=r.choice([1, 10, limit // 2, limit, limit + 1]))
            sc.op("handle", to=r.choice([0, 1, 2]))
        elif x < .6:                              # garbage does not count as life
            to = r.choice([2, 5, 10])
            sc.op("handle", to=to, dg=[{"at": 0, "b": r.choice([wrongsize(r, sc, c), foreign(r, sc)])}])
        elif x < .66:
            sc.op("hasopen")
        elif x < .71:
            relisten(r, sc, c)
        elif x < .78 and len(cs) > 0:
            closeop(r, sc, c)
        else:
            to = waits(r, [0, 1, 2, 5, 10, 30])
            ds = []
            if to >= 5:
                for c2 in cs:
                    if r.random() < .7:
                        ds.append({"at": r.randrange(0, 10 * to - 20), "b": iodg(r, sc, c2)})
            sc.op("handle", to=to, dg=ds)
    sc.op("hasopen")
    return sc.done()


@fam
def produce(r, i):
    """cyclic production: when, what and where to"""
    many = r.random() < .1                        # many cycles, also of heartbeats
    sc = Sc(r, "produce", cost=0 if many else r.choice([0, 0, 1, 5]))
    s = sc.session()
    n = 1 if many else howmany(r, r.choice([1, 1, 2, 3]))
    cs = []
    for t in t2oids(r, n):
        cs.append(opened(r, sc, s, t2o=t, t2oapi=4000000000 if many else 1000000,
                         o2tapi=r.choice([100, 1000, 1500, 2000, 5000, 7300, 10000, 20000]),
                         nolisten=int(many or r.random() < .15), **smallio(r)))
    setdata(r, sc, cs)
    if many:
        d = sc.conn[cs[0]]
        sc.op("setdata", c=cs[0], b=rbytes(r, d["o2tsize"] if d["o2tfixed"] else r.choice([0, 0, 1, 6])))
        sc.op("pump", n=r.choice([20, 40, 260, 300]), to=r.choice([2, 3]) + d["o2tapi"] // 1000)
    for _ in range(r.randrange(4, 12)):
        x = r.random()
        c = r.choice(cs)
        d = sc.conn[c]
        if x < .2:
            sc.op("setdata", c=c, b=rbytes(r, d["o2tsize"] if d["o2tfixed"] and r.random() < .85 else r.randrange(0, 12)))
        elif x < .3:
            sc.op("on", c=c, k="send", do=[[]], set=[rbytes(r, d["o2tsize"] if d["o2tfixed"] else r.randrange(0, 12)) for _ in range(r.randrange(1, 4))])
        elif x < .42:
            sc.op("adv", u=r.choice([1, 5, 9, 10, 11, 50, 99, 100, 101, 1000]))
        elif x < .47:
            relisten(r, sc, c)
        else:
            to = waits(r, [0, 0, 1, 1, 2, 3, 5, 7, 10, 20])
            ds = []
            if to >= 3:
                ds = [{"at": r.randrange(0, 10 * to - 18), "b": iodg(r, sc, r.choice(cs))} for _ in range(r.randrange(0, 3))]
            fails = {}
            if r.random() < .15:                  # the network refuses some of the datagrams
                fails["tx"] = [{"k": r.choice(["ok", "fail"]), "errno": r.choice([101, 105, 113, 1])} for _ in range(r.randrange(1, 4))]
            sc.op("handle", to=to, dg=ds, **fails)
    return sc.done()


@fam
def seqwrap(r, i):
    """tens of thousands of packets: the 16-bit sequence count wraps, the sequence number does not"""
    sc = Sc(r, "seqwrap")
    s = sc.session()
    to = r.choice([2, 2, 3])
    c = opened(r, sc, s, t2oapi=4000000000, o2tapi=r.choice([100, 1000, 777]), trig=r.choice([1, 1, 3, 0xA3, 0]), o2ts=r.choice([1, 4]),
               t2os=1, o2tFix=r.choice([0, 0, 0, 1]), nolisten=1, mult=7, **({"large": 1} if r.random() < .2 else {}))
    d = sc.conn[c]
    setdata(r, sc, [c])
    sc.op("pump", n=r.choice([65534, 65535, 65536, 65537, r.randrange(65500, 65700)] + ([131071, 131100] if i % 4 == 3 else [])), to=to)
    sc.op("handle", to=to)
    sc.op("setdata", c=c, b=rbytes(r, d["o2tsize"]))
    sc.op("pump", n=r.choice([1, 2, 3]), to=to)
    sc.op("handle", to=to, dg=[{"at": 0, "b": iodg(r, sc, c)}])
    return sc.done()


@fam
def garbage(r, i):
    """foreign and malformed datagrams around good ones"""
    sc = Sc(r, "garbage", cost=r.choice([0, 1, 2]), log=r.choice(["off", "off", "trace"]))
    s = sc.session()
    cs = [opened(r, sc, s, t2o=t, t2oapi=r.choice([10000, 1000000]), o2tapi=r.choice([10000, 1000000]),
                 **smallio(r)) for t in t2oids(r, r.choice([1, 2]))]
    setdata(r, sc, cs)
    for _ in range(r.randrange(2, 5)):
        ds = []
        at = 0
        for _ in range(r.randrange(3, 9)):
            x = r.random()
            at += r.choice([0, 0, 1, 7])
            b = iodg(r, sc, r.choice(cs)) if x < .4 else foreign(r, sc) if x < .8 else mutate(r, iodg(r, sc, r.choice(cs)))
            ds.append({"at": at, "b": b})
        sc.op("handle", to=r.choice([12, 20]), dg=ds)
    return sc.done()


def closeop(r, sc, c, where=None, **kw):
    s = sc.conn[c]["s"]
    st = r.choice([0, 0, 0, err(r), err(r)])
    a = dict(s=s, c=c, rx=[[{"d": reply(sc.h[s], 0x4e, status=st, data=rbytes(r, 10), add=r.choice([[0x107], [], [id16(r)] * 2]) if st else [])}]])
    a.update(kw)
    if where is None:
        return sc.op("close", **a)
    a["op"] = "close"
    where.append(a)
    return a


@fam
def close(r, i):
    """closing, twice, after the watchdog, with failing peers; the id is free again"""
    sc = Sc(r, "close")
    eight = i % 6 == 5
    if eight:
        sc.op("mgr", r="8")
    s = sc.session()
    n = howmany(r, r.choice([1, 2, 3]))
    ids = t2oids(r, max(n, 3))
    # data of the path counts in words: an even number of bytes
    cs = [opened(r, sc, s, eight=eight, t2o=t, t2oapi=r.choice([1000, 10000, 100000]), o2tapi=10000, mult=r.choice([0, 1]), **smallio(r))
          for t in ids[:n]]
    setdata(r, sc, cs)
    if r.random() < .4:
        sc.op("hold", c=r.choice(cs))
    if r.random() < .3:                           # the user keeps a connection that is gone; its id is used again
        old = r.choice(cs)
        d = sc.conn[old]
        if r.random() < .7:
            sc.op("hold", c=old)
        if r.random() < .6:
            sc.op("adv", u=4 * 2 ** d["a"]["p"].get("mult", 0) * (d["t2oapi"] // 100) + r.choice([1, 10, 500]))
            sc.op("handle", to=0)
        else:
            closeop(r, sc, old)
        new = opened(r, sc, s, eight=eight, t2o=d["t2o"], t2oapi=100000, o2tapi=r.choice([1000, 10000]), **smallio(r))
        setdata(r, sc, [new])
        for _ in range(r.randrange(1, 5)):
            y = r.random()
            if y < .4:
                closeop(r, sc, old)
            elif y < .6:
                sc.op("hasopen")
            else:
                sc.op("handle", to=5, dg=[{"at": r.randrange(0, 20), "b": iodg(r, sc, new)}])
        closeop(r, sc, new)
        sc.op("hasopen")
    for _ in range(r.randrange(3, 8)):
        x = r.random()
        c = r.choice(cs)
        if x < .4:
            closeop(r, sc, c)
        elif x < .5:
            sc.op("handle", to=r.choice([0, 5, 20]))
        elif x < .6:
            sc.op("adv", u=r.choice([10, 400, 5000]))
            sc.op("handle", to=0)
        elif x < .7:
            sc.op("handle", to=10, dg=[{"at": r.randrange(0, 60), "b": iodg(r, sc, r.choice(cs))} for _ in range(3)])
        elif x < .75:
            sc.op("hasopen")
        elif x < .8:
            relisten(r, sc, c)
        elif x < .9 and len(cs) < 6:              # the id of an earlier one again
            cs.append(opened(r, sc, s, eight=eight, t2o=r.choice(ids), t2oapi=10000, o2tapi=10000, **smallio(r)))
            setdata(r, sc, cs[-1:])
        else:
            sc.op("drop", c=c)
    if r.random() < .25:                          # the peer fails the close
        c = r.choice(cs)
        closeop(r, sc, c, rx=[r.choice([[{"k": "eof"}], [{"k": "tmo"}], [{"d": badreply(r, sc, s, 0x4e)}]])])
    elif r.random() < .3:
        sc.op("delmgr")
    return sc.done()


@fam
def reentry(r, i):
    """listeners that use the manager"""
    sc = Sc(r, "reentry")
    s = sc.session()
    ids = t2oids(r, 7)
    keeper = ids.pop()
    cs = [opened(r, sc, s, t2o=ids.pop(), t2oapi=r.choice([2000, 5000]) if r.random() < .5 else 100000, o2tapi=r.choice([1000, 5000]), **smallio(r, large=0))
          for _ in range(r.choice([1, 2, 2, 3]))]
    setdata(r, sc, cs)
    for _ in range(r.randrange(1, 4)):
        c = r.choice(cs)
        k = r.choice(["recv", "send", "close"])
        progs = []
        for _ in range(r.randrange(1, 3)):
            prog = []
            for _ in range(r.choice([1, 1, 2])):
                y = r.random()
                t = r.choice(cs)
                if y < .38:
                    closeop(r, sc, t if r.random() < .5 else c, where=prog)
                elif y < .5:                      # mostly itself
                    if k != "close" or t != c:
                        relisten(r, sc, *((c, prog, k) if k != "close" and r.random() < .7 else (t, prog)))
                elif y < .65:
                    prog.append({"op": "setdata", "c": t, "b": rbytes(r, sc.conn[t]["o2tsize"])})
                elif y < .72:
                    prog.append({"op": "hasopen"})
                elif y < .8:
                    prog.append({"op": "handle", "to": r.choice([0, 0, 0, 1, 2])})
                elif y < .9 and ids:
                    a = openargs(r, sc, s, **smallio(r, large=0))
                    b = openreply(r, sc, s, a, t2o=ids.pop(), o2tapi=r.choice([1000, 100000]), t2oapi=100000)
                    a["rx"] = [[{"d": b, "echo": serecho(False)}]]
                    a["op"] = "open"
                    prog.append(a)
                else:
                    mrop = {"op": "mr", "s": s, "r": "std", "svc": 14, "path": [1, 1, 1], "form": 3,
                            "rx": [ok(sc, s, 14, [1, 2])]}
                    prog.append(mrop)
            progs.append(prog)
        sc.op("on", c=c, k=k, do=progs)
    if r.random() < .35:                          # a listener replaces a connection: closes it and opens another with its id
        # (a third one lives on: with no connection at all it is open what becomes of what arrives)
        opened(r, sc, s, t2o=keeper, t2oapi=100000000, o2tapi=100000000, **smallio(r, large=0))
        c, t = r.choice(cs), r.choice(cs)
        k = r.choice(["recv", "send", "close", "close"])
        if k == "close" and r.random() < .5:
            t = c
        prog = []
        closeop(r, sc, t, where=prog)
        a = openargs(r, sc, s, **smallio(r, large=0))
        b = openreply(r, sc, s, a, t2o=sc.conn[t]["t2o"], o2tapi=r.choice([100, 1000, 100000]), t2oapi=r.choice([2000, 100000]))
        a["rx"] = [[{"d": b, "echo": serecho(False)}]]
        a["op"] = "open"
        prog.append(a)
        sc.op("on", c=c, k=k, do=[prog])
        cs.append(a["c"])
    for _ in range(r.randrange(3, 7)):
        to = r.choice([0, 1, 3, 6])
        ds = []
        if to >= 3:
            ds = [{"at": r.randrange(0, 10 * to - 16), "b": iodg(r, sc, r.choice(cs))} for _ in range(r.randrange(0, 5))]
        sc.op("handle", to=to, dg=ds)
        if r.random() < .3:
            sc.op("adv", u=r.choice([10, 50, 90, 210]))
        if r.random() < .3:
            sc.op("hasopen")
        if r.random() < .1:
            relisten(r, sc, r.choice(cs))
    return sc.done()


# ---------------------------------------------------------------- files (P14, P15)
def fileops(r, sc, s, mut=None, content=None, tsize=None, err=None, f=0, steps=None, claim=None, wrongn=None, cut=None):
    """a whole upload; mut changes one of the answers, cut=(n, packet) ends it with that answer to transfer n"""
    inst = r.choice([1, 200, 0xC8, 0xC9, 65535])
    g = lambda svc, d, **kw: reply(sc.h[s], svc, data=d, **kw)
    content = rbytes(r, r.choice([0, 1, 5, 20, 64])) if content is None else content
    tsize = r.choice([1, 4, 16, 100]) if tsize is None else tsize
    rx = [g(14, [r.choice([2, 2, 2, 3, 5])]), g(75, le(len(content) if claim is None else claim, 4) + [tsize])]
    packs = [content[k:k + tsize] for k in range(0, len(content), tsize)] or [[]]
    for n, p in enumerate(packs):
        last = n == len(packs) - 1
        t = (2 if last and n == 0 and len(packs) == 1 else 4 if last else 0 if n == 0 else 1)
        if r.random() < .3 and last:
            t = 6 - t if t in (2, 4) else t
        rx.append(g(79, [n % 256 if wrongn != n else (n + 1) % 256, t] + p + ([r.randrange(256), r.randrange(256)] if last else [])))
    if mut:
        j = r.randrange(len(rx))
        rx[j] = mut(rx[j])
    if cut:
        rx = rx[:2 + cut[0]] + [cut[1]]
    sc.op("file", f=f, s=s, inst=inst, rx=[chunks(r, rx[0], "one")])
    sc.op("begin", f=f, s=s, rx=[chunks(r, rx[1], "one")])
    stop = False
    for n, p in enumerate(rx[2:]):
        sc.op("xfer", f=f, s=s, rx=[chunks(r, p, r.choice(["one", "one", "random"]))])
    return packs


@fam
def upload(r, i):
    sc = Sc(r, "upload")
    s = sc.session()
    k = i % 9
    g = lambda svc, d, **kw: reply(sc.h[s], svc, data=d, **kw)
    if r.random() < .3:                           # the listener goes on to use the file
        progs = []
        for _ in range(r.randrange(1, 3)):
            p = []
            if r.random() < .7:
                p.append({"op": "fsync", "f": 0, "s": s, "rx": [chunks(r, g(14, [r.choice([2, 2, 2, 0, 1, 4])]), "one")]})
            if r.random() < .7:
                p.append({"op": "begin", "f": 0, "s": s, "rx": [chunks(r, g(75, le(4, 4) + [4]), "one")]})
            if r.random() < .5:
                p.append({"op": "xfer", "f": 0, "s": s, "rx": [chunks(r, g(79, [0, 2, 9, 8, 7, 6, 0, 0]), "one")]})
            progs.append(p)
        sc.op("on", c=0, k="file", do=progs)
    if k in (0, 1, 2):
        fileops(r, sc, s)
        if r.random() < .4:
            fileops(r, sc, s, f=1)
    elif k == 3:                                  # the announced size is wrong
        c = rbytes(r, r.choice([1, 8, 20]))
        fileops(r, sc, s, content=c, claim=r.choice([0, len(c) - 1, len(c) + 1, 256 + len(c), 65536 + len(c), 0xffffffff]))
    elif k == 4:                                  # a packet number is wrong: stop there
        sc.op("file", f=0, s=s, inst=1, rx=[chunks(r, g(14, [2]), "one")])
        ts = r.choice([1, 3, 10])
        sc.op("begin", f=0, s=s, rx=[chunks(r, g(75, le(3 * ts, 4) + [ts]), "one")])
        at = r.randrange(3)
        for n in range(3):
            bad = n == at
            num = r.choice([(n + 1) % 256, (n - 1) % 256, n + 128]) if bad else n
            sc.op("xfer", f=0, s=s, rx=[chunks(r, g(79, [num, [0, 1, 4][n]] + rbytes(r, ts) + ([1, 2] if n == 2 else [])), "one")])
            if bad:
                break
    elif k == 5:                                  # device errors
        sc.op("file", f=0, s=s, inst=r.choice([1, 300]), rx=[chunks(r, g(14, [2]), "one")])
        if r.random() < .4:
            sc.op("begin", f=0, s=s, rx=[chunks(r, g(75, rbytes(r, r.choice([0, 5])), status=err(r)), "one")])
            sc.op("begin", f=0, s=s, rx=[chunks(r, g(75, le(3, 4) + [10]), "one")])
        else:
            sc.op("begin", f=0, s=s, rx=[chunks(r, g(75, le(30, 4) + [10]), "one")])
            if r.random() < .5:
                sc.op("xfer", f=0, s=s, rx=[chunks(r, g(79, [0, 0] + rbytes(r, 10)), "one")])
        sc.op("xfer", f=0, s=s, rx=[chunks(r, g(79, rbytes(r, r.choice([0, 12])), status=err(r)), "one")])
    elif k == 6:                                  # transfers of 256 and more packets: the number wraps
        n = r.choice([255, 256, 257, 300])
        ts = r.choice([1, 2])
        content = rbytes(r, n * ts - r.choice([0, ts - 1]))
        if r.random() < .5:
            fileops(r, sc, s, content=content, tsize=ts)
        else:                                     # ... and come to a bad end, late
            at = r.choice([128, 200, 253, 254])
            wrong = [g(79, rbytes(r, r.choice([0, 3, 12])), status=err(r)), g(79, [(at + r.choice([1, 255, 128])) % 256, 1] + rbytes(r, ts)),
                     g(79, [at % 256, r.choice([3, 5, 255])] + rbytes(r, ts)), g(79, [at % 256, 4] + rbytes(r, ts + 2)),
                     g(79, [at % 256][:r.randrange(2)])]
            fileops(r, sc, s, content=content, tsize=ts, cut=(at, r.choice(wrong)))
            if r.random() < .5:
                fileops(r, sc, s)
    elif k == 7:                                  # truncated packets
        sc.op("file", f=0, s=s, inst=1, rx=[chunks(r, g(14, [2]), "one")])
        x = r.randrange(3)
        if x == 0:
            sc.op("begin", f=0, s=s, rx=[chunks(r, g(75, rbytes(r, r.randrange(0, 5))), "one")])
            sc.op("begin", f=0, s=s, rx=[chunks(r, g(75, le(10, 4) + [10]), "one")])
        else:
            sc.op("begin", f=0, s=s, rx=[chunks(r, g(75, le(20, 4) + [10]), "one")])
            if x == 1:
                sc.op("xfer", f=0, s=s, rx=[chunks(r, g(79, ([0, r.choice([0, 1, 2, 4])] + rbytes(r, 1))[:r.randrange(0, 4)]), "one")])
            else:
                sc.op("xfer", f=0, s=s, rx=[chunks(r, g(79, [0, 0] + rbytes(r, r.choice([10, 11, 12]))), "one")])
                sc.op("xfer", f=0, s=s, rx=[chunks(r, g(79, [1, r.choice([1, 0])] + rbytes(r, r.randrange(0, 10))), "one")])
    else:                                         # wrong states, odd packet types, zero transfer size
        st = r.choice([0, 1, 2])
        sc.op("file", f=0, s=s, inst=7, rx=[chunks(r, g(14, [st]), "one")])
        if st == 2 and r.random() < .5:
            sc.op("xfer", f=0, s=s)
            sc.op("begin", f=0, s=s, rx=[chunks(r, g(75, le(2, 4) + [r.choice([0, 1, 255])]), "one")])
            sc.op("xfer", f=0, s=s, rx=[chunks(r, g(79, [0, r.choice([3, 5, 6, 255])] + rbytes(r, 4)), "one")])
        elif st != 2:
            sc.op("begin", f=0, s=s, rx=[chunks(r, g(75, le(2, 4) + [1]), "one")])
            sc.op("xfer", f=0, s=s, rx=[chunks(r, g(79, [0, 2] + rbytes(r, 4)), "one")])
            sc.op("fsync", f=0, s=s, rx=[chunks(r, g(14, [2]), "one")])
            sc.op("begin", f=0, s=s, rx=[chunks(r, g(75, le(2, 4) + [1]), "one")])
            sc.op("xfer", f=0, s=s, rx=[chunks(r, g(79, [0, 0, 5]), "one")])
            sc.op("xfer", f=0, s=s, rx=[chunks(r, g(79, [1, 4, 6, 0, 0]), "one")])
    while r.random() < .4:                        # continued when it may be over
        if r.random() < .7:
            sc.op("xfer", f=0, s=s, rx=[chunks(r, g(79, [r.choice([0, 0, 1, 3]), r.choice([0, 1, 2, 4])] + rbytes(r, r.choice([2, 3, 12])), status=r.choice([0, 0, 0, err(r)])), "one")])
        else:
            sc.op("begin", f=0, s=s, rx=[chunks(r, g(75, le(2, 4) + [1]), "one")])
    return sc.done()


@fam
def filestate(r, i):
    sc = Sc(r, "filestate")
    s = sc.session()
    g = lambda svc, d, **kw: reply(sc.h[s], svc, data=d, **kw)

    def ans():
        x = r.random()
        if x < .7:
            return g(14, [r.choice([0, 1, 2, 3, 5])] + rbytes(r, r.choice([0, 0, 1])))
        if x < .8:
            return g(14, [r.choice([4, 6, 7, 8, 255, 128])])
        if x < .9:
            return g(14, [], status=r.choice([0, err(r), err(r)]))
        return g(14, [r.choice([0, 1, 2, 5])], status=err(r))
    for f in range(r.randrange(1, 3)):
        sc.op("file", f=f, s=s, inst=id16(r), rx=[chunks(r, ans(), "one")])
    for _ in range(r.randrange(1, 6)):
        f = r.randrange(2)
        x = r.random()
        if x < .6:
            sc.op("fsync", f=f, s=s, rx=[chunks(r, ans(), "one")])
        elif x < .8:
            sc.op("fsync", f=f, s=s, rx=[chunks(r, g(14, [2]), "one")])
            sc.op("xfer", f=f, s=s, rx=[chunks(r, g(79, [0, 2]), "one")])
        else:
            sc.op("file", f=f, s=s, inst=id16(r), rx=[chunks(r, ans(), "one")])
    return sc.done()


# ---------------------------------------------------------------- parameters (P16, P18)
SIZES = dict(u8=1, i8=1, u16=2, i16=2, u32=4, i32=4, u64=8, i64=8, f32=4, f64=8)


def sstr(b):
    return [len(b)] + list(b)


def text(r):
    """characters: mostly letters, but a string of a device is any bytes"""
    n = r.choice([0, 1, 5, 16, 40, 40, 127, 128, 255])
    x = r.random()
    if x < .5:
        return [r.randrange(32, 127) for _ in range(n)]
    if x < .8:
        b = [r.randrange(32, 127) for _ in range(n)]
        for _ in range(r.choice([1, 1, 2])):
            if b:
                b[r.randrange(len(b))] = r.choice([0, 0, 10, 37, 92, 127, 128, 255])
        return b
    return rbytes(r, n)


def small(r, n):
    """an n byte little-endian value that fits the specification's integers"""
    v = r.choice([0, 1, 2, 100, 127, 128, 200, 255, 256, 1000, 30000, 65535]) % (256 ** min(n, 2))
    return le(v, n)


def paramdata(r, n, full, scal, ro, val=None, vals=None):
    desc = (4 if scal else 0) | (16 if ro else 0) | r.choice([0, 1, 2, 8, 0x20, 0xff00])
    path = rbytes(r, r.choice([0, 2, 6, 6] if r.random() < .85 else [127, 128, 200, 255]))
    b = (val or small(r, n)) + sstr(path) + le(desc, 2) + [r.choice([0xC1, 0xC3, 0xC6, 0xC7, 0xCA, r.randrange(256)])] + [n]
    if full:
        b += sstr(text(r)) + sstr(text(r)) + sstr(text(r))
        for j in range(3):
            b += vals[j] if vals else small(r, n)
        if scal:
            b += le(r.randrange(65536), 2) * 4           # the scaling attributes, read one by one
            b += le(r.randrange(65536), 2) * 4           # and their links
            b += [r.choice([0, 0, 1, 2, 3])]
        if not scal or r.random() < .5:
            b += rbytes(r, r.choice([0, 0, 3]))
    return b


def paramargs(r, sc, s, p=0, full=None, scal=None, ty=None, mode="one", scaling=None, vals=None):
    ty = ty or r.choice(sorted(SIZES))
    n = SIZES[ty]
    full = r.choice([0, 1, 1]) if full is None else full
    scal = r.choice([0, 1]) if scal is None else scal
    inst = id16(r)
    g = lambda svc, d: reply(sc.h[s], svc, data=d)
    rx = [g(14, [n]), g(1, paramdata(r, n, full, scal, r.choice([0, 1]), val=vals and vals[3], vals=vals))]
    if full and scal:
        sc_ = scaling or [r.choice([1, 2, 5, 10, 100]), r.choice([1, 2, 4, 10]), r.choice([1, 3, 10]), r.choice([0, 1, 65535, 65500, 10])]
        for v in sc_:
            rx.append(g(14, le(v, 2)))
    return dict(p=p, s=s, inst=inst, full=full, ty=ty, rx=[chunks(r, x, mode) for x in rx])


@fam
def param(r, i):
    sc = Sc(r, "param")
    s = sc.session()
    k = i % 6
    g = lambda svc, d, **kw: reply(sc.h[s], svc, data=d, **kw)
    if k in (0, 1, 2):
        a = paramargs(r, sc, s, mode=r.choice(["one", "random"]))
        sc.op("param", **a)
        n = SIZES[a["ty"]]
        for _ in range(r.randrange(0, 4)):
            sc.op("pget", p=0, ty=r.choice([a["ty"], a["ty"], r.choice(sorted(SIZES))]))
            x = r.random()
            if x < .6:
                sc.op("update", s=s, p=0, ty=a["ty"], rx=[chunks(r, g(14, rbytes(r, n + r.choice([0, 0, 1]))), "one")])
            elif x < .8:
                sc.op("update", s=s, p=0, ty=a["ty"], rx=[chunks(r, g(14, rbytes(r, r.randrange(0, n))), "one")])
            else:
                sc.op("update", s=s, p=0, ty=a["ty"], rx=[chunks(r, g(14, rbytes(r, n), status=err(r)), "one")])
        sc.op("pget", p=0, ty=a["ty"])
    elif k == 3:                                  # truncated
        a = paramargs(r, sc, s, full=r.choice([0, 1, 1, 1]))
        b = flat(a["rx"][1])
        data = b[44:]
        cut = data[:r.randrange(0, len(data))]
        a["rx"][1] = chunks(r, g(1, cut), "one")
        sc.op("param", **a)
        sc.op("pget", p=0, ty=a["ty"])
    elif k == 4:                                  # refused
        a = paramargs(r, sc, s)
        j = r.randrange(len(a["rx"]))
        a["rx"][j] = chunks(r, g(1 if j == 1 else 14, rbytes(r, r.choice([0, 2])), status=err(r)), "one")
        sc.op("param", **a)
    else:                                         # several objects
        for p in range(r.randrange(2, 4)):
            sc.op("param", **paramargs(r, sc, s, p=p))
        for _ in range(3):
            p = r.randrange(3)
            sc.op("pget", p=p, ty=r.choice(sorted(SIZES)))
    if r.random() < .4:                           # one that the user fills in
        ty = r.choice(sorted(SIZES))
        sc.op("plocal", inst=id16(r), full=r.choice([0, 1]), size=SIZES[ty], ty=ty, scal=r.choice([0, 1]), ro=r.choice([0, 1]),
              type=r.choice([0xC1, 0xC2, 0xC7, 0xD0, 0xDA]), name=text(r), units=text(r), help=text(r), mul=id16(r), div=id16(r), base=id16(r),
              off=id16(r) - 32768, prec=r.randrange(256))
    return sc.done()


def factor(r):
    """a scaling attribute"""
    return r.choice([1, 1, 2, 3, 5, 7, 10, 100, 1000, 255, 256, 32767, 32768, 65535, r.randrange(1, 65536), r.randrange(1, 300)])


def wide(r, ty, lim=2 ** 50):
    """a value of an integer type, not too close to the end of its range"""
    n = 8 * SIZES[ty]
    lo, hi = (-2 ** (n - 1) + 1, 2 ** (n - 1) - 2) if ty[0] == "i" else (0, 2 ** n - 2)
    lo, hi = max(lo, -lim), min(hi, lim)
    return r.choice([lo, hi, 0, 1 if hi else 0, max(lo, -1), r.randrange(lo, hi + 1), max(lo, min(hi, r.randrange(-2000, 2000)))])


def anyval(r, ty):
    """any bytes of the type (floats: of ordinary size)"""
    if ty == "f32":
        return list(struct.pack("<f", r.choice([0, 1, -1, .5, 1e-3, 123456.75, -7e8, r.uniform(-1e6, 1e6)])))
    if ty == "f64":
        return list(struct.pack("<d", r.choice([0, 1, -1, .5, 1e-7, 123456.75, -7e11, r.uniform(-1e9, 1e9)])))
    return rbytes(r, SIZES[ty])


@fam
def scale(r, i):
    sc = Sc(r, "scale")
    s8 = lambda v: list(struct.pack("<q", v))
    for _ in range(4):
        ty = r.choice(["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "f32", "f64"])
        scal = r.choice([0, 1, 1, 1])
        mul, div, base = factor(r), factor(r), factor(r)
        if r.random() < .05:
            mul = 0
        off = r.choice([0, 0, 1, -1, 5, -7, 50, 32767, -32768, r.randrange(-32768, 32768)])
        prec = r.choice([0, 0, 1, 2, 3, 5, 9])
        vt = "i32" if ty[0] == "f" else ty
        v, v2, v3 = (s8(wide(r, vt, 2 ** 20 if ty == "f32" else 2 ** 50)) for _ in range(3))
        sc.op("scale", size=SIZES[ty], ty=ty, scal=scal, mul=mul, div=div, base=base, off=off, prec=prec, v=v, v2=v2, v3=v3,
              noset=int(mul * base * div == 0))
    s = sc.session()
    for p in range(2):
        ty = r.choice(sorted(SIZES))
        a = paramargs(r, sc, s, p=p, ty=ty, full=1, scal=r.choice([0, 1, 1]), scaling=[factor(r), factor(r), factor(r), id16(r)],
                      vals=[anyval(r, ty) for _ in range(4)])
        sc.op("param", **a)
        sc.op("peng", p=p, ty=ty)
        if r.random() < .4:
            sc.op("update", s=s, p=p, ty=ty, rx=[chunks(r, reply(sc.h[s], 14, data=anyval(r, ty)), "one")])
            sc.op("peng", p=p, ty=ty)
    return sc.done()


# ---------------------------------------------------------------- identity (P17)
def identdata(r, name=None):
    name = text(r) if name is None else name
    return le(id16(r), 2) + le(id16(r), 2) + le(id16(r), 2) + [r.randrange(256), r.randrange(256)] + le(id16(r), 2) + handle(r) + sstr(name)


@fam
def ident(r, i):
    sc = Sc(r, "ident")
    s = sc.session()
    g = lambda d, **kw: reply(sc.h[s], 1, data=d, **kw)
    for _ in range(r.randrange(2, 5)):
        x = r.random()
        d = identdata(r, r.choice([None, None, [65] * 255, []]))
        if x < .6:
            sc.op("ident", s=s, inst=id16(r), rx=[chunks(r, g(d + r.choice([[], [], [3], [1, 2, 3]])), r.choice(["one", "random"]))])
        elif x < .85:
            sc.op("ident", s=s, inst=1, rx=[chunks(r, g(d[:r.randrange(len(d))]), "one")])
        else:
            sc.op("ident", s=s, inst=1, rx=[chunks(r, g(r.choice([d, []]), status=err(r)), "one")])
    if r.random() < .5:
        sc.op("ilocal", inst=id16(r), vendor=id16(r), dtype=id16(r), pcode=id16(r), maj=r.randrange(256), min=r.randrange(256), status=id16(r),
              serial=handle(r), name=text(r))
    return sc.done()


# ---------------------------------------------------------------- discovery (P19)
def iddev(r, **kw):
    n = kw.pop("name", None)
    ip = [192, 168, r.randrange(256), r.randrange(256)]
    return le(1, 2) + sockaddr(r.choice([ip, [0, 0, 0, 0], [255] * 4]), r.choice([44818, 44818, 44818, 2222, 65535, 0, 256])) + identdata(r, n) + r.choice([[3], [0xff], []])


def devreply(r, n=1):
    return encaps(0x63, r.choice([[0] * 4, handle(r)]), cpf([(0x0C, iddev(r)) for _ in range(n)]))


def oddreply(r):
    k = r.randrange(9)
    d = iddev(r)
    if k == 0:
        return rbytes(r, r.randrange(0, 30))
    if k == 1:
        return encaps(0x63, [0] * 4, cpf([]))
    if k == 2:
        return encaps(0x63, [0] * 4, cpf([(r.choice([0, 0x86, 0x100, 0xB2]), d)]))
    if k == 3:
        return encaps(0x63, [0] * 4, cpf([(0x0C, d[:r.randrange(len(d) - 1)])]))
    if k == 4:
        return devreply(r)[:r.randrange(24)]
    if k == 5:
        return encaps(0x63, [0] * 4, cpf([item(0x0C, d, length=len(d) + r.choice([1, 100, 60000]))]))
    if k == 6:
        return encaps(0x63, [0] * 4, cpf([(0x0C, d)], count=r.choice([0, 2, 9, 65535])))
    if k == 7:
        return encaps(0x63, [0] * 4, cpf([(0x86, [1, 2]), (0x0C, d)]))
    return mutate(r, devreply(r))


def discop(r, sc, garbage_=.3, again=None):
    """again: the arguments of an earlier discovery whose manager is used again"""
    ip = r.choice([[192, 168, 1, 255], [255, 255, 255, 255], [10, 0, 0, 7]])
    a = again or dict(host=".".join(map(str, ip)), ip=ip, port=r.choice([44818, 44818, 2222, 1, 65535]), to=r.choice([20, 100, 500, 1500, 3000]))
    to = a["to"]
    ds = []
    at = 0
    n, gaps = r.choice([0, 1, 1, 2, 3, 6, 6 if r.random() < .7 else 25]), [0, 0, 1, 10, 5 * to]
    if r.random() < .03:                          # a large plant: very many answers, maybe for a long time
        n, gaps = r.choice([66, 130, 258, 300]), r.choice([[0], [0, 1], [1, 9 * to]])
    for _ in range(n):
        at += r.choice(gaps)
        b = oddreply(r) if r.random() < garbage_ else devreply(r, r.choice([1, 1, 1, 2, 2, 3, 5]))
        ds.append({"at": at, "port": 0, "b": b[:504]})
    if r.random() < .2:                           # too late
        ds.append({"at": at + 10 * to + 30, "port": 0, "b": devreply(r)})
    if r.random() < .06:
        sc.op("disc", **a, dg=[], tx=[{"k": "fail", "errno": r.choice([101, 105, 1])}])
    else:
        sc.op("disc", **a, dg=ds)
    return a


@fam
def disc(r, i):
    sc = Sc(r, "disc", cost=r.choice([0, 0, 1, 10]))
    a = None
    for _ in range(r.choice([1, 1, 2, 3])):
        if a and r.random() < .5:
            discop(r, sc, r.choice([0, .3, .8]), a)
        else:
            b = discop(r, sc, r.choice([0, .3, .8]))
            if a is None and r.random() < .6:
                a = b
                a["m"] = sc.d["ops"][-1]["m"] = 1
        if r.random() < .2:
            sc.op("adv", u=r.choice([100, 20000]))
    if r.random() < .1:
        mr(sc, sc.session())
    return sc.done()


# ---------------------------------------------------------------- drive faults (P20)
DPICODES = [2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 15, 21, 29, 33, 38, 39, 40, 41, 42, 43, 48, 59, 63, 64, 70, 71, 72, 73, 80, 81, 82, 83, 91, 94, 100,
            101, 105, 106, 107, 109, 110, 111, 114, 122, 125, 126, 127]


def dpirx(r, sc, s, n, det, codes=None, full=False):
    g = lambda d, **kw: reply(sc.h[s], 14, data=d, **kw)
    rx = []
    for j in range(n):
        c = codes[j] if codes else r.choice(DPICODES)
        rx.append(g(le(c, 2) + r.choice([[], [0]])))
        if det:
            for _ in range(3):
                rx.append(g(le(r.choice([0, 1, 50, 999, 3200, 6000, 65535]), 2)))
    if n < 10:
        rx.append(g([0, 0]))
    if n > 0:
        rx.append(reply(sc.h[s], 16, data=[]))
    return [chunks(r, x, "one") for x in rx]


@fam
def dpi(r, i):
    sc = Sc(r, "dpi")
    s = sc.session()
    k = i % 7
    g = lambda svc, d, **kw: chunks(r, reply(sc.h[s], svc, data=d, **kw), "one")
    det, clear = r.choice([0, 1]), r.choice([0, 1])
    if r.random() < .2:                           # the listener asks for more
        progs = []
        for _ in range(r.randrange(1, 4)):
            x = r.random()
            if x < .4:
                progs.append([{"op": "dpicmd", "s": s, "cmd": r.choice([1, 2]), "rx": [g(16, [], status=r.choice([0, 0, err(r)]))]}])
            elif x < .8:
                progs.append([{"op": "dpiobj", "s": s, "inst": 1, "rx": [g(14, rbytes(r, r.choice([30, 12])))]}])
            else:
                progs.append([])
        sc.op("on", c=0, k="fault", do=progs)
    if k in (0, 1, 2):
        n = r.choice([0, 1, 2, 3, 4, 6, 7, 9, 10])
        sc.op("dpi", s=s, clear=clear, details=det, rx=dpirx(r, sc, s, n, det))
        if r.random() < .5:
            sc.op("dpi", s=s, clear=1 - clear, details=1 - det, rx=dpirx(r, sc, s, r.randrange(0, 3), 1 - det))
        if r.random() < .4:                       # the same manager several times, maybe as constructed by default
            if r.random() < .3:
                clear, det = 1, 0
                sc.op("dpinew", m=1)
            else:
                sc.op("dpinew", m=1, clear=clear, reset=r.choice([0, 1]), details=det)
            if r.random() < .4:                   # its listener replaced, also from within
                sc.op("on", c=1, k="fault", do=[[{"op": "dpilisten", "m": 1, "g": 2 + j}] if r.random() < .5 else [] for j in range(r.randrange(1, 4))])
            for _ in range(r.choice([1, 2, 3])):
                if r.random() < .2:
                    sc.op("dpilisten", m=1, g=r.randrange(10, 20))
                sc.op("dpi", s=s, m=1, clear=clear, details=det, rx=dpirx(r, sc, s, r.choice([0, 1, 2, 10]), det))
    elif k == 3:                                  # an answer fails
        rx = dpirx(r, sc, s, r.choice([1, 2, 3, 10]), det)
        j = r.randrange(len(rx))
        svc = 16 if j == len(rx) - 1 else 14
        rx[j] = r.choice([g(svc, rbytes(r, 2), status=err(r)), g(svc, []), g(svc, [7])])
        sc.op("dpi", s=s, clear=clear, details=det, rx=rx)
    elif k == 4:
        for _ in range(8):
            sc.op("dpicode", code=r.choice(DPICODES + [0, 1, 10, 11, 14, 128, 255, 1000, r.randrange(128)]))
    elif k == 5:
        for _ in range(3):
            sc.op("dpicmd", s=s, cmd=r.choice([0, 1, 2, 3]), rx=[g(16, [], status=r.choice([0, 0, 0, err(r)]))])
            d = rbytes(r, r.choice([30, 30, 31, 40, r.randrange(0, 30)]))
            sc.op("dpiobj", s=s, inst=id16(r), rx=[g(14, d, status=r.choice([0, 0, 0, err(r)]))])
    else:                                         # an unknown code
        n = r.randrange(1, 4)
        codes = [r.choice(DPICODES) for _ in range(n)]
        codes[r.randrange(n)] = r.choice([1, 10, 128, 256, 512, 1000, 0x0300, 0x8000, 65535, r.randrange(1, 65536)])
        sc.op("dpi", s=s, clear=clear, details=det, rx=dpirx(r, sc, s, n, det, codes))
    return sc.done()


# ---------------------------------------------------------------- codecs (P21, P22)
def bufval(r, t):
    if t in SIZES:
        return r.choice([rbytes(r, SIZES[t]), [0] * SIZES[t], [255] * SIZES[t], [0] * (SIZES[t] - 1) + [128]])
    if t == "bytes":
        return rbytes(r, r.choice([0, 1, 7, 30, 30, 255, 256, 600]))
    if t == "u16v":
        return [id16(r) for _ in range(r.choice([0, 1, 3, 8, 8, 127, 128, 256, 300]))]
    if t == "rev":
        return rbytes(r, 2)
    if t == "ss":
        return rbytes(r, r.choice([0, 1, 20, 127, 128, 255]))
    if t == "cs":
        return rbytes(r, r.choice([0, 1, 20, 255, 256, 300]))
    return [r.randrange(256) for _ in range(4)] + [id16(r)]


BUFT = sorted(SIZES) + ["bytes", "u16v", "rev", "ss", "cs", "ep"]


def fixnan(t, v):
    # NaN payloads are not preserved by every copy of a float
    if t == "f32" and (v[3] & 0x7f) == 0x7f and v[2] & 0x80:
        v = v[:3] + [0x3f]
    if t == "f64" and (v[7] & 0x7f) == 0x7f and (v[6] & 0xf0) == 0xf0:
        v = v[:7] + [0x3f]
    return v


def bufop(r, sc, hostile_=False):
    steps = []
    if hostile_:
        init = rbytes(r, r.choice([0, 1, 2, 3, 5, 9, 20]))
        for _ in range(r.randrange(1, 6)):
            t = r.choice([x for x in BUFT if x not in ("f32", "f64")])
            steps.append({"r": t, "n": r.choice([0, 1, 3, 16, 100])})
        sc.op("buf", init=init, steps=steps)
        return
    init = rbytes(r, r.choice([0, 0, 3, 8]))
    if init and r.random() < .8:
        steps.append({"r": "bytes", "n": len(init)})
    pend = []
    for _ in range(r.randrange(1, 9)):
        t = r.choice(BUFT)
        v = fixnan(t, bufval(r, t))
        steps.append({"w": t, "v": v})
        pend.append((t, len(v)))
        while pend and r.random() < .3 and steps[0].get("r"):
            t, n = pend.pop(0)
            steps.append({"r": t, "n": n})
    if not init or steps[0].get("r"):
        for t, n in pend:
            steps.append({"r": t, "n": n})
        if r.random() < .3:
            steps.append({"r": r.choice(["u8", "u16", "bytes", "ss", "u64"]), "n": 3})
    else:
        steps.append({"r": "bytes", "n": r.choice([0, 1, len(init)])})
    sc.op("buf", init=init, steps=steps)


@fam
def buffer(r, i):
    sc = Sc(r, "buffer")
    for _ in range(8):
        bufop(r, sc, hostile_=r.random() < .25)
    return sc.done()


def rawpath(r):
    b = []
    for t in (0x20, 0x24, 0x30):
        if r.random() < .85:
            b += [t, r.randrange(256)] if r.random() < .5 else [t + 1, 0] + le(id16(r), 2)
    return b


def eqargs(r):
    """two values that are equal or differ in one place"""
    k = r.choice(["item", "rev", "ep", "path", "ypath", "enc", "enc"])
    if k == "item":
        x = {"t": r.choice([0, 0xB1, 0xB2, 0x8002, 0xffff]), "d": rbytes(r, r.choice([0, 1, 4, 20, 20, 255, 256, 600, 2000]))}
    elif k == "rev":
        x = {"maj": r.randrange(256), "min": r.randrange(256)}
    elif k == "ep":
        x = {"host": "%d.%d.%d.%d" % tuple(rbytes(r, 4)), "port": r.choice([0, 1, 2222, 44818, 65535])}
    elif k in ("path", "ypath"):
        n = r.choice([0, 1, 2, 3])
        x = {"p": [r.randrange(1, 256) if k == "ypath" else r.choice([1, 2, 255, 256, 65535]) for _ in range(n)]}
    else:
        x = {"cmd": r.choice([4, 0x63, 0x65, 0x6F]), "h": handle(r), "st": r.choice([[0] * 4, le(1, 4), le(0x65, 4)]), "data": rbytes(r, r.choice([0, 1, 8, 8, 255, 256, 600, 2000]))}
        if r.random() < .5:
            x["ctx"] = encaps(0x6F, [0] * 4, [])[:12] + rbytes(r, 12)
    y = {f: (list(v) if isinstance(v, list) else v) for f, v in x.items()}
    if r.random() < .75:
        f = r.choice(sorted(y))
        v = y[f]
        if k == "ep" and f == "host":
            q = [int(n) for n in v.split(".")]
            q[r.randrange(4)] ^= 1 << r.randrange(8)
            y[f] = ".".join(map(str, q))
        elif f == "cmd":
            y[f] = r.choice([4, 0x63, 0x65, 0x6F])
        elif f == "p":
            if v and r.random() < .7:
                v[r.randrange(len(v))] ^= r.choice([1, 128]) if k == "ypath" else r.choice([1, 256, 0x8000])
                v[:] = [w or 7 for w in v]
            else:
                v[:] = (v + [9])[:3] if r.random() < .5 else v[:-1]
        elif f == "st":
            y[f] = r.choice([[0] * 4, le(1, 4), le(0x65, 4), le(0x10000, 4)])
        elif f == "ctx":
            v[r.randrange(12, 24)] ^= 1 << r.randrange(8)
        elif isinstance(v, list):
            if v and r.random() < .6:
                v[r.randrange(len(v))] ^= 1 << r.randrange(8)
            elif f != "h":
                v.append(0)
        else:
            y[f] = (v ^ (1 << r.randrange(8))) % 65536
    return dict(k=k, x=x, y=y)


@fam
def codec(r, i):
    sc = Sc(r, "codec")
    for _ in range(8):
        k = r.randrange(14)
        if k == 0:
            yas = r.choice([0, 0, 1])
            p = [id16(r) % (256 if yas else 65536) for _ in range(r.randrange(0, 4))]
            e = r.choice([0, 1])
            if e and r.random() < .8:
                p = [x % 256 for x in p]
            sc.op("epath", path=p, eight=e, yas=yas)
        elif k == 1:
            sc.op("epathx", b=r.choice([rawpath(r), rawpath(r), mutate(r, rawpath(r))]), yas=r.choice([0, 0, 1]))
        elif k in (2, 3) and r.random() < .1:     # more items than a byte counts
            xs = [(r.choice([0, 0xB1, 0x8000]), rbytes(r, r.choice([0, 0, 1, 2]))) for _ in range(r.choice([127, 128, 255, 256, 257, 300]))]
            if k == 2:
                sc.op("cpf", items=[{"t": t, "d": d} for t, d in xs])
            else:
                sc.op("cpfx", b=cpf(xs))
        elif k == 2:
            sc.op("cpf", items=[{"t": r.choice([0, 0xB1, 0xB2, 0x8000, 0x8001, 0x8002, 0x0C, 0xffff]), "d": rbytes(r, r.choice([0, 1, 4, 40, 300]))}
                                for _ in range(r.choice([0, 1, 2, 3, 7]))])
        elif k == 3:
            b = cpf([(x["t"], x["d"]) for x in ritems(r)])
            sc.op("cpfx", b=b if r.random() < .6 else mutate(r, b))
        elif k == 4:
            sc.op("factory", data=rdata(r), h=handle(r), n=handle(r), to=id16(r))
        elif k == 5:
            sc.op("enc", cmd=r.choice([0, 4, 0x63, 0x65, 0x66, 0x6F, 0x70]), h=handle(r), st=r.choice([[0] * 4, le(0x65, 4), le(1, 4)]),
                  data=rbytes(r, r.choice([0, 1, 4, 100, 1000] if r.random() < .95 else [32767, 32768, 65535])))
        elif k == 6:
            b = encaps(r.choice([0, 4, 0x63, 0x65, 0x66, 0x6F, 0x70]), handle(r), rdata(r), status=r.choice([0, 1, 0x64]))
            sc.op("encx", b=b if r.random() < .7 else mutate(r, b))
        elif k == 7:
            b = mrresp(r.randrange(256), r.randrange(256), rdata(r), [id16(r) for _ in range(r.choice([0, 1, 4, 255]))])
            sc.op("mrx", b=b if r.random() < .7 else mutate(r, b))
        elif k == 8:
            b = foresp(handle(r), handle(r), serial=id16(r), vendor=id16(r), oserial=handle(r), o2tapi=handle(r), t2oapi=handle(r),
                       app=rbytes(r, 2 * r.choice([0, 1, 5])))
            sc.op("fox", b=b if r.random() < .7 else mutate(r, b))
        elif k == 10:
            sc.op("eq", **eqargs(r))
        elif k == 11:
            large = r.choice([0, 1])
            sc.op("ncpseq", v=r.choice([[0] * 4, rbytes(r, 2) + [0, 0], rbytes(r, 4)]) if large else r.choice([[0] * 4, rbytes(r, 2) + [0, 0]]), large=large,
                  steps=[r.choice([{"f": "ct", "v": r.randrange(4)}, {"f": "prio", "v": r.randrange(4)}, {"f": "ty", "v": r.randrange(2)},
                                   {"f": "red", "v": r.randrange(2)}, {"f": "size", "v": r.choice([0, 1, 5, 32, 255, 256, 511] + ([512, 65535] if large else []))}])
                         for _ in range(r.randrange(1, 6))])
        elif k == 12:
            sc.op("fresh")
        else:
            large = r.choice([0, 1])
            sc.op("ncp", large=large, ct=r.randrange(4), prio=r.randrange(4), ty=r.randrange(2),
                  size=r.choice([0, 1, 32, 505, 511] + ([512, 1000, 65535] if large else [])), red=r.choice([0, 1]))
    return sc.done()


# ---------------------------------------------------------------- logging (P23)
@fam
def logger(r, i):
    sc = Sc(r, "logger", log=r.choice(["off", "default", "trace"]))

    def parts():
        ps, txt = [], []
        for _ in range(r.randrange(0, 5)):
            if r.random() < .4:
                v = r.choice([0, -1, 7, 65536, 2147483647, -2147483648])
                ps.append(v)
                txt += [ord(x) for x in str(v)]
            else:
                b = [r.randrange(32, 127) for _ in range(r.choice([0, 1, 10, 60]) if r.random() < .97 else r.choice([255, 256, 1025, 5000]))]
                if b and r.random() < .2:         # any byte: line ends, NUL, format characters, no ASCII
                    b[r.randrange(len(b))] = r.choice([0, 10, 13, 9, 37, 128, 255])
                ps.append(b)
                txt += b
        return ps, txt
    if r.random() < .9:
        sc.op("appender", ap=1)
    else:
        sc.op("loglevel", lvl=0)
    def inner(depth):
        """what happens while a message is being written"""
        ops = []
        for _ in range(r.choice([1, 1, 2])):
            x = r.random()
            if x < .35:
                ops.append({"op": "loglevel", "lvl": r.randrange(0, 6)})
            elif x < .5:
                ops.append({"op": "appender", "ap": r.randrange(1, 5)})
            else:
                ops.append(dict(message(depth + 1), op="log"))
        return ops

    def message(depth=0):
        ps, txt = parts()
        o = dict(lvl=r.randrange(1, 6), parts=ps, text=txt)
        if depth < 3 and r.random() < .4:
            o["in"] = inner(depth)
        return o
    for _ in range(r.randrange(4, 14)):
        x = r.random()
        if x < .2:
            sc.op("loglevel", lvl=r.randrange(0, 6))
        elif x < .3:
            sc.op("appender", ap=r.randrange(1, 5))
        elif x < .38:
            b = [c for c in text(r) if c != 10]
            lvl = r.randrange(1, 6)
            sc.op("console", lvl=lvl, b=b, want=[ord(c) for c in "[%s] " % ["OFF", "ERROR", "WARNING", "INFO", "DEBUG", "TRACE"][lvl]] + b + [10])
        else:
            sc.op("log", **message())
    return sc.done()


# ---------------------------------------------------------------- sockets (P24)
def errno(r):
    """the reason of a failing system call"""
    return {"errno": r.choice([1, 12, 13, 22, 24, 98, 101, 104, 110, 111, 113])} if r.random() < .6 else {}


@fam
def sockets(r, i):
    """failing system calls and abandoned objects: nothing stays open, nothing is closed twice"""
    sc = Sc(r, "sockets")
    k = i % 8
    if k == 0:
        if r.random() < .5:
            sc.session(**{r.choice(["sockfail", "optfail"]): r.choice([1, 1, 2])}, **errno(r))
        else:
            sc.session(conn=r.choice(["ok", "inprog", "inprog"]), callfail=r.randrange(1, 7), **errno(r))
        mr(sc, sc.session())
    elif k == 1:
        sc.session(conn=r.choice(["refused", "inprog-refused", "timeout"]), **errno(r))
        sc.session(rx=[r.choice([[{"k": "eof"}], [{"k": "tmo"}], [{"d": [1, 2, 3]}, {"k": "rst"}]])])
    elif k == 2:
        s = sc.session()
        a = openargs(r, sc, s)
        a["rx"] = [[{"d": openreply(r, sc, s, a), "echo": serecho(False)}]]
        a[r.choice(["sockfail", "bindfail", "optfail"])] = r.choice([1, 2, 3])
        a.update(errno(r))
        sc.op("open", **a)
        if r.random() < .5:
            opened(r, sc, s)
    elif k == 3:
        s = sc.session()
        for j in range(r.randrange(2, 6)):
            c = opened(r, sc, s, t2o=le(100 + j, 4), t2oapi=1000, o2tapi=1000, **smallio(r))
            if r.random() < .4:
                closeop(r, sc, c)
            elif r.random() < .4:
                sc.op("adv", u=100)
                sc.op("handle", to=r.choice([0, 1]))
            if r.random() < .2:
                sc.op("hold", c=c)
    elif k == 4:
        for _ in range(3):
            discop(r, sc)
    elif k == 5:
        ip = [10, 0, 0, 255]
        sc.op("disc", host="10.0.0.255", ip=ip, port=44818, to=10, **{r.choice(["sockfail", "optfail"]): 1})
        discop(r, sc)
    elif k == 6:
        s = sc.session()
        c = opened(r, sc, s, t2oapi=100000)
        sc.op("mgr", r="std")
        opened(r, sc, s, t2oapi=100000)
        sc.op("delmgr")
        sc.op("unsess", s=s)
    else:
        for _ in range(6):
            s = sc.session()
            if r.random() < .5:
                mr(sc, s, rx=[{"k": r.choice(["eof", "rst", "tmo"])}])
            sc.op("unsess", s=s, tx=[r.choice([{"k": "ok"}, {"k": "fail", "after": 0}])])
    return sc.done()


# ---------------------------------------------------------------- plain sockets (P25)
def rip(r):
    return [r.choice([1, 10, 127, 192, 223]), r.choice([0, 9, 10, 99, 100, 255]), r.randrange(256), r.choice([0, 1, 128, 255])]


def host(ip):
    return ".".join(map(str, ip))


@fam
def plain(r, i):
    """end points and the three kinds of sockets, used without the rest"""
    sc = Sc(r, "plain", cost=r.choice([0, 0, 0, 2]), log=r.choice(["off", "off", "trace"]))
    if i % 5 == 4:
        for _ in range(5):
            if r.random() < .75:
                ip = rip(r)
                sc.op("ep", host=host(ip), ip=ip, port=r.choice([0, 1, 255, 256, 2222, 32768, 44818, 65535]), valid=1)
            else:
                sc.op("ep", host=r.choice(["", "nohost", "300.1.1.1", "1.2.3.4.5", "10.0.0.256"]), ip=[0] * 4, port=44818, valid=0)
        return sc.done()
    live = {}
    udp = i % 3 == 0                              # one socket that is not bound and gets answers, or others that send only
    ports = [p for p in r.sample([1, 2222, 2223, 44818, 50000, 65535, 8080], 4)]
    times = [1, 2, 7, 20, 999, 1000, 1500]

    def new():
        k = len(live)
        kind = "udp" if udp and k == 0 else r.choice(["tcp", "tcp", "bound"] if udp else ["tcp", "tcp", "bound", "bound"])
        ip = rip(r)
        a = dict(k=k, kind=kind, host=host(ip), ip=ip, port=ports.pop() if kind == "bound" and ports else r.choice([2222, 44818, 80, 65535]),
                 form=r.choice([0, 1]))
        if kind == "bound" and not ports:
            return
        if r.random() < .9:
            a["to"] = r.choice(times)
        x = r.random()
        good = True
        if x < .12:
            if kind == "tcp" and r.random() < .7:
                a["conn"] = r.choice(["refused", "inprog-refused", "timeout"])
                if r.random() < .6:
                    a["cto"] = r.choice([1, 10, 500, 2000])
                a.update(errno(r))
                good = False
            elif kind == "tcp" and r.random() < .6:
                a.update(conn=r.choice(["ok", "inprog"]), callfail=r.randrange(1, 5), **errno(r))
                good = False
            else:
                a[r.choice(["sockfail"] + (["bindfail", "optfail"] if kind == "bound" else []))] = 1
                good = False
        elif kind == "tcp" and r.random() < .4:
            a["conn"] = "inprog"
            if r.random() < .5:
                a["cto"] = r.choice([1, 100])
        sc.op("snew", **a)
        live[k] = dict(a, good=good, dead=False, sent=False, have=0, ended=False)

    def elems(x):
        """what a TCP peer sends"""
        out = []
        for _ in range(r.randrange(0, 4)):
            n = r.choice([1, 2, 5, 30, 100])
            x["have"] += n
            out.append({"d": rbytes(r, n)})
            if r.random() < .2:
                out.append({"k": "eintr"})
        if r.random() < .1:
            out.append({"k": r.choice(["eof", "rst"])})
            x["ended"] = True
        return out
    new()
    for _ in range(r.randrange(4, 14)):
        ok = [k for k in live if live[k]["good"] and not live[k]["dead"]]
        if not ok or r.random() < .15:
            new()
            continue
        k = r.choice(ok)
        x = live[k]
        y = r.random()
        if y < .08:
            x["to"] = r.choice(times)
            sc.op("sto", k=k, to=x["to"])
        elif y < .14:
            sc.op("sdel", k=k)
            x["dead"] = True
        elif x["kind"] == "tcp":
            if y < .55 and not x["ended"]:
                a = {}
                z = r.random()
                b = rbytes(r, r.choice([0, 1, 10, 24, 300, 70000 if r.random() < .1 else 3]))
                if z < .15:
                    a["tx"] = [{"k": "fail", "after": r.choice([0, 1, 5, 24]), "errno": r.choice([32, 104])}]
                elif z < .4:
                    a["tx"] = [r.choice([{"k": "ok", "chunk": r.choice([1, 3, 7])}, {"k": "eintr", "after": r.choice([0, 1, 10])}])]
                if "tx" in a and a["tx"][0]["k"] == "fail" and a["tx"][0]["after"] < len(b):
                    a["rx"] = []
                    sc.op("ssend", k=k, b=b, **a)
                elif b:
                    sc.op("ssend", k=k, b=b, rx=[elems(x)], **a)
                else:
                    sc.op("ssend", k=k, b=b)
            elif x.get("to") or x["ended"]:
                n = r.choice([0, 1, 2, x["have"] // 2, x["have"], x["have"] + 1, 5])
                x["have"] = max(0, x["have"] - n)
                sc.op("srecv", k=k, n=n)
        else:
            if y < .5 and (x["kind"] == "udp" or not udp):
                fail = {"tx": [{"k": "fail", "errno": r.choice([101, 113, 90])}]} if r.random() < .15 else {}
                sc.op("ssend", k=k, b=rbytes(r, r.choice([0, 1, 24, 500, 1400])), **fail)
                x["sent"] = x["sent"] or not fail
            elif x.get("to") and (x["kind"] == "bound" or x["sent"]):
                ds, u = [], 10 * x["to"]
                for _ in range(r.choice([0, 1, 1, 1, 2])):
                    d = {"at": r.choice([0, 0, 1, u // 2, u - 1, u, u + 1, 3 * u]), "port": x["port"] if x["kind"] == "bound" else 0,
                         "b": rbytes(r, r.choice([0, 1, 3, 24, 100, 504, 1400])), "ip": rip(r), "from": r.choice([1, 255, 256, 2222, 44818, 65535])}
                    if r.random() < .08:
                        d.update(err=r.choice(["ECONNREFUSED", "ENETDOWN"]), b=[])
                    ds.append(d)
                sc.op("srecv", k=k, n=r.choice([0, 1, 24, 504, 4096, 65535]), dg=ds, **{"from": r.choice([0, 1])})
    return sc.done()

# ---------------------------------------------------------------- signals (P26)
@fam
def signal(r, i):
    """scripts of other families, with signals that arrive while the library waits"""
    d = FAMS[["route", "disc", "watchdog", "plain", "produce", "sess", "garbage", "plain", "disc", "close", "upload", "param",
              "plain", "dpi", "req", "fo"][i % 16]](r, i // 16)
    d["fam"] = "signal"

    def at(top):
        return sorted(r.choice([0, 1, r.randrange(top + 1), r.randrange(top + 1), max(0, top - r.randrange(12))]) for _ in range(r.choice([1, 1, 2, 5])))
    for o in d["ops"]:
        if r.random() < .25:
            continue
        if o["op"] == "handle" and o.get("to"):
            o["sig"] = at(10 * o["to"])
        elif o["op"] == "disc":
            o["sig"] = at(10 * o["to"] + (max([x["at"] for x in o["dg"]] or [0]) if r.random() < .5 else 0))
        elif o["op"] == "srecv":
            o["sig"] = at(r.choice([10, 200, 10000, 15000]))
        elif o["op"] in ("sess", "snew") and o.get("kind", "tcp") == "tcp":
            if r.random() < .5 and "conn" not in o:
                o["conn"] = "inprog"
            if o.get("conn") in ("inprog", "inprog-refused", "timeout"):
                top = 10 * min(o.get("cto", 1000), o["to"] if o["op"] == "sess" and "to" in o else 1000)
                if o["conn"] != "timeout":
                    o["cw"] = min(max(0, top - 10), r.choice([0, 1, top // 2, top]))
                o["sig"] = at(o.get("cw", top))
        # ... and while it sends datagrams
        if "tx" not in o and r.random() < .4 and (o["op"] in ("handle", "disc") or o["op"] == "ssend" and not o.get("rx")):
            o["tx"] = [{"k": r.choice(["ok", "eintr"])} for _ in range(r.choice([1, 1, 2, 5]))]
        # ... and while it sends requests and receives their answers
        if o.get("rx") and "k" not in o and r.random() < .6:
            o["rx"] = [interrupted(r, q) if isinstance(q, list) else q for q in o["rx"]]
            if "tx" not in o and r.random() < .5:
                o["tx"] = [{"k": "eintr", "after": r.choice([0, 1, 10, 24, 30])}]
    return d


# ---------------------------------------------------------------- the log has no effect (P27)
LOUD = ["disc", "route", "plain", "watchdog", "sess", "produce", "param", "upload", "disc", "garbage", "close", "req", "plain", "dpi",
        "resp", "fo", "reentry", "sockets", "filestate", "signal", "mix", "seg", "badst", "ident", "fixsize"]


@fam
def loud(r, i):
    """scripts of other families, with everything logged, or more and less of it from one operation to the next"""
    d = FAMS[LOUD[i % len(LOUD)]](r, i // len(LOUD))
    d["fam"] = "loud"
    d["log"] = r.choice(["trace", "trace", "trace", "default"])
    if r.random() < .4:
        for k in range(len(d["ops"]), -1, -1):
            if r.random() < .3:
                d["ops"].insert(k, {"op": "loglevel", "lvl": r.choice([0, 1, 2, 3, 4, 5, 5, 5])})
    return d


def interrupted(r, q):
    out = []
    for e in q:
        while r.random() < .3:
            out.append({"k": "eintr"})
        if "d" in e and "echo" not in e and len(e["d"]) > 1 and r.random() < .3:
            n = r.randrange(1, len(e["d"]))
            out += [{"d": e["d"][:n]}, {"k": "eintr"}, {"d": e["d"][n:]}]
        else:
            out.append(e)
    return out


# ---------------------------------------------------------------- everything at once
@fam
def mix(r, i):
    """long histories in which everything the library offers is used together, on several sessions"""
    sc = Sc(r, "mix", cost=r.choice([0, 0, 0, 1]), log=r.choice(["off", "off", "off", "trace"]))
    if i % 7 == 6:
        sc.op("mgr", r="8")
    eight = i % 7 == 6
    ss, dead, cs, files, params, mgrs, out = [], [], [], {}, {}, {}, sc.d["ops"]
    ids = t2oids(r, 8)
    g = lambda s, svc, d, **kw: chunks(r, reply(sc.h[s], svc, data=d, **kw), r.choice(["one", "one", "one", "hdr", "random"]))

    def spoil(s, svc):
        """now and then the peer answers with something else"""
        x = r.random()
        if x < .02:
            return [{"k": r.choice(["eof", "rst", "tmo"])}]
        if x < .05:
            return [{"d": badreply(r, sc, s, svc)}]
        if x < .07:
            return g(s, svc, rbytes(r, r.choice([0, 1, 2, 9])), status=err(r))
        return None

    def ask(s, svc, d):
        return spoil(s, svc) or g(s, svc, d)

    def step(inner=False):
        x = r.random() if inner or not cs or r.random() < .75 else .9
        if not ss or (x < .04 and not inner):
            if inner:
                return
            ss.append(sc.session(to=r.choice([None, 5, 1000])))
            return
        s = r.choice(ss if r.random() < .9 or not dead else dead)
        if x < .07 and not inner:
            if s in ss and len(ss) + len(dead) > 1:
                ss.remove(s)
                sc.op("unsess", s=s)
        elif x < .2:
            mr(sc, s, rx=lambda v: spoil(s, v) or chunks(r, good(sc, s, v), r.choice(["one", "random"])))
        elif x < .26:
            a = paramargs(r, sc, s, p=r.randrange(4))
            if r.random() < .1:
                j = r.randrange(len(a["rx"]))
                a["rx"][j] = spoil(s, 14) or a["rx"][j]
            params[a["p"]] = a["ty"]
            sc.op("param", **a)
        elif x < .31 and params:
            p = r.choice(sorted(params))
            n = SIZES[params[p]]
            sc.op("update", s=s, p=p, ty=params[p], rx=[ask(s, 14, rbytes(r, n - r.choice([0, 0, 0, 0, 1])))])
            sc.op("pget", p=p, ty=params[p])
        elif x < .36:
            sc.op("ident", s=s, inst=1, rx=[ask(s, 1, identdata(r))])
        elif x < .40:
            n, det = r.choice([0, 1, 2, 10]), r.choice([0, 1])
            rx = dpirx(r, sc, s, n, det)
            if r.random() < .1 and rx:
                j = r.randrange(len(rx))
                rx[j] = spoil(s, 14) or rx[j]
            sc.op("dpi", s=s, clear=r.choice([0, 1]), details=det, rx=rx)
        elif x < .43 and not inner:
            f = r.randrange(3)
            files[f] = None
            sc.op("file", f=f, s=s, inst=r.choice([200, 1]), rx=[ask(s, 14, [r.choice([2, 2, 2, 2, 3])])])
        elif x < .53 and files:
            f = r.choice(sorted(files))
            st = files[f]
            if st == "over":
                if r.random() < .5:
                    sc.op(r.choice(["xfer", "xfer", "begin"]), f=f, s=s, rx=[ask(s, 79, [0, 2, 1, 2, 3])])
                files[f] = None
                sc.op("fsync", f=f, s=s, rx=[ask(s, 14, [r.choice([2, 2, 0, 1])])])
            elif st is None or r.random() < .05:
                n, ts = r.choice([1, 4, 9]), r.choice([1, 2, 4])
                files[f] = [n, ts, 0]
                sc.op("begin", f=f, s=s, rx=[ask(s, 75, le(n, 4) + [ts])])
            else:
                n, ts, k = st
                packs = max(1, -(-n // ts))
                last = k == packs - 1
                ty = 2 if last and k == 0 else 4 if last else 0 if k == 0 else 1
                d = rbytes(r, n - k * ts if last else ts) + ([1, 2] if last else [])
                sc.op("xfer", f=f, s=s, rx=[ask(s, 79, [k, ty] + d)])
                st[2] += 1
                if last:
                    files[f] = "over"
        elif x < .55 and files:
            f = r.choice(sorted(files))
            files[f] = None
            sc.op("fsync", f=f, s=s, rx=[ask(s, 14, [r.choice([2, 2, 0, 1])])])
        elif x < .59 and not inner:
            a = r.choice([None] + list(mgrs.values()))
            b = discop(r, sc, .3, a)
            if a is None and len(mgrs) < 2:
                m = len(mgrs) + 1
                mgrs[m] = b
                b["m"] = sc.d["ops"][-1]["m"] = m
        elif x < .67 and len(cs) < 8 and ids:
            t = ids.pop() if r.random() < .85 or not cs else sc.conn[r.choice(cs)]["t2o"]
            a = openargs(r, sc, s, **smallio(r, large=0))
            b = openreply(r, sc, s, a, t2o=t, t2oapi=r.choice([2000, 10000, 100000]), o2tapi=r.choice([100, 1000, 5000, 1000000]))
            a["rx"] = [r.choice([[{"d": b, "echo": serecho(eight)}]] * 12 + [[{"d": badreply(r, sc, s, 0x54)}], [{"k": "eof"}]])]
            sc.op("open", **a)
            cs.append(a["c"])
            setdata(r, sc, [a["c"]])
        elif x < .71 and cs:
            c = r.choice(cs)
            sc.conn[c]["s"] = s                   # any session to the target will do
            closeop(r, sc, c)
        elif x < .72 and cs:
            relisten(r, sc, r.choice(cs))
        elif x < .74 and cs:
            c = r.choice(cs)
            sc.op("setdata", c=c, b=rbytes(r, sc.conn[c]["o2tsize"]))
        elif x < .78:
            sc.op("adv", u=r.choice([1, 10, 49, 50, 400, 3000]))
        elif x < .80:
            sc.op("hasopen")
        elif x < .82 and cs and not inner:
            sc.op("hold" if r.random() < .5 else "drop", c=r.choice(cs))
        elif x < .83 and not inner:
            sc.op("loglevel", lvl=r.choice([0, 5]))
        elif not inner and cs:
            to = r.choice([0, 0, 1, 5, 20])
            ds = []
            if to >= 5:
                for _ in range(r.randrange(0, 5)):
                    c = r.choice(cs)
                    y = r.random()
                    b = iodg(r, sc, c) if y < .7 else wrongsize(r, sc, c) if y < .85 else foreign(r, sc)
                    ds.append({"at": r.randrange(0, 10 * to - 20), "b": b})
            sc.op("handle", to=to, dg=sorted(ds, key=lambda d: d["at"]))
    ss.append(sc.session())
    for _ in range(r.randrange(15, 45)):
        if r.random() < .08:                      # a listener that does some of it
            k = r.choice(["recv", "send", "send", "close", "file", "fault"])
            if k in ("recv", "send", "close") and not cs:
                continue
            c = r.choice(cs) if k in ("recv", "send", "close") else 0 if k == "fault" else r.randrange(3)
            progs = []
            for _ in range(r.randrange(1, 5)):
                n = len(out)
                for _ in range(r.choice([1, 1, 2])):
                    step(True)
                prog = out[n:]
                del out[n:]
                progs.append(prog)
            sc.op("on", c=c, k=k, do=progs)
        else:
            step()
    if r.random() < .3:
        sc.op("delmgr")
    return sc.done()


def make(name, seed, count, start=0):
    out = []
    for i in range(start, start + count):
        r = random.Random("%s/%s/%d" % (name, seed, i))
        sc = FAMS[name](r, i)
        if "log" not in sc and random.Random("log/%s/%s/%d" % (name, seed, i)).random() < .25:
            sc["log"] = "trace"               # what the library logs changes nothing of what it does
        out.append(sc)
    return out
