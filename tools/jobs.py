"""What is checked for each property."""
import random
from vlib import *

QUICK = TIER != "thorough"


def pick(q, t):
    return q if QUICK else t


def spread(scheds, cfgs, every=False):
    """Gives each schedule one of the configurations in turn, or all of them."""
    out = []
    for i, (c, s) in enumerate(scheds):
        for cfg in (cfgs if every else [cfgs[i % len(cfgs)]]):
            out.append((c, cfg, s))
    return out


# ---------------------------------------------------------------------------------------------------------------------
# Callee: C01, C03, C04

CALLEE_INV = ["TypeOK", "AnsweredAtMostOnce", "FinishedIsAnswered", "NoAnswerOwed", "StreamOrder", "UploadOrder",
              "UploadsEnd", "CapRespected"]
CALLEE_METHODS = {"val", "void", "two", "gate", "gvoid", "panic", "chan", "gchan", "up", "up2", "gup", "upleave", "uppanic",
                  "noenc", "unknown", "badtype", "badcount", "upfew", "upmany", "upsame", "lifecycle"}


def callee_consts(ncalls, items, methods, cap=0, batch=1, cancels=2, maxlen=12, junks=(), nbrs=(), maxjunk=0, buf=10):
    return dict(NCalls=ncalls, MaxItems=items, Methods=set(methods), Cap=cap, Batch=batch, MaxCancels=cancels,
                BufCap=buf, Junks=set(junks), Nbrs=set(nbrs), MaxJunk=maxjunk, MaxLen=maxlen)


def callee_mc(*a, **kw):
    c = callee_consts(*a, **kw)
    c.pop("MaxLen")
    return c


def callee_trace(c, cfg):
    c = dict(c, NCalls=cfg["ncalls"], Cap=cfg["cap"])
    c.pop("MaxLen")
    return c


CALLEE_CFGS = [dict(proto=p, role=r, detailed=d) for p, r, d in
               [("json", "server", False), ("messagepack", "server", True), ("json", "client", True), ("messagepack", "client", False)]]


def callee_run(chk, gens):
    sch = chk.schedules("Callee", gens)
    items = []
    for i, (c, s) in enumerate(sch):
        items.append((c, dict(CALLEE_CFGS[i % 4], ncalls=c["NCalls"], cap=c["Cap"], buf=c["BufCap"], fuzz=SEED * 100000 + i), s))
    chk.conform("Callee", "callee", items, callee_trace)


def c01(chk):
    chk.model("MC_Callee", "2 calls", callee_mc(2, 1, {"val", "void", "gate", "panic", "unknown", "chan"}, batch=2, cancels=1),
              CALLEE_INV, ["NoItemAfterCancel"])
    plain = {"val", "void", "two", "gate", "gvoid", "panic", "chan", "noenc", "unknown", "badtype", "badcount", "lifecycle"}
    callee_run(chk, [
        dict(name="two calls, plain method kinds", constants=callee_consts(2, 1, plain, batch=2, cancels=0, maxlen=8), limit=pick(4000, 40000)),
        dict(name="two calls, methods with uploads", constants=callee_consts(2, 1, {"up", "uppanic", "upleave", "upmany", "upfew", "upsame", "gate"}, cancels=0, maxlen=8), limit=pick(2000, 20000)),
        dict(name="one call in a crowd", constants=callee_consts(1, 1, plain | {"up"}, batch=2, cancels=0, maxjunk=1, maxlen=8), must={"storm", "crowd", "herd"}, limit=pick(500, 5000)),
        dict(name="walks", constants=callee_consts(5, 2, CALLEE_METHODS, batch=3, cancels=2, maxlen=pick(20, 30)), walks=pick(300, 4000), limit=pick(2500, 20000)),
    ])


def c03(chk):
    chk.model("MC_Callee", "2 streams", callee_mc(2, 2, {"chan", "gchan"}, cancels=2), CALLEE_INV, ["NoItemAfterCancel"])
    callee_run(chk, [
        dict(name="two streams", constants=callee_consts(2, 2, {"chan", "gchan"}, cancels=2, maxlen=10), limit=pick(4000, 60000)),
        dict(name="one stream, batches, noise", constants=callee_consts(1, 3, {"chan", "gchan"}, batch=3, cancels=2, maxjunk=1, maxlen=10), limit=pick(2000, 30000)),
        dict(name="walks", constants=callee_consts(6, 4, {"chan", "gchan", "val", "gate"}, batch=3, cancels=6, maxjunk=1, maxlen=pick(30, 45)), walks=pick(300, 4000), limit=pick(2500, 20000)),
    ])


def c04(chk):
    chk.model("MC_Callee", "2 uploads, limit 1", callee_mc(2, 1, {"up"}, cap=1, cancels=0), CALLEE_INV)
    chk.model("MC_Callee", "late reader", callee_mc(2, 2, {"gup"}, buf=1, cancels=0), CALLEE_INV)
    chk.model("MC_Callee", "uploads, drop", callee_mc(1, 2, {"up", "up2", "upleave"}, batch=2, cancels=0), CALLEE_INV)
    ups = {"up", "up2", "upleave", "upsame", "upfew", "upmany"}
    callee_run(chk, [
        dict(name="two uploads, limit 1", constants=callee_consts(2, 1, {"up", "up2", "upleave", "upsame"}, cap=1, cancels=0, maxlen=9), limit=pick(3000, 40000)),
        dict(name="two uploads, limit 2", constants=callee_consts(2, 1, {"up", "up2"}, cap=2, cancels=0, maxlen=9), limit=pick(2000, 40000)),
        dict(name="one upload, batches", constants=callee_consts(1, 3, ups, cancels=0, batch=3, maxlen=8), limit=pick(1500, 30000)),
        dict(name="a method which reads late", constants=callee_consts(1, 4, {"gup"}, cancels=0, batch=2, buf=2, maxlen=9), limit=pick(1000, 20000)),
        dict(name="two methods which read late", constants=callee_consts(2, 2, {"gup"}, cancels=0, buf=1, maxlen=9), limit=pick(1000, 20000)),
        dict(name="walks", constants=callee_consts(6, 4, ups | {"val"}, batch=3, cancels=0, maxlen=pick(30, 45)), walks=pick(200, 3000), limit=pick(1500, 15000)),
        dict(name="walks, limit 2", constants=callee_consts(6, 3, ups | {"uppanic", "gup"}, cap=2, batch=2, cancels=0, maxlen=pick(30, 45)), walks=pick(200, 3000), limit=pick(1500, 15000)),
    ])


NJUNK = 43


def c10(chk):
    chk.model("MC_Callee", "junk", callee_mc(2, 1, {"val", "gate", "panic", "chan"}, batch=2, cancels=0, junks={0}, nbrs={0}, maxjunk=2), CALLEE_INV)
    ms = {"val", "gate", "panic"}
    fuzz = {100}  # the driver makes a different one of each occurrence
    callee_run(chk, [
        dict(name="one call, every kind of junk", constants=callee_consts(1, 1, ms | {"up"}, batch=2, cancels=0, junks=set(range(NJUNK)), maxjunk=1, maxlen=6), limit=pick(3000, 40000)),
        dict(name="one call, every kind of neighbour", constants=callee_consts(1, 1, {"val", "gate"}, cancels=0, nbrs=set(range(100)), maxjunk=1, maxlen=6), limit=pick(3000, 40000)),
        dict(name="panics", constants=callee_consts(2, 1, {"panic", "uppanic", "gate", "gchan", "gvoid"}, batch=2, cancels=0, maxlen=8), limit=pick(1500, 15000)),
        dict(name="walks", constants=callee_consts(5, 2, CALLEE_METHODS, batch=3, cancels=2, junks=set(range(NJUNK)), nbrs=fuzz, maxjunk=4, maxlen=pick(16, 30)),
             walks=pick(300, 3000), limit=pick(3000, 30000)),
        dict(name="hostile neighbours", constants=callee_consts(2, 1, {"gate", "chan"}, cancels=0, nbrs=fuzz, maxjunk=6, maxlen=pick(9, 9)), walks=pick(300, 2000), limit=pick(2000, 20000)),
    ])


# ---------------------------------------------------------------------------------------------------------------------
# Hub: C05 .. C09

HUB_INV = ["TypeOK", "GroupsAreLive", "IdsExclusive", "OnlyAddressed", "NotTwice", "NobodyWaits", "DownMeansAllGone"]


def hub_consts(conns, inv, msg, ids=("a", "b"), groups=("g",), kinds=("ok",), cbs=("none",), ends=("drop",), outs=(), ops=(),
               gates=(False,), features=(), perconn=False, maxlen=8):
    return dict(NConns=conns, NInv=inv, NMsg=msg, Ids=set(ids), Groups=set(groups), Kinds=set(kinds), Cbs=set(cbs),
                Ends=set(ends), Outs=set(outs), Ops=set(ops), Gates=set(gates), Features=set(features), PerConn=perconn, MaxLen=maxlen)


def hub_mc(*a, **kw):
    c = hub_consts(*a, **kw)
    c.pop("MaxLen")
    return c


def hub_trace(c, cfg):
    return dict({k: v for k, v in c.items() if k != "MaxLen"}, PerConn=cfg["mode"] == "perconn")


HUB_ENDS = ("drop", "err", "bye", "byeerr", "junk", "unexp")
HUB_OPS = ("all", "caller", "client", "group", "join", "leave", "add", "del", "set", "get", "abort", "panic")


def hub_run(chk, gens, modes=("factory", "perconn", "simple")):
    sch = chk.schedules("Hub", gens)
    items = []
    for i, (c, s) in enumerate(sch):
        ms = ("perconn",) if c["PerConn"] else modes
        items.append((c, dict(mode=ms[i % len(ms)], flip=i // 3 % 2, names=i // 6 % 3, nconns=c["NConns"], ninv=c["NInv"],
                              group=min(c["Groups"])), s))
    chk.conform("Hub", "hub", items, hub_trace)


def hub_walks(name, n, maxlen, **kw):
    """Random walks: everything can happen, with some emphasis."""
    d = dict(ids=("a", "b", "c"), groups=("g", "h"), kinds=("ok", "half", "stall"), cbs=("none", "talk"), ends=HUB_ENDS,
             outs=("all", "client", "group"), ops=HUB_OPS, gates=(False, True), features=("stall", "par", "gc", "churn", "shutdown"))
    d.update(kw)
    return dict(name=name, constants=hub_consts(pick(4, 5), pick(6, 8), pick(6, 8), maxlen=maxlen, **d), walks=n, limit=pick(600, 8000))


def hub_mobs():
    return dict(name="mobs", constants=hub_consts(2, 1, 1, ids=("a", "b"), kinds=("ok", "half"), cbs=("none", "block", "talk"), outs=("all",),
                                                  ops=("join", "all"), gates=(False, True), features=("mob", "stall"), maxlen=4), must={"mob"}, limit=pick(150, 1500))


def c05(chk):
    chk.model("MC_Hub", "sends, groups, stalls", hub_mc(2, 2, 1, ids=("a",), outs=("all",), ops=("join", "group", "abort"), gates=(False, True),
                                                       features=("stall", "par", "shutdown")), HUB_INV, ["GoneStaysGone"])
    outs = ("all", "client", "group")
    hub_run(chk, [
        dict(name="three clients, sends from outside", constants=hub_consts(3, 1, 1, ids=("a", "b", "c"), ends=("drop",), outs=outs, ops=("join", "add"), maxlen=7), limit=pick(1500, 20000)),
        dict(name="two clients, sends from hubs", constants=hub_consts(2, 2, 0, ids=("a", "b"), ops=("all", "caller", "client", "group", "join"), gates=(False, True), maxlen=7), limit=pick(1500, 20000)),
        dict(name="joins and leaves", constants=hub_consts(2, 3, 1, groups=("g", "h"), outs=("group",), ops=("join", "leave", "add", "del"), maxlen=8), limit=pick(1500, 20000)),
        dict(name="pairs of actions", constants=hub_consts(2, 2, 2, ids=("a",), cbs=("talk",), outs=("all", "group"), ops=("join", "all"), features=("par",), maxlen=6), limit=pick(1200, 20000)),
        hub_walks("walks", pick(500, 6000), pick(14, 18), features=("stall", "par", "churn"), ops=HUB_OPS[:8]),
        dict(name="members come and go", constants=hub_consts(5, 16, 12, ids=("a", "b", "c", "d"), groups=("g",), outs=("group",), ops=("join", "leave", "add", "del", "group"), maxlen=pick(30, 40)),
             walks=pick(200, 3000), limit=pick(200, 3000)),
        hub_mobs(),
    ])


def c06(chk):
    chk.model("MC_Hub", "ids used again", hub_mc(3, 2, 1, ids=("a",), outs=("group",), ops=("join",), gates=(True,), features=("par",)), HUB_INV, ["GoneStaysGone"])
    hub_run(chk, [
        dict(name="an id is used again", constants=hub_consts(3, 2, 1, ids=("a",), ends=("drop", "bye"), outs=("group",), ops=("join", "set"), gates=(False, True), features=("gc",), maxlen=8), limit=pick(1500, 20000)),
        dict(name="every end", constants=hub_consts(2, 2, 1, ids=("a",), cbs=("none", "talk"), ends=HUB_ENDS + ("timeout",), outs=("all", "group"), ops=("join", "abort"), features=("gc",), maxlen=7), limit=pick(1200, 20000)),
        dict(name="ends together with others", constants=hub_consts(2, 2, 2, ids=("a",), cbs=("talk",), ends=("drop", "bye"), outs=("group",), ops=("join", "get"), gates=(False, True), features=("par", "gc"), maxlen=6), limit=pick(1200, 20000)),
        dict(name="never connected", constants=hub_consts(2, 0, 1, ids=("a",), kinds=("half", "stall", "badproto", "malformed", "eof"), outs=("all",), features=("gc", "stall"), maxlen=6), limit=pick(500, 2000)),
        hub_walks("walks", pick(400, 6000), pick(14, 18), ids=("a", "b"), ops=("join", "leave", "add", "group", "set", "get", "abort"), features=("par", "gc", "churn")),
        hub_walks("crowds", pick(60, 600), 4, ids=("a", "b"), ops=("join",), gates=(False,), features=("gc", "churn")),
    ])


def c07(chk):
    chk.model("MC_Hub", "stalls", hub_mc(2, 2, 1, outs=("all",), cbs=("block", "none"), ops=("all", "join"), gates=(False, True), features=("stall",)), HUB_INV, ["GoneStaysGone"])
    hub_run(chk, [
        dict(name="clients which do not read", constants=hub_consts(3, 1, 1, ids=("a", "b", "c"), kinds=("ok", "stall"), ends=("drop", "bye"), outs=("all", "client"), ops=("all", "join"), features=("stall",), maxlen=7), limit=pick(2000, 20000)),
        dict(name="blocked methods and callbacks", constants=hub_consts(2, 2, 1, cbs=("none", "block"), ends=("drop", "junk"), outs=("all", "group"), ops=("all", "join", "get"), gates=(False, True), maxlen=7), limit=pick(2000, 20000)),
        dict(name="clients which do not read, groups", constants=hub_consts(2, 2, 2, ids=("a", "b"), ends=("bye", "junk"), outs=("group",), ops=("add", "leave"), features=("stall",), maxlen=8), limit=pick(1000, 20000)),
        hub_walks("walks", pick(500, 6000), pick(14, 18), cbs=("none", "block", "talk"), features=("stall", "par", "shutdown"), kinds=("ok", "stall", "half")),
        hub_mobs(),
    ])


def c08(chk):
    chk.model("MC_Hub", "ends", hub_mc(2, 1, 0, kinds=("ok", "half", "stall", "badproto"), cbs=("none", "talk"), ends=("drop", "bye"), ops=("abort",), gates=(False, True),
                                      features=("stall", "shutdown", "par")), HUB_INV, ["GoneStaysGone"])
    kinds = ("ok", "half", "stall", "badproto", "malformed", "eof")
    hub_run(chk, [
        dict(name="one connection, every way to open and to end it", constants=hub_consts(1, 1, 0, ids=("a",), kinds=kinds, cbs=("none", "block", "talk"), ends=HUB_ENDS + ("timeout",), ops=("abort",), gates=(False, True), features=("stall", "shutdown", "par"), maxlen=7), limit=pick(1500, 20000)),
        dict(name="two connections", constants=hub_consts(2, 1, 0, kinds=("ok", "half", "stall", "malformed"), cbs=("none", "block"), ends=("drop", "bye", "junk"), ops=("abort",), gates=(False, True), features=("stall", "shutdown"), maxlen=7), limit=pick(2500, 20000)),
        dict(name="pairs of actions", constants=hub_consts(2, 1, 0, kinds=("ok",), cbs=("talk",), ends=("drop", "bye"), ops=("abort",), features=("shutdown", "par", "stall"), maxlen=6), limit=pick(1200, 20000)),
        hub_walks("walks", pick(400, 6000), pick(12, 16), kinds=kinds, cbs=("none", "talk", "block"), ends=HUB_ENDS + ("timeout",), outs=("all",), ops=("abort", "all", "join", "panic")),
        hub_walks("crowds", pick(60, 600), 4, ids=("a", "b"), ops=("join",), gates=(False,), features=("gc", "churn")),
    ])


def c09(chk):
    chk.model("MC_Hub", "items", hub_mc(3, 3, 0, ids=("a", "b"), ops=("set", "get"), gates=(True,), perconn=True), HUB_INV, ["GoneStaysGone"])
    hub_run(chk, [
        dict(name="items", constants=hub_consts(2, 4, 0, ids=("a", "b"), ops=("set", "get"), gates=(False, True), maxlen=8), limit=pick(1500, 20000)),
        dict(name="a hub for each connection, ids used again", constants=hub_consts(3, 3, 0, ids=("a", "b"), cbs=("none", "talk"), ends=("drop", "bye"), ops=("set", "get", "panic"), perconn=True, maxlen=8), limit=pick(2000, 20000)),
        dict(name="a hub for each connection, pairs of actions", constants=hub_consts(2, 2, 0, ids=("a", "b"), kinds=("ok", "half"), cbs=("talk",), ends=("drop",), ops=("set", "get"), perconn=True, features=("par",), maxlen=6), limit=pick(1200, 20000)),
        dict(name="a hub for each connection, failed handshakes", constants=hub_consts(2, 1, 0, ids=("a",), kinds=("ok", "half", "stall", "badproto", "malformed", "eof"), ops=("get",), perconn=True, features=("gc",), maxlen=6), limit=pick(500, 20000)),
        hub_walks("walks", pick(400, 6000), pick(14, 18), perconn=True, ids=("a", "b"), ops=("set", "get", "abort", "panic", "all")),
        hub_walks("walks without", pick(100, 2000), pick(14, 18), ids=("a", "b"), ops=("set", "get", "abort")),
    ])


# ---------------------------------------------------------------------------------------------------------------------
# Caller: C02

CALLER_INV = ["TypeOK", "ResolvesOnce", "NoneHangs", "OpenIsHere", "UpIsPrefix"]
ALLENDS = ("drop", "err", "bye", "byeerr", "byere", "byeerrre")
ANSWERS = ("res", "void", "err", "item")
CALLKINDS = ("invoke", "send", "pull", "push")


def caller_consts(calls, conns=1, kinds=CALLKINDS, answers=ANSWERS, ends=("drop",), batch=1, items=2, reconn=False, feats=(), maxlen=8):
    return dict(NCalls=calls, NConns=conns, Kinds=set(kinds), Answers=set(answers), Ends=set(ends), Batch=batch, NItems=items,
                Reconn=reconn, Feats=set(feats), MaxLen=maxlen)


def caller_mc(*a, **kw):
    c = caller_consts(*a, **kw)
    c.pop("MaxLen")
    return c


def caller_run(chk, gens):
    items = []
    for i, (c, s) in enumerate(chk.schedules("Caller", gens)):
        items.append((c, dict(proto=("json", "messagepack")[i % 2], ncalls=c["NCalls"], reconn=c["Reconn"], buf=10 if "hold" in c["Feats"] else (10, 1, 2)[i // 2 % 3]), s))
    chk.conform("Caller", "caller", items, lambda c, cfg: {k: v for k, v in c.items() if k != "MaxLen"})


def c02(chk):
    chk.model("MC_Caller", "two calls, reconnecting", caller_mc(2, 2, ("invoke", "pull"), ends=("drop", "bye"), reconn=True, feats=("par", "stop", "stall")), CALLER_INV, ["GotOnlyGrows"])
    chk.model("MC_Caller", "streams both ways", caller_mc(2, 1, ("pull", "push"), batch=3, feats=("par", "stop", "junk")), CALLER_INV, ["GotOnlyGrows"])
    chk.model("MC_Caller", "a user who does not read", caller_mc(2, 1, ("pull",), batch=2, feats=("hold", "stop")), CALLER_INV, ["GotOnlyGrows"])
    caller_run(chk, [
        dict(name="one call", constants=caller_consts(1, 1, ends=ALLENDS, batch=3, feats=("stop", "stall", "junk", "srvinv", "early"), maxlen=7), limit=pick(1500, 20000)),
        dict(name="two calls", constants=caller_consts(2, 1, ("invoke", "pull"), ends=("drop",), batch=2, feats=("stop", "stall"), maxlen=8), limit=pick(2000, 20000)),
        dict(name="two calls, reconnecting", constants=caller_consts(2, 2, ("invoke", "pull"), ("void", "res", "err"), ends=("drop", "bye", "byere"), reconn=True, feats=("stop", "junk"), maxlen=8), limit=pick(2000, 20000)),
        dict(name="a user who does not read", constants=caller_consts(2, 1, ("invoke", "pull"), ends=("drop", "bye"), batch=3, feats=("stop", "hold"), maxlen=8), limit=pick(1200, 20000)),
        dict(name="a crowd of calls", constants=caller_consts(2, 2, ends=("drop",), reconn=True, feats=("storm", "stall"), maxlen=6), must={"storm", "quick"}, limit=pick(250, 3000)),
        dict(name="pushed streams", constants=caller_consts(2, 1, ("push",), ("res", "err"), feats=("stall",), maxlen=8), limit=pick(1000, 20000)),
        dict(name="pairs of actions", constants=caller_consts(2, 1, ("invoke", "pull"), batch=3, feats=("par", "stop"), maxlen=6), limit=pick(2000, 20000)),
        dict(name="pairs of actions, reconnecting", constants=caller_consts(2, 2, ("send", "push"), ("res", "err"), reconn=True, feats=("par", "stop"), maxlen=6), limit=pick(1500, 20000)),
        dict(name="walks", constants=caller_consts(12, 1, ends=ALLENDS, batch=3, items=4, feats=("par", "stop", "stall", "srvinv", "hold"), maxlen=pick(16, 24)), walks=pick(500, 6000), limit=pick(600, 8000)),
        dict(name="walks, reconnecting", constants=caller_consts(12, 4, ends=ALLENDS, batch=3, items=4, reconn=True, feats=("par", "stop", "stall", "junk", "early"), maxlen=pick(16, 24)), walks=pick(500, 6000), limit=pick(600, 8000)),
    ])


# ---------------------------------------------------------------------------------------------------------------------
# Client: C15, C16

CLIENT_INV = ["TypeOK", "StateTells", "ObserversSeePaths", "ObserversAreUpToDate", "WaitsEnd", "NotStopped", "OneConnection", "Waiting"]
CLIENT_PROPS = ["ClosedForGood", "NeverAgain", "Restarted"]
HSFAILS = ("error", "malformed", "eof", "early")
STATES = ("created", "connecting", "up", "closed")


def client_consts(conns=3, obs=0, waits=0, reconn=True, limit=0, d0=1, h=2, t=0, ends=("drop",), hsfails=("error",), targets=STATES, feats=(), maxlen=8):
    return dict(NConns=conns if reconn else 1, NObs=obs, NWaits=waits, Reconn=reconn, Limit=limit, D0=d0, H=h, T=t, Ends=set(ends),
                HsFails=set(hsfails), Targets=set(targets), Feats=set(feats), MaxLen=maxlen)


def client_mc(**kw):
    c = client_consts(**kw)
    c.pop("MaxLen")
    return c


def client_run(chk, gens):
    items = []
    for i, (c, s) in enumerate(chk.schedules("Client", gens)):
        items.append((c, dict(proto=("json", "messagepack")[i % 2], nconns=c["NConns"], nobs=c["NObs"], nwaits=c["NWaits"], reconn=c["Reconn"],
                              limit=c["Limit"], d0=c["D0"], h=c["H"], t=c["T"], obuf=(0, 1)[i // 2 % 2]), s))
    chk.conform("Client", "client", items, lambda c, cfg: {k: v for k, v in c.items() if k != "MaxLen"})


def c15(chk):
    chk.model("MC_Client", "observers and waits", client_mc(conns=2, obs=1, waits=1, limit=1, t=1, h=1, feats=("par", "stop", "lazy", "dialfail")), CLIENT_INV, CLIENT_PROPS)
    everything = ("par", "stop", "cancel", "stall", "lazy", "dialfail", "bundle", "msg")
    client_run(chk, [
        dict(name="an observer", constants=client_consts(conns=2, obs=1, limit=1, feats=("stop", "lazy", "dialfail", "bundle"), maxlen=9), limit=pick(1500, 20000)),
        dict(name="a wait", constants=client_consts(conns=2, waits=1, limit=1, feats=("stop", "cancel", "dialfail", "bundle"), maxlen=9), limit=pick(1500, 20000)),
        dict(name="two observers", constants=client_consts(conns=1, obs=2, reconn=False, ends=("drop",), feats=("stop", "lazy"), maxlen=8), limit=pick(1000, 20000)),
        dict(name="without a connector", constants=client_consts(reconn=False, t=2, obs=1, waits=1, ends=ALLENDS + ("junk",), hsfails=HSFAILS, targets=("up", "closed"), feats=("stop", "cancel", "bundle"), maxlen=7), limit=pick(1500, 20000)),
        dict(name="pairs of actions", constants=client_consts(conns=2, obs=1, waits=1, limit=1, ends=("drop", "bye"), feats=("par", "stop", "dialfail"), maxlen=6), limit=pick(2000, 20000)),
        dict(name="walks", constants=client_consts(conns=6, obs=4, waits=4, limit=3, t=3, ends=ALLENDS + ("junk",), hsfails=HSFAILS, feats=everything, maxlen=pick(24, 36)), walks=pick(500, 6000), limit=pick(800, 8000)),
        dict(name="walks without pairs", constants=client_consts(conns=6, obs=4, waits=4, ends=ALLENDS, hsfails=HSFAILS, feats=("lazy", "dialfail", "bundle"), maxlen=pick(24, 36)), walks=pick(300, 6000), limit=pick(500, 8000)),
    ])


def c16(chk):
    chk.model("MC_Client", "reconnecting", client_mc(conns=5, limit=2, t=2, ends=("drop", "bye", "byere"), feats=("par", "stop", "dialfail", "stall", "msg")), CLIENT_INV, CLIENT_PROPS)
    chk.model("MC_Client", "forever", client_mc(conns=5, d0=0, ends=("drop", "bye", "byere"), feats=("par", "stop", "dialfail", "stall")), CLIENT_INV, CLIENT_PROPS)
    some = ("stop", "dialfail", "stall", "bundle")
    client_run(chk, [
        dict(name="a policy with an end", constants=client_consts(conns=5, limit=2, ends=("drop", "bye"), feats=("stop", "dialfail", "stall"), maxlen=14), limit=pick(2000, 20000)),
        dict(name="a policy without an end", constants=client_consts(conns=5, ends=("drop",), feats=("dialfail",), maxlen=14), limit=pick(2000, 20000)),
        dict(name="a policy without a delay", constants=client_consts(conns=4, d0=0, ends=("err", "byere"), feats=some, maxlen=12), limit=pick(1500, 20000)),
        dict(name="every end", constants=client_consts(conns=3, ends=ALLENDS + ("junk",), hsfails=HSFAILS, feats=some + ("cancel",), maxlen=10), limit=pick(2000, 20000)),
        dict(name="silence", constants=client_consts(conns=3, t=3, h=3, ends=("drop",), feats=("stop", "msg", "bundle"), maxlen=12), limit=pick(1000, 20000)),
        dict(name="pairs of actions", constants=client_consts(conns=3, limit=1, ends=("drop", "byere", "bye"), feats=("par", "stop", "cancel", "dialfail"), maxlen=9), limit=pick(1500, 20000)),
        dict(name="walks", constants=client_consts(conns=12, limit=3, t=4, h=3, ends=ALLENDS + ("junk",), hsfails=HSFAILS, feats=("stall", "dialfail", "bundle", "msg"), maxlen=pick(40, 60)), walks=pick(500, 6000), limit=pick(800, 8000)),
    ])


# ---------------------------------------------------------------------------------------------------------------------
# Frame: C11, C12

FRAME_INV = ["TypeOK", "CompleteOnly", "InOrder", "NothingEarly"]
FRAME_PROPS = ["Once", "NothingLate"]


def frame_consts(msgs, p=3, kinds=("inv", "ping"), sizes=("s",), batch=2, notes=(0,), feats=(), maxlen=8):
    return dict(NMsg=msgs, P=p, Kinds=set(kinds), Sizes=set(sizes), Batch=batch, Notes=set(notes), Feats=set(feats), MaxLen=maxlen)


def frame_mc(*a, **kw):
    c = frame_consts(*a, **kw)
    c.pop("MaxLen")
    return c


def frame_run(chk, gens, maxes=(400, 1000, 40000), cuts=("ends", "even", "random"), reps=1):
    items = []
    for i, (c, s) in enumerate([x for x in chk.schedules("Frame", gens) for _ in range(reps)]):
        k = i * 7919 // 3
        items.append((c, dict(proto=("json", "messagepack")[i % 2], role=("server", "client")[i // 2 % 2], nmsg=c["NMsg"], p=c["P"],
                              max=maxes[i // 4 % len(maxes)] if c["P"] < 9 else 400, cut=cuts[i // 5 % len(cuts)] if c["P"] < 9 else "even", together=i // 3 % 2 == 0, seed=SEED * 100000 + i), s))
    chk.conform("Frame", "frame", items, lambda c, cfg: {k: v for k, v in c.items() if k != "MaxLen"})


def c11(chk):
    chk.model("MC_Frame", "three messages", frame_mc(3, kinds=("inv", "item", "up"), sizes=("s", "o"), feats=("eof",)), FRAME_INV, FRAME_PROPS)
    frame_run(chk, [
        dict(name="three messages", constants=frame_consts(3, p=3, kinds=("inv", "ping"), batch=3, feats=("eof",), maxlen=8), limit=pick(2000, 20000)),
        dict(name="upload streams", constants=frame_consts(4, p=2, kinds=("inv", "up", "item"), batch=3, maxlen=8), limit=pick(2000, 20000)),
        dict(name="sizes", constants=frame_consts(2, p=4, kinds=("inv",), sizes=("s", "m", "x"), batch=2, feats=("eof",), maxlen=8), limit=pick(2000, 20000)),
        dict(name="between any two bytes", constants=frame_consts(1, p=pick(40, 100), kinds=("inv",), batch=0, maxlen=8), limit=pick(1500, 20000)),
        dict(name="both directions at once", constants=frame_consts(2, p=2, kinds=("inv",), sizes=("s", "m"), batch=2, notes=(2, 8), maxlen=6), limit=pick(500, 5000)),
        dict(name="walks", constants=frame_consts(40, p=5, kinds=("inv", "ping", "up", "item"), sizes=("s", "m", "x"), batch=6, notes=(4,), feats=("eof",), maxlen=pick(16, 24)), walks=pick(600, 6000), limit=pick(600, 8000)),
    ])


def c12(chk):
    chk.model("MC_Frame", "three messages", frame_mc(3, p=2, kinds=("inv",), sizes=("s", "x", "o"), feats=("eof",)), FRAME_INV, FRAME_PROPS)
    frame_run(chk, [
        dict(name="two messages", constants=frame_consts(2, p=3, kinds=("inv",), sizes=("s", "x", "o", "b"), batch=2, maxlen=8), limit=pick(2500, 20000)),
        dict(name="three messages", constants=frame_consts(3, p=2, kinds=("inv",), sizes=("x", "o"), batch=3, maxlen=8), limit=pick(2500, 20000)),
        dict(name="many together", constants=frame_consts(6, p=2, kinds=("inv",), sizes=("m", "x"), batch=6, maxlen=4), limit=pick(1000, 20000)),
        dict(name="items", constants=frame_consts(3, p=2, kinds=("up", "item"), sizes=("s", "x", "o"), batch=3, maxlen=8), limit=pick(2000, 20000)),
        dict(name="walks", constants=frame_consts(40, p=4, kinds=("inv", "ping", "up", "item"), sizes=("s", "m", "x", "o", "b"), batch=5, feats=("eof",), maxlen=pick(16, 24)), walks=pick(600, 6000), limit=pick(600, 8000)),
    ], maxes=(400, 1000, 40000, 129), reps=pick(3, 5))


# ---------------------------------------------------------------------------------------------------------------------
# Handshake: C13

HS_TOKENS = ("ok", "okx", "error", "bad", "part", "inv")


def hs_consts(role, tokens=HS_TOKENS, inv=1, send=1, batch=3, h=2, ends=("eof",), feats=(), maxlen=8):
    return dict(Role=role, Tokens=set(tokens), NInv=inv, NSend=send, Batch=batch, H=h, Ends=set(ends), Feats=set(feats), MaxLen=maxlen)


def hs_mc(*a, **kw):
    c = hs_consts(*a, **kw)
    c.pop("MaxLen")
    return c


def hs_run(chk, gens, reps):
    items = []
    for i, (c, s) in enumerate(chk.schedules("Handshake", gens)):
        for k in range(reps):
            items.append((c, dict(proto=("json", "messagepack")[k % 2], role=c["Role"], ninv=c["NInv"], nsend=c["NSend"], h=c["H"], variant=i * 7 + k + SEED), s))
    chk.conform("Handshake", "handshake", items, lambda c, cfg: {k: v for k, v in c.items() if k != "MaxLen"})


def c13(chk):
    inv = ["TypeOK", "NothingBefore", "InTime", "Resolved"]
    gens = []
    for role in ("server", "client"):
        chk.model("MC_Handshake", role, hs_mc(role, send=2, inv=2, ends=("eof", "stop"), feats=("par",)), inv, ["NeverAfterwards"])
        gens += [
            dict(name=role, constants=hs_consts(role, ends=("eof", "err", "stop"), send=2, maxlen=7), limit=pick(700, 8000)),
            dict(name=role + ", pairs of actions", constants=hs_consts(role, ends=("eof", "stop"), feats=("par",), send=2, maxlen=6), limit=pick(700, 8000)),
            dict(name=role + ", walks", constants=hs_consts(role, inv=6, send=6, batch=4, h=4, ends=("eof", "err", "stop"), feats=("par",), maxlen=pick(14, 20)), walks=pick(300, 4000), limit=pick(300, 4000)),
        ]
    hs_run(chk, gens, pick(4, 8))


# ---------------------------------------------------------------------------------------------------------------------
# KeepAlive: C14

ALIVE_RECVS = ("ping", "call", "hang", "cancel", "notify", "item", "odd", "part")
ALIVE_SENDS = ("note", "big", "bad", "item")


def alive_consts(k, t, recvs=ALIVE_RECVS, sends=ALIVE_SENDS, jump=2, ends=("bye", "eof"), feats=(), tick=1000, maxlen=8):
    return dict(K=k, T=t, C=5000 // tick, Recvs=set(recvs), Sends=set(sends), Jump=jump, Ends=set(ends), Feats=set(feats), MaxLen=maxlen)


def alive_mc(*a, **kw):
    c = alive_consts(*a, **kw)
    c.pop("MaxLen")
    return c


def alive_run(chk, gens, reps):
    items = []
    for i, (c, s) in enumerate(chk.schedules("KeepAlive", gens)):
        for k in range(reps):
            items.append((c, dict(proto=("json", "messagepack")[k % 2], role=("server", "client")[(i + k // 2) % 2], k=c["K"], t=c["T"], tick=5000 // c["C"]), s))
    chk.conform("KeepAlive", "keepalive", items, lambda c, cfg: {k: v for k, v in c.items() if k != "MaxLen"})


def c14(chk):
    inv, props = ["TypeOK", "NeverIdle", "NeverQuiet", "ClosesInTime"], ["OnlyThen", "Forever"]
    some = ("ping", "call", "part")
    chk.model("MC_KeepAlive", "keep-alive below the timeout", alive_mc(3, 7, feats=("stall", "par")), inv, props)
    chk.model("MC_KeepAlive", "timeout below the keep-alive", alive_mc(6, 4, feats=("stall", "par")), inv, props)
    alive_run(chk, [
        dict(name="2:5", constants=alive_consts(2, 5, feats=("stall", "par"), maxlen=9), limit=pick(700, 8000)),
        dict(name="3:3", constants=alive_consts(3, 3, feats=("stall", "par"), maxlen=9), limit=pick(500, 8000)),
        dict(name="5:2", constants=alive_consts(5, 2, feats=("stall",), maxlen=12), limit=pick(500, 8000)),
        dict(name="1:4", constants=alive_consts(1, 4, feats=("par",), maxlen=9), limit=pick(400, 8000)),
        dict(name="4:9, long jumps", constants=alive_consts(4, 9, recvs=some, sends=("note", "bad"), jump=8, feats=("stall",), maxlen=7), limit=pick(700, 8000)),
        dict(name="walks 3:7", constants=alive_consts(3, 7, jump=3, feats=("stall", "par"), maxlen=pick(40, 80)), walks=pick(300, 3000), limit=pick(300, 4000)),
        dict(name="walks 7:4", constants=alive_consts(7, 4, jump=3, feats=("par",), maxlen=pick(40, 80)), walks=pick(300, 3000), limit=pick(300, 4000)),
        dict(name="walks 5:11, shorter ticks", constants=alive_consts(5, 11, jump=4, feats=("stall", "par"), tick=250, maxlen=pick(40, 80)), walks=pick(300, 3000), limit=pick(300, 4000)),
    ], pick(2, 4))


# ---------------------------------------------------------------------------------------------------------------------
# Negotiate: C17

def neg_consts(ids, versions=("none", "1"), trs=("ws", "sse"), limit=0, ticks=0, feats=(), maxlen=4):
    return dict(MaxIds=ids, Versions=set(versions), Trs=set(trs), Limit=limit, Ttl=4, MaxTicks=ticks, Feats=set(feats), MaxLen=maxlen)


ALL_VERSIONS = ("none", "0", "1", "2", "x", "h0", "h1", "fac", "fall")
NEG_ALL = ("race", "post", "junk", "many", "go", "direct", "stop", "ends")


def c17(chk):
    inv, props = ["TypeOK", "LimitKept", "NotTooOld", "NoEndlessWait"], ["Once", "NotTooEarly", "OneWinner"]

    def mc(name, *a, **kw):
        c = neg_consts(*a, **kw)
        c.pop("MaxLen")
        chk.model("MC_Negotiate", name, c, inv, props)
    mc("two ids", 2, versions=("1",), ticks=11, feats=("race", "post", "direct"))
    mc("limit", 3, versions=("1",), trs=("sse",), limit=1, ticks=10, feats=("many", "go", "stop"))
    gens = [
        dict(name="one id", constants=neg_consts(1, versions=ALL_VERSIONS, feats=("race", "post", "ends", "stop"), maxlen=4), limit=pick(1100, 8000)),
        dict(name="what is not right", constants=neg_consts(1, feats=("junk", "post", "go", "direct"), maxlen=3), limit=pick(500, 5000)),
        dict(name="limit", constants=neg_consts(4, versions=("none", "1"), limit=2, feats=("many", "go", "direct"), maxlen=5), limit=pick(800, 8000)),
        dict(name="walks", constants=neg_consts(8, versions=ALL_VERSIONS, limit=0, ticks=30, feats=NEG_ALL, maxlen=pick(24, 36)), walks=pick(250, 3000), limit=pick(250, 3000)),
        dict(name="walks, limit", constants=neg_consts(8, limit=3, ticks=30, feats=NEG_ALL, maxlen=pick(24, 36)), walks=pick(250, 3000), limit=pick(250, 3000)),
        dict(name="time", constants=neg_consts(2, ticks=14, feats=("post",), maxlen=pick(12, 16)), walks=pick(300, 3000), limit=pick(300, 3000)),
    ]
    gens.append(dict(name="Go clients", constants=neg_consts(3, versions=("fac", "fall"), limit=0, feats=("go", "ends"), maxlen=4), must={"go"}, limit=pick(300, 3000)))
    gens += [dict(name="only " + tr, constants=neg_consts(2, versions=("none", "1", "fac"), trs=(tr,), feats=("race", "go", "ends"), maxlen=4), limit=pick(150, 2000)) for tr in ("ws", "sse")]
    items = [(c, dict(limit=c["Limit"], offer=list(c["Trs"])[0] if len(c["Trs"]) == 1 else ("", "sse ws")[i % 2]), s)
             for i, (c, s) in enumerate(chk.schedules("Negotiate", gens))]
    chk.conform("Negotiate", "negotiate", items, lambda c, cfg: {k: v for k, v in c.items() if k != "MaxLen"})


# ---------------------------------------------------------------------------------------------------------------------
# Transport: C18

TR_ALL = ("par", "call", "streams", "over", "posts", "slow", "forms", "ends", "race", "stall", "fail")


def tr_consts(c1, c2="", sizes=("s",), n=2, sent=8, feats=TR_ALL, maxlen=4):
    p1, t1 = c1.split()
    p2, t2 = c2.split() if c2 else (p1, t1)
    return dict(NConns=2 if c2 else 1, P1=p1, T1=t1, P2=p2, T2=t2, Sizes=set(sizes), MaxN=n, MaxSent=sent, Feats=set(feats), MaxLen=maxlen)


def c18(chk):
    inv, props = ["TypeOK", "OnlyThere", "Apart"], ["Forever", "Alone", "NoLoss"]
    for c1, c2, sent, feats in (("raw sse", "", 6, TR_ALL), ("raw ws", "", 6, TR_ALL), ("go sse", "raw sse", 2, ("posts", "slow", "ends", "stall")),
                                ("srv sse", "", 6, TR_ALL), ("srv ws", "go ws", 2, TR_ALL)):
        c = tr_consts(c1, c2, n=1 if c2 else 2, sent=sent, feats=feats)
        c.pop("MaxLen")
        chk.model("MC_Transport", c1 + (" and " + c2 if c2 else ""), c, inv, props)
    gens = []
    for c in ("go ws", "go sse", "raw ws", "raw sse", "srv ws", "srv sse"):
        gens.append(dict(name=c, constants=tr_consts(c, maxlen=3, sent=6), limit=pick(220, 3000)))
        gens.append(dict(name="sizes, " + c, constants=tr_consts(c, sizes=("s", "b", "k", "m"), maxlen=2), limit=pick(140, 2000)))
        gens.append(dict(name="walks, " + c, constants=tr_consts(c, sizes=("s", "b", "m"), n=3, sent=60, maxlen=pick(16, 24)), walks=pick(100, 1500), limit=pick(100, 1500)))
    for c1, c2 in (("go sse", "raw sse"), ("go ws", "raw ws"), ("raw sse", "srv sse"), ("go sse", "go ws")):
        gens.append(dict(name="walks, %s and %s" % (c1, c2), constants=tr_consts(c1, c2, sizes=("s", "b", "m"), n=2, sent=60, maxlen=pick(16, 24)), walks=pick(60, 1000), limit=pick(60, 1000)))
    items = []
    for i, (c, s) in enumerate(chk.schedules("Transport", gens)):
        small = c["Sizes"] == {"s"}
        conns = [c["P1"] + " " + c["T1"], c["P2"] + " " + c["T2"]][:c["NConns"]]
        conns = [k + (" messagepack" if k in ("go ws", "srv ws") and i % 2 else " json") for k in conns]
        big = "k" in c["Sizes"]
        items.append((c, dict(conns=conns, max=(90000, 150001)[i % 2] if big else (1 << 15, 6000, 20000)[i % 3], chunk=(0, 1, 7)[i // 2 % 3] if small else (0, 1000, 113)[i // 2 % 3]), s))
    chk.conform("Transport", "transport", items, lambda c, cfg: {k: v for k, v in c.items() if k != "MaxLen"})


# ---------------------------------------------------------------------------------------------------------------------
# Values: C20

VALUE_TYPES = ("bool", "int8", "int16", "int32", "int64", "int", "uint8", "uint16", "uint32", "uint64", "uint", "float32", "float64",
               "string", "bytes", "time", "duration", "level", "kind", "any", "ptr", "strings", "ints", "bools", "floats", "matrix", "ptrs",
               "anys", "times", "blobs", "array", "mapint", "mapstr", "mapany", "maplist", "mapkey", "mapmap", "flat", "flatptr", "flats",
               "flatptrs", "mapflat", "opt", "opts", "optptr", "embed", "mix", "tagged")
VALUE_POS = ("arg", "two", "down", "up", "note", "back")


def values_consts(types=VALUE_TYPES, pos=VALUE_POS, spread=12, items=3, names=("exact",), par=False, maxlen=1):
    return dict(TypeNames=set(types), Positions=set(pos), Spread=spread, MaxItems=items, Names=set(names), Par=par, MaxLen=maxlen)


def c20(chk):
    mc = values_consts(types=("int8", "string", "opt", "mapkey"), names=("exact", "alt"))
    mc.pop("MaxLen")
    chk.model("MC_Values", "some types", mc, ["TypeOK"], ["Unchanged"])
    gens = [
        dict(name="every type in every position", constants=values_consts(spread=pick(12, 40)), limit=pick(2600, 20000)),
        dict(name="names", constants=values_consts(types=("int", "string", "opt", "any"), spread=2, names=("exact", "lower", "upper", "alt"))),
        dict(name="sequences", constants=values_consts(types=("opt", "optptr", "flatptr", "mapany", "anys", "bytes"), spread=3, items=4, maxlen=2), limit=pick(1000, 8000)),
        dict(name="walks", constants=values_consts(items=4, names=("exact", "lower", "upper", "alt"), par=True, maxlen=pick(8, 20)), walks=pick(700, 6000), limit=pick(700, 6000)),
    ]
    items = []
    for c, s in chk.schedules("Values", gens):
        for proto in ("json", "messagepack"):
            items.append((c, dict(proto=proto), s))
    chk.conform("Values", "values", items, lambda c, cfg: {k: v for k, v in c.items() if k != "MaxLen"})


# ---------------------------------------------------------------------------------------------------------------------
# Redis: C19

RD_ALL = ("outside", "two", "end", "stall", "cut", "stop", "ends", "nobody")


def rd_consts(conns=2, servers=2, groups=1, feats=RD_ALL, events=9, maxlen=4):
    return dict(NConns=conns, NServers=servers, NGroups=groups, MaxEvents=events, Feats=set(feats), MaxLen=maxlen)


def c19(chk):
    inv, props = ["TypeOK", "NothingLeft", "OnlyConnected"], ["OthersStay", "Fresh"]

    def mc(name, *a, **kw):
        c = rd_consts(*a, **kw)
        c.pop("MaxLen")
        chk.model("MC_Redis", name, c, inv, props)
    mc("two connections", 2, 2, 1, events=pick(3, 4))
    mc("two connections, one after the other", 2, 2, 2, feats=set(RD_ALL) - {"two"}, events=pick(4, 5))
    mc("three connections", 3, 2, 2, feats=("outside", "ends", "stop"), events=pick(4, 5))
    gens = [
        dict(name="routes", constants=rd_consts(feats=("outside", "nobody", "ends", "cut"), maxlen=4), limit=pick(1500, 12000)),
        dict(name="two servers, two groups", constants=rd_consts(2, 2, 2, feats=("stop",), maxlen=5), limit=pick(1000, 12000)),
        dict(name="two at the same time", constants=rd_consts(feats=("two",), maxlen=3), limit=pick(600, 6000)),
        dict(name="ends", constants=rd_consts(feats=("end", "stall"), maxlen=4), limit=pick(600, 6000)),
        dict(name="walks", constants=rd_consts(3, 2, 2, events=99, maxlen=pick(22, 30)), walks=pick(600, 4000), limit=pick(600, 4000)),
        dict(name="walks, three servers", constants=rd_consts(5, 3, 2, events=99, maxlen=pick(26, 40)), walks=pick(300, 3000), limit=pick(300, 3000)),
    ]
    items = [(c, dict(nconns=c["NConns"], nservers=c["NServers"], names=i % 5, nobody=i // 5 % 2, lag=i % 3 == 0), s)
             for i, (c, s) in enumerate(chk.schedules("Redis", gens))]
    chk.conform("Redis", "redis", items, lambda c, cfg: {k: v for k, v in c.items() if k != "MaxLen"})


JOBS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18, "C19": c19, "C20": c20}
