"""C20: HTTP requests."""
import copy
import http.client
import io
import json
import os
import socket
import ssl
import sys
import threading
import time
import urllib.parse
from common import Ctx, end, describe, guard

ctx = Ctx()
rng = ctx.rng
NETWORK = os.path.join(ctx.out, "net.json")
child = os.fork()
if child:
    # real sockets and threads are for the child
    import sched
    sched.install()

from vtelem.classes.http_request_mapper import HttpRequestMapper, MapperAwareRequestHandler
from vtelem.daemon.http import HttpDaemon

TEXT = ["", "a", "x y", "ä", "€uro", "a&b", "<b>", "q=1", "50%", "+", "a;b", "\"q\"", "ünï", "日本", "😀", "#1", "{\"k\": [1]}", "line\nbreak", "tab\t", "a/b", "~"]
KEYS = ["k", "x", "name", "ä", "a b", "k[]", "q&", "0"]


def text():
    return "".join(rng.choice(TEXT) for _ in range(rng.randrange(0, 4)))


def codes(s):
    return [ord(c) for c in s]


class Table:
    """Handlers that report what they get; a mapper or a daemon to register them with."""

    def __init__(self, mapper, log):
        self.mapper, self.log, self.n = mapper, log, 0

    def add(self, m, p, result=None, ctype="application/json", extra="", desc=None, direct=True):
        self.n += 1
        h = self.n
        desc = desc if desc is not None else "handler %d" % h

        def handler(request, data):
            c = int(request.headers["X-Client"])
            res = result(h) if result else (True, "h%d" % h, False)
            params = {k: list(v) for k, v in data.items() if k != "parts"}
            parts = []
            for part in data.get("parts") or ():
                d = part["headers"].get("content-disposition", {})
                parts.append({"name": d.get("name", "?"), "filename": d.get("filename", ""), "ctype": part["headers"].get("content-type", ""), "body": list(part["body"])})
            none = data["never sent"] is None
            # what a handler does to its data is its own business
            data["left behind"] = ["by %d" % h]
            self.log(op="run", c=c, h=h, ok=bool(res[0]), text=codes(res[1]), raised=res[2], params=params, parts=parts, none=none, m=request.command)
            if res[2]:
                raise RuntimeError("handler fails")
            return res[0], res[1]
        self.log(op="adding", m=m, p="/" + p, h=h, ctype=ctype + "; charset=utf-8", desc=desc, extra=extra)
        self.mapper.add_handler(m, p, handler, desc, {"X-Extra": extra} if extra else None, ctype)
        self.log(op="added", h=h)
        return h


def encode(q, part=False):
    return "&".join("%s=%s" % (urllib.parse.quote_plus(e["k"]), (urllib.parse.quote_plus if rng.random() < 0.5 else urllib.parse.quote)(e["v"])) for e in q)


def pairs(n):
    return [{"k": rng.choice(KEYS), "v": text()} for _ in range(n)]


NAMES = ["field", "a b", "ä", "x=1", "a:b", "c;d", "日本", "it's"]


def a_part():
    lines = [rng.choice(["", "value", "ä€", "a: b", "x=1; y=2", "-", "content-disposition: form-data; name=\"no\"", " lead", "日本 \n inner"]) for _ in range(rng.randrange(1, 4))]
    return {"name": rng.choice(NAMES), "filename": rng.choice(["", "", "f.txt", "a;b.txt", "ü.bin"]), "ctype": rng.choice(["", "text/plain; charset=utf-8"]), "lines": lines}


def request(m, p, query=(), form=(), parts=(), client=1):
    """The bytes of a request."""
    target = p + ("?" + encode(query) if query else "")
    if rng.random() < 0.05 and p[0] == "/":
        target = "http://localhost" + target
    head = {"Host": "localhost", "X-Client": str(client)}
    body = None
    if m == "POST" and (form or (not parts and rng.random() < 0.3)):
        body = encode(form).encode()
        head["Content-Type"] = rng.choice(["application/x-www-form-urlencoded", "application/x-www-form-urlencoded; charset=utf-8", "Application/X-WWW-Form-Urlencoded"])
    if m == "POST" and parts:
        b = rng.choice(["gc0p4Jq0M2Yt08j34c0p", "----WebKitFormBoundary7MA4YWxk", "b=1", "x'y"])
        style = rng.choice(["%s", '"%s"', "%s; charset=utf-8"])
        if b == "b=1":
            style = '"%s"'
        head["Content-Type"] = "multipart/form-data; boundary=" + style % b
        out = []
        for part in parts:
            h = ["Content-Disposition: form-data; name=\"%s\"" % part["name"] + ("; filename=\"%s\"" % part["filename"] if part["filename"] else "")]
            if part["ctype"]:
                h.insert(rng.randrange(2), "Content-Type: " + part["ctype"])
            out.append("--%s\r\n%s\r\n\r\n%s\r\n" % (b, "\r\n".join(h), "\r\n".join(part["lines"])))
        body = ("".join(out) + "--%s--\r\n" % b).encode()
    if body is not None:
        head["Content-Length"] = str(len(body))
    items = list(head.items())
    rng.shuffle(items)
    raw = "%s %s HTTP/1.%d\r\n" % (m, target, 0) + "".join("%s: %s\r\n" % kv for kv in items) + "\r\n"
    return raw.encode() + (body or b"")


def a_request(paths, c=1):
    m = rng.choice(("GET", "GET", "HEAD", "POST", "POST", "PUT", "DELETE", "OPTIONS"))
    p = rng.choice(paths)
    q = pairs(rng.randrange(0, 4)) if rng.random() < 0.6 else []
    f, parts = [], []
    if m == "POST":
        w = rng.random()
        if w < 0.4:
            # a key is not in both, so that its values have an order
            f = [e for e in pairs(rng.randrange(1, 5)) if e["k"] not in {x["k"] for x in q}]
        elif w < 0.8:
            parts = [a_part() for _ in range(rng.randrange(1, 4))]
    return {"op": "req", "c": c, "m": m, "p": p, "query": q, "form": f, "parts": parts}


def raw_of(e):
    return request(e["m"], e["p"], e["query"], e["form"], e["parts"], e["c"])


def response(c, data):
    """What came back: everything, up to the end of the connection."""
    e = {"op": "resp", "c": c, "dropped": True, "status": 0, "ctype": "", "length": -1, "body": [], "isindex": False, "index": [], "extra": ""}
    head, sep, body = data.partition(b"\r\n\r\n")
    if not sep:
        return e
    lines = head.decode("latin-1").split("\r\n")
    first = lines[0].split(" ", 2)
    if not first[0].startswith("HTTP/") or any(ord(x) < 32 for x in lines[0]):
        e.update(dropped=False, status=-1)
        return e
    heads = {}
    for ln in lines[1:]:
        k, _, v = ln.partition(":")
        if k.lower() in heads and k.lower() in ("content-length", "content-type"):
            e["status"] = -2
        heads[k.lower()] = v.strip()
    e.update(dropped=False, status=int(first[1]) if e["status"] == 0 else e["status"], ctype=heads.get("content-type", ""), length=int(heads.get("content-length", -1)),
             body=list(body), extra=heads.get("x-extra", ""))
    if e["status"] == 200:
        try:
            obj = json.loads(body.decode())
            if isinstance(obj, dict) and "GET" in obj:
                e["index"] = [{"m": m, "p": x["path"], "d": x.get("description", "")} for m, xs in obj.items() for x in xs]
                e["isindex"] = True
        except (ValueError, AttributeError, TypeError):
            pass
    return e


class FakeSocket:
    def __init__(self, data):
        self.inp, self.out = data, b""

    def makefile(self, *_, **__):
        return io.BytesIO(self.inp)

    def sendall(self, data):
        self.out += bytes(data)

    def settimeout(self, *_):
        pass


class FakeServer:
    pass


def ask(server, e):
    """Have a request handled without a network."""
    s = FakeSocket(raw_of(e))
    try:
        MapperAwareRequestHandler(s, ("127.0.0.1", 1), server)
    except Exception:  # noqa: the server's thread would end the connection
        pass
    return response(e["c"], s.out)


def results(h):
    w = rng.random()
    if w < 0.1:
        return (False, text(), True)
    return (w < 0.65, text() + str(h), False)


PATHS = ["", "a", "b", "a/b", "a;b", "id", "x.y", "_z", "a-b"]


def network():
    """Real servers and several clients at a time (in the child)."""
    traces = []
    here = "/repo/tests/data/"
    for n in range(3 if not ctx.thorough else 12):
        ev, lock, r = [], threading.Lock(), rng

        def log(**e):
            with lock:
                ev.append(e)
        d = HttpDaemon("http%d" % n, ("127.0.0.1", 0), MapperAwareRequestHandler)
        tls = n == 2 and os.path.exists(here + "test.key")
        if tls:
            d.use_tls(here + "test.key", here + "test.cert")
        t = Table(d, log)
        plan = [("GET", "a"), ("POST", "a"), ("GET", "b"), ("POST", "id"), ("GET", "")]
        for m, p in plan[:3 + n % 3]:
            t.add(m, p, results)
        paths = ["/", "/a", "/b", "/id", "/none"]
        work = [[a_request(paths, c) for _ in range(12)] for c in (1, 2, 3, 4)]
        raws = [[(e, raw_of(e)) for e in w] for w in work]
        port = d.server.server_address[1]

        def client(k):
            for e, raw in raws[k]:
                log(**e)
                s = socket.create_connection(("127.0.0.1", port), 20)
                if tls:
                    c = ssl.create_default_context()
                    c.check_hostname, c.verify_mode = False, ssl.CERT_NONE
                    s = c.wrap_socket(s)
                data = b""
                try:
                    s.sendall(raw)
                    while True:
                        x = s.recv(65536)
                        if not x:
                            break
                        data += x
                except OSError:
                    pass
                s.close()
                log(**response(e["c"], data))
        for again in range(2):
            d.start()
            ts = [threading.Thread(target=client, args=(k,)) for k in range(4)]
            for x in ts:
                x.start()
            for x in ts:
                x.join(60)
            d.stop()
        d.close()
        ev.append(end())
        traces.append([ev, {"clients": 4, "tls": tls, "net": True}])
    with open(NETWORK, "w") as f:
        json.dump(traces, f)


if child == 0:
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 2)
    try:
        network()
    finally:
        os._exit(0)


def done(ev, cfg):
    ev.append(end())
    ctx.add("TraceHttp", ev, cfg, chunk=400)


def fresh():
    ev = []
    s = FakeServer()
    s.mapper = HttpRequestMapper()
    return ev, s, Table(s.mapper, lambda **e: ev.append(e))


gen = ctx.gen.get("gen", [])
for g in gen if ctx.thorough and len(gen) < 6000 else rng.sample(gen, min(len(gen), 6000 if ctx.thorough else 700)):
    ev, s, t = fresh()
    with guard(ev):
        for k, w in enumerate(g):
            if w["op"] == "add":
                t.add(w["m"], w["p"][1:], lambda h, k=k: (plan.get("ok", True), "t%d" % h, False))
            else:
                plan = {"ok": w["ok"]}
                e = a_request([w["p"]])
                e.update(m=w["m"])
                if w["m"] != "POST":
                    e.update(form=[], parts=[])
                ev.append(e)
                ev.append(ask(s, e))
    done(ev, {"clients": 1})
for _ in range(ctx.n(250, 5000)):
    ev, s, t = fresh()
    some = rng.sample(PATHS, 4)
    paths = ["/"] + ["/" + p for p in PATHS if p in some or rng.random() < 0.5] + ["/A", "/a/", "/none", "http://[x/a"]
    with guard(ev):
        for _ in range(rng.randrange(4, 30)):
            if rng.random() < 0.3:
                t.add(rng.choice(("GET", "POST")), rng.choice(some), results, rng.choice(("application/json", "text/html")),
                      rng.choice(("", "yes")), rng.choice((None, "what it does: a, b")))
            else:
                e = a_request(paths)
                ev.append(e)
                ev.append(ask(s, e))
    done(ev, {"clients": 1})
# a server without a table
ev = []
with guard(ev):
    for m in ("GET", "HEAD", "POST", "PUT"):
        out = ask(FakeServer(), {"op": "req", "c": 1, "m": m, "p": "/", "query": [], "form": [], "parts": []})
        # without a table every method is unsupported
        ev.append({"op": "req", "c": 1, "m": "PUT", "p": "/", "query": [], "form": [], "parts": []})
        ev.append(out)
done(ev, {"clients": 1})


def client_no():
    n = threading.current_thread().name
    return int(n[1:]) + 1 if n[0] == "c" and n[1:].isdigit() else 0


class World:
    """Requests and registrations at the same time."""

    def __init__(self, progs):
        self.ev, self.progs = [], progs
        self.s = FakeServer()
        self.s.mapper = HttpRequestMapper()
        self.t = Table(self.s.mapper, self.log)
        self.t.add("GET", "a")
        self.cfg = {"clients": len(progs), "progs": str(progs)}

    def log(self, **e):
        sched.event(lambda: self.ev.append(e))

    def body(self, k):
        for w in self.progs[k]:
            if w[0] == "add":
                self.t.add(w[1], w[2], None, "text/html", "yes")
            else:
                e = {"op": "req", "c": k + 1, "m": w[0], "p": w[1], "query": [{"k": "k", "v": str(k)}], "form": [], "parts": []}
                self.log(**e)
                self.log(**ask(self.s, e))

    def main(self, s):
        ts = [threading.Thread(target=self.body, args=(k,), name="c%d" % k) for k in range(len(self.progs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()


PROGS = [
    [[("GET", "/a"), ("GET", "/b")], [("GET", "/b"), ("GET", "/")], [("add", "GET", "b")]],
    [[("GET", "/"), ("POST", "/b")], [("add", "POST", "b"), ("add", "GET", "c"), ("GET", "/c")]],
]
runs = 0
for pr in PROGS:
    for desc, o, res in sched.explore(lambda: World(pr), rng, ctx.n(150, 4000), orders=(None, ["c1", "c0"], ["c2", "c1", "c0"]), two=0.4):
        runs += 1
        if res.deadlock or res.livelock:
            o.ev.append({"op": "hang", "what": str(res.deadlock)})
        for n, e in res.errors:
            o.ev.append({"op": "crash", "what": "%s: %s" % (n, describe(e))})
        done(o.ev, dict(o.cfg, schedule=str(desc)))
ctx.stats["schedules"] = runs

for _ in range(1200):
    if os.waitpid(child, os.WNOHANG)[0]:
        break
    sched.REAL_SLEEP(0.1) if hasattr(sched, "REAL_SLEEP") else __import__("select").select([], [], [], 0.1)
else:
    os.kill(child, 9)
if os.path.exists(NETWORK):
    for ev, cfg in json.load(open(NETWORK)):
        ctx.add("TraceHttp", ev, cfg, chunk=400)
else:
    done([{"op": "hang", "what": "the servers did not finish"}], {"clients": 1})

left = ["status", "length", "body", "param", "index", "part", "handler", "lost", "explain"]
for t in ctx.batches[("TraceHttp", None)]["traces"]:
    if not left:
        break
    b = copy.deepcopy(t)
    ev = b["ev"]
    w = left[-1]
    if b["cfg"]["clients"] > 1:
        continue
    resp = [k for k, e in enumerate(ev) if e["op"] == "resp" and not e["dropped"]]
    run = [k for k, e in enumerate(ev) if e["op"] == "run"]
    good = [k for k in resp if ev[k]["status"] == 200 and ev[k]["body"] and not ev[k]["isindex"]]
    if w == "status" and resp and ev[resp[-1] - 1]["op"] != "run":
        ev[resp[-1]]["status"] = 403
    elif w == "length" and good:
        ev[good[0]]["length"] += 1
    elif w == "body" and good:
        ev[good[0]]["body"][0] ^= 1
    elif w == "param" and run and ev[run[0]]["params"]:
        ev[run[0]]["params"][sorted(ev[run[0]]["params"])[0]].append("x")
    elif w == "index" and any(ev[k]["isindex"] for k in resp):
        ev[[k for k in resp if ev[k]["isindex"]][0]]["index"].append({"m": "GET", "p": "/none", "d": ""})
    elif w == "part" and any(ev[k]["parts"] for k in run):
        ev[[k for k in run if ev[k]["parts"]][0]]["parts"][0]["body"][0] += "x"
    elif w == "handler" and len({e["h"] for e in ev if e["op"] == "adding"}) > 1 and run:
        ev[run[0]]["h"] = [e["h"] for e in ev if e["op"] == "adding" and e["h"] != ev[run[0]]["h"]][0]
    elif w == "lost" and resp and (ev[resp[0] - 1]["op"] != "run" or not ev[resp[0] - 1]["raised"]):
        ev[resp[0]]["dropped"] = True
    elif w == "explain" and [k for k in resp if ev[k]["status"] == 400 and ev[k]["body"] and ev[k - 1]["text"]]:
        k = [k for k in resp if ev[k]["status"] == 400 and ev[k]["body"] and ev[k - 1]["text"]][0]
        ev[k]["body"] = [65] * len(ev[k]["body"])
    else:
        continue
    left.pop()
    ctx.add("TraceHttp", ev, b["cfg"], canary=True)
ctx.stats["canary_kinds_missing"] = left
ctx.finish()
