"""A small OTLP/gRPC client (HTTP/2 without TLS) and a runner for weaver processes that listen."""
import http.client, os, select, socket, struct, subprocess, threading, time
from . import core

# ---------------------------------------------------------------- protobuf
def varint(n):
    n &= (1 << 64) - 1; out = bytearray()
    while True:
        b = n & 127; n >>= 7
        out.append(b | (128 if n else 0))
        if not n: return bytes(out)
def num(f, n): return varint(f << 3) + varint(n)
def msg(f, b):
    b = b.encode() if isinstance(b, str) else b
    return varint(f << 3 | 2) + varint(len(b)) + b
def f64(f, x): return varint(f << 3 | 1) + struct.pack("<d", x)
def fix(f, n): return varint(f << 3 | 1) + struct.pack("<q", n)

class Bytes(bytes): pass
class Kv(dict): pass
class Unset: pass
def any_value(v):
    if v is None or v is Unset: return b""
    if isinstance(v, bool): return num(2, v)
    if isinstance(v, int): return num(3, v)
    if isinstance(v, float): return f64(4, v)
    if isinstance(v, list): return msg(5, b"".join(msg(1, any_value(x)) for x in v))
    if isinstance(v, dict): return msg(6, b"".join(msg(1, key_value(k, x)) for k, x in v.items()))
    if isinstance(v, bytes): return msg(7, bytes(v))
    return msg(1, v)
def key_value(k, v): return msg(1, k) + (b"" if v is Unset else msg(2, any_value(v)))
def kvs(f, attrs): return b"".join(msg(f, key_value(k, v)) for k, v in attrs)
def resource(attrs): return kvs(1, attrs)
def scope(s): return msg(1, s["name"]) + msg(2, s.get("version", "")) + kvs(3, s.get("attributes", ()))
KINDS = dict(internal=1, server=2, client=3, producer=4, consumer=5)
def span(s):
    out = msg(5, s["name"]) + num(6, KINDS.get(s.get("kind"), 0)) + kvs(9, s.get("attributes", ()))
    for e in s.get("events", ()): out += msg(11, msg(2, e["name"]) + kvs(3, e.get("attributes", ())))
    for l in s.get("links", ()): out += msg(13, kvs(4, l.get("attributes", ())))
    if "status" in s: out += msg(15, msg(2, s["status"][1]) + num(3, s["status"][0]))
    if s.get("more"): out += msg(1, b"\1" * 16) + msg(2, b"\2" * 8) + msg(3, "a=b") + fix(7, 1) + fix(8, 2) + num(10, 1) + num(12, 1) + num(14, 1)
    return out
def exemplar(e): return kvs(7, e.get("attributes", ())) + fix(2, 5) + f64(3, 1.0)
def point(inst, p):
    a = p.get("attributes", ()); ex = p.get("exemplars", ()); E = lambda f: b"".join(msg(f, exemplar(e)) for e in ex)
    n, fl = p.get("count", 2), p.get("flags", 0); F = lambda f: num(f, fl) if fl else b""
    total = f64(5, 3.0) if n else f64(5, 0.0)
    if inst == "histogram": return kvs(9, a) + fix(4, n) + total + E(8) + F(10)
    if inst == "exp": return kvs(1, a) + fix(4, n) + total + num(6, 2) + fix(7, 0) + (msg(8, num(1, 2) + msg(2, varint(1) + varint(1))) if n else b"") + F(10) + E(11)
    if inst == "summary": return kvs(7, a) + fix(4, n) + F(8)
    return kvs(7, a) + (fix(6, p["value"]) if isinstance(p.get("value"), int) else f64(4, p.get("value", 1.0))) + E(5) + F(8)
def metric(m):
    i = m["instrument"]; pts = b"".join(msg(1, point(i, p)) for p in m.get("points", ()))
    data = {"gauge": lambda: msg(5, pts), "counter": lambda: msg(7, pts + num(2, 2) + num(3, 1)), "updowncounter": lambda: msg(7, pts + num(2, 2) + num(3, 0)),
            "histogram": lambda: msg(9, pts + num(2, 2)), "exp": lambda: msg(10, pts + num(2, 2)), "summary": lambda: msg(11, pts), "none": lambda: b""}[i]()
    return msg(1, m["name"]) + (msg(2, "described") if m.get("more") else b"") + msg(3, m.get("unit", "")) + data
def log(l):
    out = (msg(3, l["severity_text"]) if "severity_text" in l else b"") + (num(2, l["severity"]) if "severity" in l else b"") + kvs(6, l.get("attributes", ()))
    if "body" in l: out += msg(5, any_value(l["body"]))
    if l.get("more"): out += fix(1, 1) + num(7, 2) + msg(9, b"\1" * 16) + msg(10, b"\2" * 8)
    return out + (msg(12, l["event_name"]) if l.get("event_name") else b"")
ITEM = dict(traces=span, metrics=metric, logs=log)
def request(r):
    """r: kind, groups: [{resource: attrs or None, scopes: [{scope: .. or None, schema_url, items: [..]}]}]"""
    if r["kind"] == "profiles": return profiles(r)
    out = b""
    for g in r["groups"]:
        b = b"" if g.get("resource") is None else msg(1, resource(g["resource"]))
        for sc in g["scopes"]:
            s = (b"" if sc.get("scope") is None else msg(1, scope(sc["scope"]))) + b"".join(msg(2, ITEM[r["kind"]](x)) for x in sc["items"])
            b += msg(2, s + (msg(3, sc["schema_url"]) if sc.get("schema_url") else b""))
        out += msg(1, b)
    return out
def profiles(r):
    strings = [""]; table = []
    def index(k, v):
        if k not in strings: strings.append(k)
        table.append(num(1, strings.index(k)) + msg(2, any_value(v))); return len(table) - 1
    out = b""
    for g in r["groups"]:
        b = b"" if g.get("resource") is None else msg(1, resource(g["resource"]))
        for sc in g["scopes"]:
            s = b"" if sc.get("scope") is None else msg(1, scope(sc["scope"]))
            for p in sc["items"]:
                ix = b"".join(varint(index(k, v)) for k, v in p.get("attributes", ()))
                s += msg(2, msg(9, p.get("format", "")) + (msg(11, ix) if ix else b""))
            b += msg(2, s + (msg(3, sc["schema_url"]) if sc.get("schema_url") else b""))
        out += msg(1, b)
    return out + msg(2, b"".join(msg(5, s) for s in strings) + b"".join(msg(6, t) for t in table))

PATHS = dict(traces="trace.v1.TraceService", metrics="metrics.v1.MetricsService", logs="logs.v1.LogsService", profiles="profiles.v1development.ProfilesService")

# ---------------------------------------------------------------- HTTP/2
def _lit(name, value):
    n, v = name.encode(), value.encode(); assert len(n) < 127 and len(v) < 127
    return bytes([0, len(n)]) + n + bytes([len(v)]) + v

class Conn:
    """One gRPC connection. Requests may be sent without waiting (send), answers are collected with wait."""
    def __init__(s, port, timeout=20, host="127.0.0.1"):
        s.sock = socket.create_connection((host, port), timeout=timeout); s.sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        s.port, s.next, s.buf, s.window, s.acked, s.done, s.initial = port, 1, b"", 65535, set(), set(), 65535
        s.sock.sendall(b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n" + s.frame(4, 0, 0, b""))
    def frame(s, typ, flags, sid, body): return len(body).to_bytes(3, "big") + bytes([typ, flags]) + sid.to_bytes(4, "big") + body
    def send(s, kind, body):
        sid = s.next; s.next += 2
        head = _lit(":method", "POST") + _lit(":scheme", "http") + _lit(":path", f"/opentelemetry.proto.collector.{PATHS[kind]}/Export") + _lit(":authority", f"127.0.0.1:{s.port}") + _lit("content-type", "application/grpc") + _lit("te", "trailers")
        data = b"\0" + len(body).to_bytes(4, "big") + body
        s.sock.sendall(s.frame(1, 4, sid, head))
        parts = [data[i:i + 16000] for i in range(0, len(data), 16000)]
        for i, p in enumerate(parts):
            while s.window < len(p): s.step()
            s.window -= len(p); s.sock.sendall(s.frame(0, 1 if i == len(parts) - 1 else 0, sid, p))
        return sid
    def read(s, n):
        while len(s.buf) < n:
            b = s.sock.recv(65536)
            if not b: raise ConnectionError("closed")
            s.buf += b
        out, s.buf = s.buf[:n], s.buf[n:]; return out
    def step(s):
        h = s.read(9); ln = int.from_bytes(h[:3], "big"); typ, flags = h[3], h[4]; sid = int.from_bytes(h[5:9], "big") & 0x7fffffff; body = s.read(ln)
        if typ == 4 and not flags & 1: s.sock.sendall(s.frame(4, 1, 0, b""))
        elif typ == 6 and not flags & 1: s.sock.sendall(s.frame(6, 1, 0, body))
        elif typ == 8 and sid == 0: s.window += int.from_bytes(body, "big") & 0x7fffffff
        elif typ == 0:
            s.acked.add(sid)
            if flags & 1: s.done.add(sid)
        elif typ == 1 and flags & 1: s.done.add(sid)
        elif typ == 3: s.done.add(sid)
        elif typ == 7: raise ConnectionError("goaway")
    def pump(s):
        """Takes in the answers that are already there."""
        while len(s.buf) >= 9 or select.select([s.sock], [], [], 0)[0]: s.step()
    def wait(s, sid):
        while sid not in s.done: s.step()
        return sid in s.acked
    def export(s, r): return s.wait(s.send(r["kind"], request(r)))
    def close(s): s.sock.close()

# ---------------------------------------------------------------- processes
class Infra(Exception):
    """The sandbox, not weaver, got in the way (a port was taken)."""

_lock, _port = threading.Lock(), [20000 + os.getpid() * 37 % 9000]
def ports(n):
    """Ports below the ephemeral range, each handed out once."""
    out = []
    with _lock:
        while len(out) < n:
            _port[0] = _port[0] + 1 if _port[0] < 31900 else 20000
            with socket.socket() as k:
                k.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                try: k.bind(("0.0.0.0", _port[0])); out.append(_port[0])
                except OSError: pass
    return out

class Listener:
    """A weaver process with an OTLP receiver and an admin port."""
    def __init__(s, args, cwd, env=None):
        s.grpc, s.admin = ports(2)
        e = dict(core.RUN_ENV, HOME=str(cwd), TMPDIR=str(cwd)); e.update(env or {})
        s.p = subprocess.Popen([str(core.WEAVER), *map(str, args(s.grpc, s.admin))], cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        # read all along: a full pipe would hold weaver up
        s.got = [b"", b""]; s.readers = [threading.Thread(target=s.read, args=(k, f), daemon=True) for k, f in enumerate((s.p.stdout, s.p.stderr))]
        for t in s.readers: t.start()
    def read(s, k, f):
        try: s.got[k] = f.read()
        except (OSError, ValueError): pass
    def ready(s, timeout=30):
        t = time.time()
        while time.time() - t < timeout:
            if s.p.poll() is not None: return False
            try:
                c = http.client.HTTPConnection("127.0.0.1", s.admin, timeout=5); c.request("GET", "/health"); ok = c.getresponse().read(); c.close()
                if b"ready" in ok: return True
            except OSError: pass
            time.sleep(.02)
        raise Infra("not ready")
    def stop(s, timeout=60):
        c = http.client.HTTPConnection("127.0.0.1", s.admin, timeout=timeout); c.request("POST", "/stop")
        try: r = c.getresponse(); b = r.read(); c.close()
        except (http.client.HTTPException, OSError): return None, None, b""
        return r.status, r.getheader("content-type"), b
    def end(s, timeout=60):
        note = ""
        try: s.p.wait(timeout=timeout)
        except subprocess.TimeoutExpired: s.p.kill(); note = "\n[does not end]"
        for t in s.readers: t.join(10)
        return core.Run(None if note else s.p.returncode, s.got[0].decode("utf8", "replace"), s.got[1].decode("utf8", "replace") + note)
    def kill(s):
        if s.p.poll() is None: s.p.kill(); s.p.wait()
