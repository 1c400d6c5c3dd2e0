"""Clients of the long-running commands: `weaver serve` (HTTP) and `weaver registry mcp` (JSON-RPC on stdin and stdout)."""
import http.client, json, subprocess, threading, time, urllib.parse
from . import core
from .otlp import Infra

class Proc:
    """A weaver process; its standard error is read all along."""
    def __init__(s, args, cwd, env=None, stdin=subprocess.DEVNULL):
        e = dict(core.RUN_ENV, HOME=str(cwd), TMPDIR=str(cwd)); e.update(env or {})
        s.p = subprocess.Popen([str(core.WEAVER), *map(str, args)], cwd=cwd, env=e, stdin=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        s.got = {1: b"", 2: b""}; s.readers = []; s.watch(2, s.p.stderr)
        if stdin == subprocess.DEVNULL: s.watch(1, s.p.stdout)
    def watch(s, k, f):
        def run():
            try:
                while b := f.read1(65536): s.got[k] += b
            except (OSError, ValueError): pass
        t = threading.Thread(target=run, daemon=True); t.start(); s.readers.append(t)
    def gone(s): return s.p.poll() is not None
    def end(s, timeout=30):
        """The finished process; killed when it does not finish."""
        note = ""
        try: s.p.wait(timeout)
        except subprocess.TimeoutExpired: s.p.kill(); note = "\n[does not end]"; s.p.wait()
        for t in s.readers: t.join(10)
        return core.Run(None if note else s.p.returncode, s.got[1].decode("utf8", "replace"), s.got[2].decode("utf8", "replace") + note)
    def kill(s):
        if s.p.poll() is None: s.p.kill()
        s.p.wait()

def get(port, path, host="127.0.0.1", headers={}, timeout=30):
    """(status, headers, body) or None when nobody answers."""
    c = http.client.HTTPConnection(host, port, timeout=timeout)
    try: c.request("GET", path, headers=headers); r = c.getresponse(); return r.status, dict((k.lower(), v) for k, v in r.getheaders()), r.read()
    except (OSError, http.client.HTTPException): return None
    finally: c.close()
def q(path, **kw): return path + "?" + urllib.parse.urlencode(kw) if kw else path

class Mcp(Proc):
    def __init__(s, args, cwd, env=None):
        super().__init__(args, cwd, env, stdin=subprocess.PIPE); s.n = 0; s.junk = []
    def send(s, m):
        s.p.stdin.write((json.dumps(m) + "\n").encode()); s.p.stdin.flush()
    def call(s, method, params):
        s.n += 1; s.send(dict(jsonrpc="2.0", id=s.n, method=method, params=params))
        while True:
            l = s.p.stdout.readline()
            if not l: raise ConnectionError("the server is gone")
            try: m = json.loads(l)
            except ValueError: s.junk.append(l.decode("utf8", "replace")); continue
            if m.get("id") == s.n: return m
    def hello(s):
        r = s.call("initialize", dict(protocolVersion="2024-11-05", capabilities={}, clientInfo=dict(name="t", version="1")))
        s.send(dict(jsonrpc="2.0", method="notifications/initialized")); return r
    def tool(s, name, /, **args):
        """The text that a tool answers with, or None and the error."""
        m = s.call("tools/call", dict(name=name, arguments=args))
        if "error" in m: return None, m["error"]
        return "".join(c.get("text", "") for c in m["result"]["content"]), m["result"].get("isError")
    def finish(s, timeout=30):
        try: s.p.stdin.close()
        except OSError: pass
        try: s.junk.append(s.p.stdout.read().decode("utf8", "replace"))
        except (OSError, ValueError): pass
        return s.end(timeout)
