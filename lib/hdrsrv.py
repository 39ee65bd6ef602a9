"""A scripted HTTP server on the loopback interface, and the Node.js header archives it serves."""
import gzip
import hashlib
import io
import socket
import struct
import tarfile
import threading
import time


def archive(version, name="node", tag="A", extra=(), top=None):
    """A header archive and what of it belongs on disk."""
    top = top or f"{name}-v{version}"
    inc = {
        "include/node/node.h": f"// node.h {tag}\n" * 40,
        "include/node/node_version.h": "#define NODE_MAJOR_VERSION %s\n#define NODE_MINOR_VERSION %s\n#define NODE_PATCH_VERSION %s\n" % tuple(version.split("-")[0].split(".")) + f"// {tag}\n",
        "include/node/v8.h": f"// v8.h {tag}\n" * 3000,
        "include/node/uv/unix.h": f"// {tag}\n",
        "include/node/common.gypi": "{'variables': {'tag': '%s'}}\n" % tag,
        "include/node/config.gypi": "{'variables': {}}\n",
    }
    other = {"README.md": "read me", "include/node/tool.py": "print()", "include/node/noext": "x", "bin/node": "#!binary", "include/node/x.hh": "//", "h": "bare"}
    out = io.BytesIO()
    with tarfile.open(fileobj=out, mode="w", format=tarfile.USTAR_FORMAT) as t:
        for n, c in list(inc.items()) + list(other.items()):
            i = tarfile.TarInfo(f"{top}/{n}")
            i.size, i.mode, i.mtime = len(c), 0o644, 1500000000
            t.addfile(i, io.BytesIO(c.encode()))
        for i, c in extra:
            t.addfile(i, io.BytesIO(c) if c is not None else None)
    return gzip.compress(out.getvalue(), mtime=0), {k: v.encode() for k, v in inc.items()}


def sha(b):
    return hashlib.sha256(b).hexdigest()


class Server:
    """answers: {path: dict}. An answer: status, body, cut (bytes of the body sent before the connection closes), reset (likewise, with an RST),
    delay (seconds), gone (close without answering), chunked. requests: paths asked for, in order."""

    def __init__(self):
        self.answers, self.requests = {}, []
        self.sock = socket.socket()
        self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.sock.bind(("127.0.0.1", 0))
        self.sock.listen(64)
        self.port = self.sock.getsockname()[1]
        self.url = f"http://127.0.0.1:{self.port}"
        threading.Thread(target=self._loop, daemon=True).start()

    def script(self, answers):
        self.answers, self.requests = dict(answers), []

    def _loop(self):
        while True:
            try:
                c, _ = self.sock.accept()
            except OSError:
                return
            threading.Thread(target=self._serve, args=(c,), daemon=True).start()

    def _serve(self, c):
        try:
            c.settimeout(30)
            data = b""
            while b"\r\n\r\n" not in data:
                b = c.recv(65536)
                if not b:
                    return
                data += b
            path = data.split(b" ")[1].decode("latin-1")
            self.requests.append(path)
            a = self.answers.get(path, {"status": 404, "body": b"no such file"})
            if a.get("delay"):
                time.sleep(a["delay"])
            if a.get("gone"):
                return
            body, status = a.get("body", b""), a.get("status", 200)
            hdr = f"HTTP/1.1 {status} X\r\nConnection: close\r\n"
            for k, v in a.get("headers", {}).items():
                hdr += f"{k}: {v}\r\n"
            if not a.get("chunked"):
                hdr += f"Content-Length: {len(body)}\r\n"
            else:
                hdr += "Transfer-Encoding: chunked\r\n"
            send = body
            cut = a.get("cut", a.get("reset"))
            if cut is not None:
                send = body[:cut]
            if a.get("chunked"):
                send = b"%x\r\n" % len(body) + send + (b"\r\n0\r\n\r\n" if cut is None else b"")
            c.sendall(hdr.encode() + b"\r\n" + send)
            if a.get("reset") is not None:
                time.sleep(0.02)
                c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            else:
                c.shutdown(socket.SHUT_WR)
                while c.recv(65536):
                    pass
        except OSError:
            pass
        finally:
            c.close()

    def close(self):
        self.sock.close()
