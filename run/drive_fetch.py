#!/usr/bin/env python3
"""drive_fetch.py COMMAND HARNESS SCRIPT TRACE [flush]

Publishes certificates on a loopback server, lets the cache builder fetch them
in a prescribed order and records what it left behind.  The server also stands
in, as a proxy, for the fixed address of the root certificate."""
import datetime, html, http.server, io, json, os, re, shutil, socket, socketserver, ssl, subprocess, sys, tempfile, threading, time, zipfile

cmd, harness, script, trace = sys.argv[1:5]
PEM = os.path.join(os.path.dirname(os.path.abspath(__file__)), "data", "loopback.pem")
ROOT_HOST, ROOT_PATH = "dtc.jrc.ec.europa.eu", "/erca_of_doc/EC_PK.zip"
PAGES = {"/dtc_public_key_certificates_dt.php.html": 1, "/dtc_public_key_certificates_st.php.html": 2}
PATIENCE = 0.3                     # how long the order waits for a download that does not come


class Publisher:
    """What is published, and the order in which downloads are let through."""

    def __init__(self, certs, rows, c, root):
        self.certs, self.c, self.root = certs, c, root
        self.by = {}                                  # path -> (generation, place in the list, row)
        for gen in (1, 2):
            for i, r in enumerate(rows[gen]):
                self.by.setdefault("/" + r["link"], (gen, i, r))
        self.rows = rows
        self.order = {1: list(c["order"][0]), 2: list(c["order"][1])}
        self.cond = threading.Condition()
        self.log, self.waiting, self.moved = [], {1: [], 2: []}, time.time()
        self.over = self.gulped = False

    def page(self, gen):
        style = self.c.get("style", 0)
        out = ["<!DOCTYPE html><html><head><title>List</title></head><body><h1>Certificates</h1><table>"]
        out.append("<tr><th>Country</th><th>Certificate</th><th>Expiry</th></tr>")
        for r in self.rows[gen]:
            e = html.escape
            link = '<a href="%s"%s>%s</a>' % (e(r["link"], True), ' title="Download certificate file"' if r.get("title") else "", "Download")
            name = bytes(r["country"]).decode()
            if style == 0:
                tds = [e(name), link, r["text"]]
            elif style == 1:
                tds = ["\n  <span>" + e(name) + "</span>\n ", "<b>Certificate</b>", "<div>" + link + "</div>", "\n " + r["text"] + " "]
            elif style == 2:
                tds = [e(name), "", link, "1", "&nbsp;" + r["text"]]
            elif style == 3:  # the first cell heads the row
                out.append('<tr><th scope="row">%s</th><td>%s</td><td>%s</td></tr>' % (e(name), link, r["text"]))
                continue
            elif style == 4:  # the date first, and the link before the name
                tds = [r["text"], link, e(name)]
            elif style == 5:  # other links before and after it, its title before its address
                if r.get("title"):
                    link = '<a title="Download certificate file" class="x" href="%s"%s>Download</a>' % (e(r["link"], True), ' target="_blank"' if len(r["link"]) % 2 else "")
                tds = [e(name), '<a href="info.html">i</a> %s <a name="x"></a>' % link, "<p>" + r["text"] + "</p>"]
            else:             # as loosely written as browsers take it
                out.append("<TR class=odd><!-- row --><TD>%s<TD align='left'>%s\n<TD>%s" % (e(name), link.replace("<a ", "<A ", 1), r["text"]))
                continue
            out.append("<tr>" + "".join("<td>%s</td>" % t for t in tds) + "</tr>")
            if style == 1:
                out.append("<tr><td>note</td><td>nothing to download</td><td>01/01/2030</td></tr>")
        out.append("</table></body></html>")
        return "\n".join(out).encode()

    def turn(self, gen, i):
        """Waits until the order lets download i through."""
        with self.cond:
            self.log.append(["start", gen])
            self.waiting[gen].append(i)
            self.moved = time.time()
            while not self.over:
                o, w = self.order[gen], self.waiting[gen]
                if not o or i not in o and i == min(w):
                    break
                if o[0] == i:
                    break
                if time.time() - self.moved > PATIENCE and o[0] not in w and i == min(w, key=lambda k: o.index(k) if k in o else -1):
                    break
                self.cond.wait(0.02)
            self.waiting[gen].remove(i)

    def through(self, gen, i):
        """Before the answer: from here on the download is no longer counted."""
        with self.cond:
            self.log.append(["end", gen])

    def past(self, gen, i):
        with self.cond:
            if i in self.order[gen]:
                self.order[gen].remove(i)
            self.moved = time.time()
            self.cond.notify_all()


class Handler(http.server.BaseHTTPRequestHandler):
    protocol_version = "HTTP/1.1"

    def log_message(self, *a):
        pass

    def give(self, code, body, headers=(), length=None):
        self.send_response(code)
        for k, v in headers:
            self.send_header(k, v)
        self.send_header("Content-Length", str(len(body) if length is None else length))
        self.end_headers()
        self.wfile.write(body)

    def do_CONNECT(self):
        self.send_response(200)
        self.end_headers()
        ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
        ctx.load_cert_chain(PEM)
        try:
            with ctx.wrap_socket(self.connection, server_side=True) as s:
                f = s.makefile("rb")
                line = f.readline().decode()
                while f.readline().strip():
                    pass
                code, body = self.server.pub.rootfile(line.split(" ")[1]) if self.path.split(":")[0] == ROOT_HOST else (404, b"")
                s.sendall(b"HTTP/1.1 %d X\r\nContent-Length: %d\r\nConnection: close\r\n\r\n" % (code, len(body)) + body)
        except OSError:
            pass
        self.close_connection = True

    def do_GET(self):
        pub = self.server.pub
        if self.path in PAGES:
            gen = PAGES[self.path]
            state = pub.c["pages"][gen - 1]
            if state == "ok":
                self.give(200, pub.page(gen), [("Content-Type", "text/html")])
            elif state == "gone":
                self.give(404, b"<html>gone</html>")
            elif state == "cut":
                body = pub.page(gen)
                self.give(200, body[:len(body) // 2], length=len(body))
                self.close_connection = True
            else:
                self.close_connection = True
            return
        path = self.path
        if path.startswith("/moved/"):
            path = path[6:]
            gen, i, r = pub.by[path]
            self.give(200, bytes(pub.certs[r["b"]]["data"]))
            return
        if path not in pub.by:
            self.give(404, b"no")
            return
        gen, i, r = pub.by[path]
        data = bytes(pub.certs[r["b"]]["data"])
        fate = r["fate"]
        if fate in ("stall", "choke"):
            if fate == "choke":
                self.send_response(200)
                self.send_header("Content-Length", str(len(data)))
                self.end_headers()
                self.wfile.write(data[:10])
                self.wfile.flush()
            t = time.time()
            while not pub.over and time.time() - t < 150:
                time.sleep(0.1)
            self.close_connection = True
            return
        pub.turn(gen, i)
        pub.through(gen, i)
        try:
            if fate == "ok":
                self.give(200, data)
            elif fate == "slow":
                self.send_response(200)
                self.send_header("Content-Length", str(len(data)))
                self.end_headers()
                for k in range(0, len(data), 40):
                    self.wfile.write(data[k:k + 40])
                    self.wfile.flush()
                    time.sleep(0.01)
            elif fate == "chunked":
                self.send_response(200)
                self.send_header("Transfer-Encoding", "chunked")
                self.end_headers()
                for k in range(0, len(data), 50):
                    p = data[k:k + 50]
                    self.wfile.write(b"%x\r\n" % len(p) + p + b"\r\n")
                self.wfile.write(b"0\r\n\r\n")
            elif fate == "redirect":
                self.give(302, b"", [("Location", "/moved" + path)])
            elif fate == "gone":
                self.give(404, data)
            elif fate == "error":
                self.give(500, data)
            elif fate == "nocontent":
                self.give(200, b"")
            elif fate == "html":
                self.give(200, b"<html><body>Not here any more</body></html>" + b" " * 160)
            elif fate == "short":
                self.give(200, data, length=len(data) + 7)
                self.close_connection = True
            elif fate == "broken":
                self.give(200, data[:len(data) // 2], length=len(data))
                self.close_connection = True
            elif fate == "trickless":                # chunks without an end
                self.send_response(200)
                self.send_header("Transfer-Encoding", "chunked")
                self.end_headers()
                self.wfile.write(b"%x\r\n" % len(data) + data + b"\r\n")
                self.close_connection = True
            elif fate == "endless":
                self.send_response(200)
                self.send_header("Transfer-Encoding", "chunked")
                self.end_headers()
                t = time.time()
                junk = b"%x\r\n" % (1 << 20) + bytes(1 << 20) + b"\r\n"
                n = 0
                while not pub.over and time.time() - t < 40 and n < 300:
                    self.wfile.write(junk)
                    n += 1
                pub.gulped = pub.gulped or n == 300
                self.close_connection = True
            else:                                    # hang up
                self.close_connection = True
                self.connection.shutdown(socket.SHUT_RDWR)
        except OSError:
            self.close_connection = True
        finally:
            pub.past(gen, i)


def rootfile(self, path):
    how, data = self.c["root"], bytes(self.root)
    if path != ROOT_PATH or how == "gone":
        return 404, b""
    if how == "nozip":
        return 200, data
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, "w", zipfile.ZIP_DEFLATED) as z:
        z.writestr("README.txt", "about")
        if how == "short":
            z.writestr("EC_PK.bin", data[:-1])
        elif how != "lacking":
            z.writestr("EC_PK.bin", data)
    return 200, buf.getvalue()


Publisher.rootfile = rootfile


class Server(socketserver.ThreadingMixIn, http.server.HTTPServer):
    daemon_threads = True
    request_queue_size = 256

    def handle_error(self, *a):
        pass


def number(s):
    """A reference as its eight bytes."""
    if s in (None, ""):
        return []
    if not isinstance(s, str) or not re.fullmatch(r"0|[1-9][0-9]*", s) or int(s) >= 1 << 64:
        return [-1]
    return list(int(s).to_bytes(8, "big"))


def moment(s):
    if s in (None, ""):
        return []
    m = re.fullmatch(r"(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)Z", s)
    if not m:
        return [-1]
    y, mo, d, h, mi, se = map(int, m.groups())
    try:
        days = datetime.date(y, mo, d).toordinal() - datetime.date(1970, 1, 1).toordinal()
    except ValueError:
        return [-1]
    return [days, h * 3600 + mi * 60 + se]


def content(p):
    return list(open(p, "rb").read()) if os.path.isfile(p) else [-1]


def below(d):
    return sorted(os.path.relpath(os.path.join(a, f), d) for a, _, fs in os.walk(d) for f in fs)


home = None
began = time.time()
out = open(trace, "w")
for line in open(script):
    c = json.loads(line)
    e = dict(c, out="ok")
    op = c["op"]
    if op == "case":
        if home:
            shutil.rmtree(home)
        home = tempfile.mkdtemp(prefix="fetch-")
        certs, rows, cache = {}, {1: [], 2: []}, os.path.join(home, "a", "b", "c", "d", "cache")
        os.makedirs(cache)
    elif op == "cert":
        certs[c["b"]] = c
    elif op == "row":
        rows[c["gen"]].append(c)
        e["link"] = c["link"]
    elif op == "into":
        cache = os.path.join(os.path.dirname(cache), c["n"])
    elif op == "stale":
        p = os.path.join(cache, c["n"])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "wb").write(bytes(c["data"]))
        e.pop("data")
    elif op == "fetch":
        pub = Publisher(certs, rows, c, certs["root"]["data"])
        srv = Server(("127.0.0.1", 0), Handler)
        srv.pub = pub
        threading.Thread(target=srv.serve_forever, args=(0.05,), daemon=True).start()
        base = "http://127.0.0.1:%d" % srv.server_address[1]
        env = {"PATH": os.environ.get("PATH", ""), "HOME": home, "SSL_CERT_FILE": PEM, "SSL_CERT_DIR": "/nonexistent",
               "HTTPS_PROXY": base, "https_proxy": base, "NO_PROXY": "", "GODEBUG": os.environ.get("GODEBUG", "")}
        env.update({k: os.environ[k] for k in ("TZ", "LANG", "LC_ALL", "GOGC", "GOMAXPROCS") if k in os.environ})
        argv = [cmd, "-dir", cache if not c.get("relative") else os.path.relpath(cache, home), "-base-url", base, "-concurrency", str(c["limit"])]
        before = set(below(home))
        t0 = time.time()
        proc = subprocess.Popen(argv, cwd=home, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        try:
            text, _ = proc.communicate(timeout=c.get("wait", 110))
            e["exit"] = proc.returncode
            e["why"] = text.decode("utf-8", "replace")[-600:] if proc.returncode else ""
        except subprocess.TimeoutExpired:
            proc.kill()
            text, _ = proc.communicate()
            e["out"] = "hang"
            e["why"] = text.decode("utf-8", "replace")[-600:]
        e["ms"] = int((time.time() - t0) * 1000)
        pub.over = True
        srv.shutdown()
        srv.server_close()
        with pub.cond:
            e["gulped"] = pub.gulped
            e["log"] = [list(x) for x in pub.log]
        rel = os.path.relpath(cache, home)
        e["escaped"] = sorted(f for f in set(below(home)) - before if not f.startswith(rel + os.sep))
        e["files"] = [f for f in below(cache) if f.endswith(".bin")] if os.path.isdir(cache) else []
        e["indexed"], e["g"], e["rootentry"] = False, [[], []], {}
        try:
            ix = json.load(open(os.path.join(cache, "index.json")))

            def entry(x):
                return {"car": number(x.get("car")), "chr": number(x.get("chr")), "country": list((x.get("country") or "").encode()),
                        "link": x["url"][len(base) + 1:] if x["url"].startswith(base + "/") else "?" + x["url"], "exp": moment(x.get("expirationDate")),
                        "path": x["path"], "data": content(os.path.join(cache, x["path"]))}
            e["g"] = [[entry(x) for x in ix[k] or []] for k in ("g1", "g2")]
            e["rootentry"] = entry(ix["root"])
            e["indexed"] = True
        except (OSError, ValueError, KeyError, TypeError) as x:
            e["broken"] = repr(x)[:200]
    out.write(json.dumps(e, separators=(",", ":")) + "\n")
    out.flush()
    if e["out"] == "hang" or op == "case" and time.time() - began > 600:  # one such run says enough
        break
if home:
    shutil.rmtree(home)
