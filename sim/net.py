"""
Simulated network below `requests`: replaces HTTPAdapter.send. A stub SPARQL endpoint answers; faults come from the plan.
Real code: the data source, requests' sessions and response handling, urllib3's response/body handling.
"""
import gzip
import io
import json
import re
import socket
import urllib.parse

from sim.ctx import HarnessError, SimHang

TOKEN = re.compile(r"""
    (?P<iri><[^<>\s]*>)
  | (?P<lit>'(?:\\.|[^'\\\n\r])*'(?:@[A-Za-z-]+)?|"(?:\\.|[^"\\\n\r])*"(?:@[A-Za-z-]+)?)
  | (?P<var>[?$]\w+)
  | (?P<pname>[A-Za-z][\w-]*:[\w-]+)
  | (?P<num>[+-]?\d+(?:\.\d+)?)
  | (?P<word>[A-Za-z]+)
  | (?P<punct>!=|&&|\|\||[{}().,;=*])
  | (?P<ws>\s+|\#[^\n]*\n)
""", re.X | re.S)

ESCAPES = {"t": "\t", "n": "\n", "r": "\r", "b": "\b", "f": "\f", "\\": "\\", "'": "'", '"': '"'}


class BadQuery(Exception):
    pass


def tokenize(query):
    pos = 0
    tokens = []
    while pos < len(query):
        m = TOKEN.match(query, pos)
        if not m:
            raise BadQuery(f"Lexical error at {pos}: {query[pos:pos + 20]!r}")
        pos = m.end()
        kind = m.lastgroup
        if kind != "ws":
            tokens.append((kind, m.group()))
    return tokens


def unescape(body):
    def one(m):
        c = m.group(1)
        if c[0] in "uU":
            return chr(int(c[1:], 16))
        if c in ESCAPES:
            return ESCAPES[c]
        raise BadQuery("Bad escape \\" + c)
    return re.sub(r"\\(u[0-9A-Fa-f]{4}|U[0-9A-Fa-f]{8}|.)", one, body, flags=re.S)


def literal(token):
    quote = token[0]
    end = token.rindex(quote)
    lang = token[end + 2:] if token[end + 1:].startswith("@") else None
    return ("text", unescape(token[1:end]), lang)


class SparqlStore:
    """triples: list of (subject term, predicate, object term); a term is ('id', iri) | ('text', value, lang) | ('num', value)"""

    def __init__(self, triples):
        self.triples = triples

    def query(self, text):
        tokens = tokenize(text)
        pos = 0

        def peek():
            return tokens[pos] if pos < len(tokens) else (None, None)

        def take(expected=None):
            nonlocal pos
            tok = peek()
            if tok[0] is None or (expected is not None and tok[1].upper() != expected):
                raise BadQuery(f"Expected {expected}, found {tok[1]}")
            pos += 1
            return tok

        while peek()[1] and peek()[1].upper() == "PREFIX":
            take()
            take()
            take()
        take("SELECT")
        distinct = False
        if peek()[1] and peek()[1].upper() in ("DISTINCT", "REDUCED"):
            distinct = True
            take()
        variables = []
        star = False
        while True:
            if peek()[1] == "*":
                take()
                star = True
            elif peek()[0] == "var":
                variables.append(take()[1][1:])
            else:
                break
        if not star and not variables:
            raise BadQuery("nothing selected")
        if peek()[1] and peek()[1].upper() == "WHERE":
            take()
        take("{")
        patterns, filters = [], []

        def term():
            kind, value = take()
            if kind == "var":
                return ("var", value[1:])
            if kind == "iri":
                return ("id", value[1:-1])
            if kind == "lit":
                return literal(value)
            if kind == "pname":
                return ("id", value)
            if kind == "num":
                return ("num", value)
            raise BadQuery(f"Unexpected {value}")

        while peek()[1] != "}":
            if peek()[0] is None:
                raise BadQuery("Unexpected end of query")
            if peek()[1] == ".":
                take()
            elif peek()[1].upper() == "FILTER":
                take()
                depth = 0
                expr = []
                while True:
                    tok = take()
                    expr.append(tok)
                    if tok[1] == "(":
                        depth += 1
                    elif tok[1] == ")":
                        depth -= 1
                        if depth == 0:
                            break
                filters.append(self.parse_filter(expr))
            else:
                patterns.append((term(), term(), term()))
        take("}")
        limit = None
        while peek()[0] is not None:
            tok = take()
            if tok[1].upper() == "LIMIT":
                limit = int(take()[1])
            else:
                raise BadQuery(f"Unexpected {tok[1]}")
        rows = [{}]
        for s, p, o in patterns:
            new = []
            for row in rows:
                for ts, tp, to in self.triples:
                    b = self.match(s, ts, row)
                    b = self.match(p, ("id", tp), b) if b is not None else None
                    b = self.match(o, to, b) if b is not None else None
                    if b is not None:
                        new.append(b)
            rows = new
        rows = [row for row in rows if all(f(row) for f in filters)]
        out = []
        for row in rows:
            names = sorted(row) if star else variables
            out.append({v: row[v] for v in names if v in row})
        if distinct:
            seen = []
            for row in out:
                if row not in seen:
                    seen.append(row)
            out = seen
        if limit is not None:
            out = out[:limit]
        return (sorted({v for row in out for v in row}) if star else variables), out

    @staticmethod
    def match(pattern, term, row):
        if pattern[0] == "var":
            if pattern[1] in row:
                return row if row[pattern[1]] == term else None
            return {**row, pattern[1]: term}
        return row if tuple(pattern) == tuple(term) else None

    @staticmethod
    def parse_filter(expr):
        # ( LANG ( ?x ) = "en" )   in either order of the operands
        toks = [t for t in expr if t[1] not in "()"]
        if len(toks) == 4 and toks[0][1].upper() == "LANG" and toks[2][1] == "=":
            var, lit = toks[1], toks[3]
        elif len(toks) == 4 and toks[2][1].upper() == "LANG" and toks[1][1] == "=":
            lit, var = toks[0], toks[3]
        else:
            raise BadQuery("Unsupported filter " + " ".join(t[1] for t in expr))
        name, lang = var[1][1:], literal(lit[1])[1]

        def check(row):
            term = row.get(name)
            return term is not None and term[0] == "text" and (term[2] or "") == lang
        return check


def to_json(variables, rows):
    def cell(term):
        if term[0] == "id":
            return {"type": "uri", "value": term[1]}
        if term[0] == "num":
            return {"type": "literal", "datatype": "http://www.w3.org/2001/XMLSchema#decimal", "value": term[1]}
        out = {"type": "literal", "value": term[1]}
        if term[2]:
            out["xml:lang"] = term[2]
        return out
    return {"head": {"vars": list(variables)}, "results": {"bindings": [{k: cell(v) for k, v in row.items()} for row in rows]}}


class FaultyBody(io.RawIOBase):
    """A response body delivered in pieces, that may break or stall at an offset."""

    def __init__(self, net, data, chunk, fail_at=None, fail=None, timeout=None):
        self.net = net
        self.data = data
        self.pos = 0
        self.chunk = chunk
        self.fail_at = fail_at
        self.fail = fail
        self.timeout = timeout

    def readable(self):
        return True

    def read(self, amt=-1):
        self.net.yield_point("body")
        if self.fail_at is not None and self.pos >= self.fail_at:
            if self.fail == "reset":
                raise ConnectionResetError(104, "Connection reset by peer")
            if self.fail == "stall":
                self.net.wait(self.timeout, "body")
                raise socket.timeout("timed out")
            return b""
        end = len(self.data) if self.fail_at is None else self.fail_at
        if amt is None or amt < 0:
            out = self.data[self.pos:end]
        else:
            out = self.data[self.pos:min(end, self.pos + min(amt, self.chunk))]
        self.pos += len(out)
        if (amt is None or amt < 0) and self.fail_at is not None and self.fail in ("reset", "stall"):
            return self.read(1)
        return out

    def readinto(self, b):
        data = self.read(len(b))
        b[:len(data)] = data
        return len(data)


class SimNet:
    """
    endpoints: {host: SparqlStore}. `next_fault(host)` returns a fault (a dict) for the next exchange, or None.
    """

    FAULTS = ("refused", "dns", "silent_connect", "silent", "reset", "body_reset", "body_stall", "truncated", "http", "html", "badjson",
              "malformed", "badgzip", "empty")

    def __init__(self, ctx, clock, endpoints, sched=None, max_sends=200):
        self.ctx = ctx
        self.clock = clock
        self.endpoints = endpoints
        self.sched = sched
        self.sends = 0
        self.max_sends = max_sends
        self.next_fault = lambda host: None
        self.down = set()
        self.order = None          # random.Random deciding the row order
        self.chunk = 4096
        # how the endpoint answers
        self.ctype = "application/sparql-results+json;charset=utf-8"
        self.escaped = False
        self.gzip = False
        self.log = []

    def yield_point(self, label):
        if self.sched:
            self.sched.yield_point("net." + label)

    def wait(self, timeout, what):
        """Waits for something that never comes."""
        if timeout is None:
            raise SimHang(f"waits for the {what} of a silent endpoint without a time limit")
        self.clock.advance(timeout)
        self.ctx.probe("timeouts_expired")

    def install(self, seams):
        import requests.adapters
        net = self

        def send(adapter, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
            return net.send(adapter, request, timeout)
        seams.patch(requests.adapters.HTTPAdapter, "send", send)

        def no_socket(*args, **kwargs):
            raise HarnessError("the code under test opened a real socket")
        seams.patch(socket, "create_connection", no_socket)

    def style(self, style):
        for key, value in (style or {}).items():
            setattr(self, key, value)

    def send(self, adapter, request, timeout):
        import requests
        import urllib3
        self.sends += 1
        if self.sends > self.max_sends:
            raise SimHang(f"keeps sending requests ({self.sends})")
        if isinstance(timeout, tuple):
            connect_timeout, read_timeout = timeout
        elif timeout is not None and not isinstance(timeout, (int, float)):
            connect_timeout, read_timeout = getattr(timeout, "connect_timeout", None), getattr(timeout, "read_timeout", None)
        else:
            connect_timeout = read_timeout = timeout
        self.yield_point("connect")
        url = urllib.parse.urlsplit(request.url)
        host = url.hostname
        self.clock.advance(0.05)
        fault = self.next_fault(host)
        if host in self.down:
            fault = fault or {"kind": "refused"}
        kind = fault["kind"] if fault else None
        self.ctx.event("send", host, "fault", kind)
        if fault:
            self.ctx.fault("net." + kind)
        if kind == "refused":
            raise requests.exceptions.ConnectionError("Connection refused", request=request)
        if kind == "dns":
            self.clock.advance(5)
            raise requests.exceptions.ConnectionError("Name or service not known", request=request)
        if kind == "silent_connect":
            self.wait(connect_timeout, "connection")
            raise requests.exceptions.ConnectTimeout("Connection timed out", request=request)
        if host not in self.endpoints:
            raise requests.exceptions.ConnectionError(f"Name or service not known {host}", request=request)
        # the endpoint
        params = dict(urllib.parse.parse_qsl(url.query, keep_blank_values=True))
        body = request.body
        if body:
            body = body.decode() if isinstance(body, bytes) else body
            params.update(dict(urllib.parse.parse_qsl(body, keep_blank_values=True)))
        self.yield_point("server")
        status, headers = 200, {"Content-Type": self.ctype}
        rows = None
        try:
            variables, rows = self.endpoints[host].query(params.get("query", ""))
            if self.order:
                self.order.shuffle(rows)
            data = json.dumps(to_json(variables, rows), ensure_ascii=self.escaped).encode()
        except BadQuery as e:
            status, data = 400, f"MalformedQueryException: {e}".encode()
            self.ctx.probe("bad_query")
        self.log.append((host, params.get("query"), status, kind))
        if kind == "silent":
            self.wait(read_timeout, "response")
            raise requests.exceptions.ReadTimeout("Read timed out", request=request)
        if kind == "reset":
            raise requests.exceptions.ConnectionError("Connection aborted: reset by peer", request=request)
        if kind == "http":
            status = fault["status"]
            headers["Content-Type"] = fault.get("ctype", "text/html")
            shape = fault.get("shape", "html")
            if shape == "html":
                data = b"<html><body>error</body></html>"
            elif shape == "empty_result":
                data = json.dumps(to_json(["term0", "term1"], [])).encode()
            elif shape == "json_error":
                data = json.dumps({"error": "something", "code": status}).encode()
            elif shape == "partial":
                data = json.dumps(to_json(variables, rows[:len(rows) // 2])).encode() if status != 400 and rows is not None else b"{}"
            elif shape == "none":
                data = b""
            if "retry_after" in fault:
                headers["Retry-After"] = fault["retry_after"]
        elif kind == "redirect":
            status, data = fault["status"], b""
            headers["Location"] = request.url
        elif kind == "html":
            headers["Content-Type"] = "text/html"
            data = b"<html><body>captive portal</body></html>"
        elif kind == "badjson":
            cut = fault["cut"] % max(1, len(data))
            data = data[:cut]
        elif kind == "empty":
            data = b""
        elif kind == "badutf8":
            places = [m.end() for m in re.finditer(b'"value": "', data)]
            if places:
                at = places[fault["cut"] % len(places)]
                data = data[:at] + [b"\xff", b"\xc3", b"\xe9t", b"\x80"][fault["cut"] % 4] + data[at:]
                self.ctx.probe("damaged_text")
        elif kind == "malformed":
            shape = fault.get("shape", 0) % 9
            doc = json.loads(data) if status == 200 else {}
            if shape == 0:
                doc.pop("results", None)
            elif shape == 1:
                doc = {"head": {"vars": []}, "results": {}}
            elif shape == 2:
                doc = {"head": {"vars": []}, "boolean": False}
            elif shape == 3:
                doc = None
            elif shape == 4:
                doc = {"error": {"message": "timeout"}}
            elif shape == 5:
                doc = {"head": {"vars": []}, "results": {"bindings": None}}
            elif status == 200:
                bindings = doc["results"]["bindings"]
                if bindings and bindings[-1]:
                    at = fault.get("cut", 0)
                    row = bindings[at % len(bindings)]
                    name = sorted(row)[at % len(row)]
                    if shape == 6:
                        del row[name]
                    elif shape == 7:
                        del row[name]["value"]
                    elif shape == 8:
                        row[name] = None
                    self.ctx.probe("damaged_row")
            data = json.dumps(doc).encode()
        if fault and fault.get("slow"):
            self.clock.advance(fault["slow"])
        if self.gzip and kind != "badgzip":
            headers["Content-Encoding"] = "gzip"
            data = gzip.compress(data, mtime=0)
        headers["Content-Length"] = str(len(data))
        if kind == "badgzip":
            headers["Content-Encoding"] = "gzip"
            packed = gzip.compress(data, mtime=0)
            cut = fault["cut"] % max(1, len(packed) - 9)
            data = packed[:cut]
            headers["Content-Length"] = str(len(packed))
        body = FaultyBody(self, data, self.chunk, timeout=read_timeout)
        if kind in ("body_reset", "body_stall", "truncated"):
            body.fail_at = fault["cut"] % max(1, len(data))
            body.fail = {"body_reset": "reset", "body_stall": "stall", "truncated": "eof"}[kind]
        raw = urllib3.HTTPResponse(body=body, headers=headers, status=status, reason="", version=11, preload_content=False,
                                   decode_content=False, enforce_content_length=True, request_method=request.method,
                                   original_response=None)
        response = adapter.build_response(request, raw)
        self.yield_point("received")
        return response


def gen_fault(rng, kinds):
    kind = rng.choice(kinds)
    fault = {"kind": kind}
    if kind == "http":
        fault["status"] = rng.choice([400, 401, 403, 404, 408, 414, 429, 429, 500, 500, 502, 503, 503, 504])
        fault["shape"] = rng.choice(["html", "empty_result", "json_error", "partial", "none"])
        if rng.random() < 0.5:
            fault["ctype"] = "application/sparql-results+json"
    if kind == "refusal":
        # the endpoint asks to come back later
        fault = {"kind": "http", "status": rng.choice([429, 429, 503, 503, 502, 504, 408, 500]), "shape": rng.choice(["html", "json_error", "none"])}
        if rng.random() < 0.8:
            fault["retry_after"] = rng.choice(["0", "1", "5", "120", "3600", "86400", "Wed, 21 Oct 2099 07:28:00 GMT", "soon"])
    if kind == "redirect":
        fault["status"] = rng.choice([301, 302, 303, 307, 308])
    if kind in ("body_reset", "body_stall", "truncated", "badjson", "badgzip", "badutf8"):
        fault["cut"] = rng.randrange(0, 4000)
    if kind == "malformed":
        fault["shape"] = rng.randrange(9)
        fault["cut"] = rng.randrange(0, 4000)
    if rng.random() < 0.1:
        fault["slow"] = rng.choice([0.5, 5, 20])
    return fault


CTYPES = ["application/sparql-results+json;charset=utf-8", "application/sparql-results+json", "application/sparql-results+json", "application/json", "text/json"]


def gen_style(rng):
    """How the endpoint answers."""
    return {"ctype": rng.choice(CTYPES), "escaped": rng.random() < 0.25, "gzip": rng.random() < 0.25}
