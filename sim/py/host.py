"""Runs the repository's Python functions against a simulated network, storage, file system and clock.

Lock-step with the simulator: every request, upload, sleep and disk write is one line of JSON written to the simulator,
whose answer decides what happens. Nothing here touches the real file system or network.
"""
import builtins, calendar as _calendar, datetime as _dt, io, json, posixpath, sys, types, zipfile as _zip

inp = open(sys.argv[1], "r", encoding="utf-8")
out = open(sys.argv[2], "w", encoding="utf-8")


class Kill(BaseException):
    pass


class Unsupported(BaseException):
    pass


dead = False
now = 0.0


def rpc(msg):
    global dead, now
    if dead:
        raise Kill()
    out.write(json.dumps(msg) + "\n")
    out.flush()
    a = json.loads(inp.readline())
    if a.get("kill"):
        dead = True
        raise Kill()
    if "now" in a:
        now = a["now"]
    return a


class Stub(types.ModuleType):
    def __init__(self, name, **kw):
        super().__init__(name)
        self.__dict__.update(kw)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported(f"{self.__name__}.{k}")


# ---- file system -----------------------------------------------------------------------------------------------
files = {}


def norm(p):
    return posixpath.normpath(posixpath.join("/var/task", str(p)))


def writable(p):
    p = norm(p)
    if not p.startswith("/tmp/"):
        raise OSError(30, "Read-only file system", p)
    return p


def disk(p):
    a = rpc({"op": "disk", "path": p})
    if a.get("full"):
        raise OSError(28, "No space left on device", p)


class VBytes(io.BytesIO):
    def __init__(self, p, data=b"", write=False):
        super().__init__(data)
        self.p, self.w, self.name, self.mode = p, write, p, "r+b" if write else "rb"

    def write(self, b):
        if self.w and len(b) > 0 and not getattr(self, "told", False):
            self.told = True
            disk(self.p)
        return super().write(b)

    def flush(self):
        if self.w and not self.closed:
            files[self.p] = self.getvalue()

    def close(self):
        if not self.closed:
            self.flush()
        super().close()


def vopen(p, mode="r", *a, encoding=None, newline=None, **kw):
    if "b" not in mode:
        raw = vopen(p, mode.replace("t", "") + "b")
        return io.TextIOWrapper(raw, encoding=encoding or "utf-8", newline=newline)
    if mode[0] in "wxa":
        p = writable(p)
        if mode[0] == "x" and p in files:
            raise FileExistsError(17, "File exists", p)
        f = VBytes(p, b"", True)
        if mode[0] == "a":
            f.write(files.get(p, b""))
        files[p] = f.getvalue()
        return f
    p = norm(p)
    if p not in files:
        raise FileNotFoundError(2, "No such file or directory", p)
    f = VBytes(p, files[p], "+" in mode)
    return f


class VZip(_zip.ZipFile):
    def __init__(self, file, mode="r", *a, **kw):
        self._own = None
        if isinstance(file, (str,)) or hasattr(file, "__fspath__"):
            self._own = vopen(file, {"r": "rb", "w": "wb", "x": "xb", "a": "ab"}[mode])
            file = self._own
        super().__init__(file, mode, *a, **kw)

    def write(self, filename, arcname=None, *a, **kw):
        p = norm(filename)
        if p not in files:
            raise FileNotFoundError(2, "No such file or directory", p)
        return self.writestr(arcname if arcname is not None else str(filename).lstrip("/"), files[p])

    def close(self):
        super().close()
        if self._own is not None:
            self._own.close()


def remove(p):
    p = writable(p)
    if p not in files:
        raise FileNotFoundError(2, "No such file or directory", p)
    del files[p]


def mkdirs(p, *a, **k):
    if norm(p) != "/tmp":
        writable(p)


def rmtree(p, ignore_errors=False, onerror=None, onexc=None):
    q = norm(p)
    for f in [f for f in files if f == q or f.startswith(q.rstrip("/") + "/")]:
        del files[f]


def listdir(p="."):
    q = norm(p).rstrip("/") + "/"
    return sorted({f[len(q):].split("/")[0] for f in files if f.startswith(q)})


# ---- clock ---------------------------------------------------------------------------------------------------------
class Date(_dt.date):
    @classmethod
    def today(cls):
        d = _dt.datetime.fromtimestamp(now, _dt.timezone.utc)
        return cls(d.year, d.month, d.day)


class Datetime(_dt.datetime):
    @classmethod
    def now(cls, tz=None):
        d = _dt.datetime.fromtimestamp(now, tz or _dt.timezone.utc)
        return cls(d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond, d.tzinfo if tz else None)

    @classmethod
    def today(cls):
        return cls.now()

    @classmethod
    def utcnow(cls):
        return cls.now()

    def date(self):
        return Date(self.year, self.month, self.day)


def sleep(s):
    rpc({"op": "sleep", "ms": float(s) * 1000})


# ---- network -------------------------------------------------------------------------------------------------------
class RequestException(IOError):
    def __init__(self, *a, response=None, request=None):
        super().__init__(*a)
        self.response, self.request = response, request


class HTTPError(RequestException):
    pass


class RequestsConnectionError(RequestException):
    pass


class ChunkedEncodingError(RequestException):
    pass


class Timeout(RequestException):
    pass


class JSONDecodeError(RequestException, json.JSONDecodeError):
    def __init__(self, e):
        json.JSONDecodeError.__init__(self, e.msg, e.doc, e.pos)
        self.response = None


class Response:
    def __init__(self, url, status, text):
        self.url, self.status_code, self.text = url, status, text
        self.content = text.encode("utf-8")
        self.ok = status < 400
        self.headers = {"content-type": "application/json"}
        self.reason = ""
        self.encoding = "utf-8"

    def json(self, **kw):
        try:
            return json.loads(self.text, **kw)
        except json.JSONDecodeError as e:
            raise JSONDecodeError(e) from None

    def raise_for_status(self):
        if self.status_code >= 400:
            raise HTTPError(f"{self.status_code} Error for url: {self.url}", response=self)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def get(url, params=None, headers=None, timeout=None, **kw):
    if params:
        raise Unsupported("requests params")
    t = timeout[1] if isinstance(timeout, tuple) else timeout
    a = rpc({"op": "get", "url": url, "headers": headers or {}, "timeout": t})
    if a.get("error") == "timeout":
        raise Timeout("read timed out")
    if a.get("error") == "cut":
        raise ChunkedEncodingError("Connection broken: IncompleteRead")
    if a.get("error"):
        raise RequestsConnectionError(a["error"])
    return Response(url, a["status"], a["body"])


class Session:
    def __init__(self):
        self.headers = {}

    def get(self, url, headers=None, **kw):
        return get(url, headers={**self.headers, **(headers or {})}, **kw)

    def mount(self, *a):
        raise Unsupported("requests.Session.mount")

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class ClientError(Exception):
    pass


def unzip(data):
    try:
        z = _zip.ZipFile(io.BytesIO(data))
        if z.testzip() is not None:
            return None
        return [[i.filename, z.read(i).decode("utf-8")] for i in z.infolist()]
    except Exception:
        return None


class S3:
    def _put(self, bucket, key, data):
        a = rpc({"op": "put", "bucket": bucket, "key": key, "size": len(data), "entries": unzip(data)})
        if a.get("error"):
            raise ClientError(a["error"])

    def upload_file(self, path, bucket, key, **kw):
        p = norm(path)
        if p not in files:
            raise FileNotFoundError(2, "No such file or directory", p)
        self._put(bucket, key, files[p])

    def upload_fileobj(self, f, bucket, key, **kw):
        self._put(bucket, key, f.read())

    def put_object(self, Bucket, Key, Body, **kw):
        self._put(Bucket, Key, Body if isinstance(Body, bytes) else Body.encode() if isinstance(Body, str) else Body.read())
        return {}

    def __getattr__(self, k):
        raise Unsupported(f"s3.{k}")


def client(name, **kw):
    if name != "s3":
        raise Unsupported(f"boto3.client({name})")
    return S3()


class Logger:
    def __init__(self, *a, **kw):
        pass

    def inject_lambda_context(self, f=None, **kw):
        return f if f is not None else (lambda g: g)

    def __getattr__(self, k):
        return lambda *a, **kw: None


def modules(env):
    path = Stub("os.path", **{k: getattr(posixpath, k) for k in ("join", "basename", "dirname", "splitext", "normpath", "split", "sep", "isabs", "abspath")},
                exists=lambda p: norm(p) in files or norm(p) in ("/tmp", "/var/task") or bool(listdir(p)), isfile=lambda p: norm(p) in files, isdir=lambda p: norm(p) == "/tmp" or bool(listdir(p)), getsize=lambda p: len(files[norm(p)]))
    os_ = Stub("os", environ=dict(env), getenv=lambda k, d=None: env.get(k, d), path=path, makedirs=mkdirs, mkdir=mkdirs, remove=remove, unlink=remove, listdir=listdir, sep="/", linesep="\n", fspath=lambda p: p)
    dt = Stub("datetime", **{k: getattr(_dt, k) for k in ("timedelta", "timezone", "time", "tzinfo", "UTC", "MINYEAR", "MAXYEAR")}, date=Date, datetime=Datetime)
    exc = Stub("requests.exceptions", RequestException=RequestException, HTTPError=HTTPError, ConnectionError=RequestsConnectionError, Timeout=Timeout, ReadTimeout=Timeout, ChunkedEncodingError=ChunkedEncodingError, JSONDecodeError=JSONDecodeError)
    rq = Stub("requests", get=get, Session=Session, session=Session, exceptions=exc, Response=Response, **{k: v for k, v in exc.__dict__.items() if isinstance(v, type)})
    return {
        "os": os_, "os.path": path, "datetime": dt, "requests": rq, "requests.exceptions": exc,
        "boto3": Stub("boto3", client=client), "botocore.exceptions": Stub("botocore.exceptions", ClientError=ClientError, BotoCoreError=ClientError),
        "aws_lambda_powertools": Stub("aws_lambda_powertools", Logger=Logger), "shutil": Stub("shutil", rmtree=rmtree),
        "zipfile": Stub("zipfile", ZipFile=VZip, ZIP_DEFLATED=_zip.ZIP_DEFLATED, ZIP_STORED=_zip.ZIP_STORED, BadZipFile=_zip.BadZipFile, is_zipfile=_zip.is_zipfile),
        "time": Stub("time", sleep=sleep, time=lambda: now, monotonic=lambda: now, perf_counter=lambda: now),
        "calendar": _calendar,
    }


PURE = {"json", "io", "math", "re", "itertools", "functools", "collections", "collections.abc", "typing", "dataclasses", "contextlib", "enum", "decimal", "operator", "string", "textwrap", "copy", "logging", "__future__", "abc", "types"}


class Fn:
    """One execution environment: module state and /tmp live until it is recycled."""

    def __init__(self, source, name, env):
        mods = modules(env)
        real = builtins.__import__

        def imp(n, g=None, l=None, fromlist=(), level=0):
            m = mods.get(n)
            if m is not None:
                if not fromlist and "." in n:
                    return mods[n.split(".")[0]]
                return m
            if n in PURE:
                return real(n, g, l, fromlist, level)
            raise Unsupported(f"import {n}")

        b = dict(builtins.__dict__)
        b.update(__import__=imp, open=vopen, print=lambda *a, **k: None)
        for k in ("exec", "eval", "compile", "input", "breakpoint"):
            b.pop(k, None)
        self.ns = {"__builtins__": b, "__name__": name, "__file__": f"/var/task/{name}.py"}
        self.source, self.name, self.loaded = source, name, False

    def run(self, handler, event):
        if not self.loaded:
            exec(compile(self.source, f"{self.name}.py", "exec"), self.ns)
            self.loaded = True
        h = self.ns.get(handler)
        if h is None:
            raise Exception(f"handler {handler} is missing")
        return h(event, types.SimpleNamespace(function_name=self.name, memory_limit_in_mb=128, invoked_function_arn="arn", aws_request_id="r"))


fns = {}
for line in inp:
    m = json.loads(line)
    dead = False
    now = m["now"]
    if m["op"] == "recycle":
        fns.pop(m["fn"], None)
        continue
    if m["op"] == "reset":
        fns.clear()
        continue
    # {"op": "run", "fn", "source", "handler", "event", "env"}
    if m["fn"] not in fns:
        fns[m["fn"]] = (Fn(m["source"], m["fn"], m["env"]), {})
    fn, files = fns[m["fn"]]
    try:
        v = fn.run(m["handler"], m["event"])
        r = {"op": "end", "status": "ok", "value": v}
    except Kill:
        r = {"op": "end", "status": "killed"}
    except Unsupported as e:
        r = {"op": "end", "status": "unsupported", "error": str(e)}
    except BaseException as e:
        r = {"op": "end", "status": "error", "error": f"{type(e).__name__}: {e}"[:300]}
    try:
        s = json.dumps(r)
    except TypeError:
        s = json.dumps({"op": "end", "status": "error", "error": "the result cannot be serialised"})
    out.write(s + "\n")
    out.flush()
