"""C18: loading a model gives the complete model or fails, whatever the medium does."""
import gc
import os
import shutil
import tempfile

from .. import core, fs as simfs, models, net as simnet

LOCAL = ["model.yaml", "http_model.yaml", "my_https.yaml", "http/model.yaml", "a http://b/model.yaml", "ünï cödé/modèle.yaml", "x/../model.yaml",
         "https", "ahttp://host/model.yaml", "HTTP.YAML", "file:model.yaml", "model with spaces.yaml", "www.host.org/model.yaml"]
HOSTS = ["example.org", "raw.host.test:8080", "127.0.0.1:81"]
URLS = ["/model.yaml", "/a/b/http_model.yaml?x=1&y=2", "/file.txt", "/dir/"]
STYLES = ["small", "tiny", "tiny-old", "long", "unicode", "example:consumption_savings_iid", "example:rbc_mc", "crlf"]
CUTS = ["reset", "timeout", "eio", "close", "ssl"]


def model_text(style, version):
    com = f"# version {version}\n"
    if style == "small":
        return com + f"name: small\nsymbols:\n    states: [k{version}]\n    controls: [c]\ncalibration:\n    k{version}: {version}.5\n"
    if style == "tiny":
        return models.text("mc", "new", alpha=0.3 + version / 100, comment=com)
    if style == "tiny-old":
        return models.text("normal", "old", alpha=0.3 + version / 100, comment=com)
    if style == "long":
        pad = "".join(f"# filler line {i} {'x' * (i % 90)}\n" for i in range(600))
        return com + pad + models.text("ar1", "new", alpha=0.3 + version / 100) + "\n" + pad + f"\nlast: {version}\n"
    if style == "unicode":
        return com + f"name: Modèle à épargne ⟂ β€\nsymbols:\n    states: [k]\n    parameters: [β, γ]\ncalibration:\n    β: 0.9{version}\n    γ: 2\n    k: 1\n" + "# é⟂" * 900 + "\n"
    if style == "crlf":
        return (com + f"name: small\nsymbols:\n    states: [k{version}]\n    controls: [c]\ncalibration:\n    k{version}: {version}.5\n").replace("\n", "\r\n")
    return com + models.example(style.split(":")[1]).replace("0.33", f"0.3{version}")


class C18(core.Check):
    ID = "C18"
    LEVEL = "fault_enumeration"
    RULE = ("A run is a history of imports of one model from a simulated disk or web server whose text changes in between, each with its own delivery "
            "(read sizes, delays, framing, redirects) and faults (open and read errors, refused connections, resets, timeouts, announced but missing "
            "bytes, error answers). Every import that returns is compared with the complete text; every import without a fault must return. "
            "Non-trivial when a fault fired or the text was delivered in pieces.")
    REAL = ["dolo.yaml_import, read_file_or_url, Model", "urllib, http.client, socket file buffering, text decoding, yaml", "model files on disk under a scratch folder"]
    STUBS = ["socket.create_connection and TLS wrapping (scripted web server)", "file operations that can fail", "code generation of model functions (only when loading with checks)"]
    RUNS = {"quick": 1800, "thorough": 40000}
    SOFT_S = {"quick": 45, "thorough": 900}
    STATE_MEASURE = "distinct (medium, framing, fault kind, position class, outcome) combinations"
    ASSUMPTIONS = ["A cut of an answer that announces neither a length nor chunks cannot be noticed by anybody and is not injected."]

    def setup(self, tier):
        import dolo  # noqa
        import urllib.request  # noqa
        import yaml
        self.yaml = yaml
        from dolo import yaml_import
        self.imp = yaml_import
        self.refs = {}

    def worker_setup(self):
        with models.stub_compile():
            models.load_text(model_text("tiny", 0))
            models.load_text(model_text("tiny-old", 0))

    def ref(self, style, version):
        if (style, version) not in self.refs:
            txt = model_text(style, version)
            data = self.yaml.compose(txt.replace("\r\n", "\n"))
            self.refs[style, version] = models.node_tree(data)
        return self.refs[style, version]

    def deep_ref(self, style, version):
        key = (style, version, "deep")
        if key not in self.refs:
            with models.stub_compile():
                self.refs[key] = deep(models.load_text(model_text(style, version)))
        return self.refs[key]

    def fixed(self, tier):
        out = []
        ok = {"check": False, "faults": [], "persistent": []}
        for loc in LOCAL:
            for ab in (True, False):
                out.append({"medium": "file", "path": loc, "abs": ab, "style": "small", "ops": [dict(ok, op="import")]})
        for style in ("small", "unicode"):
            for op in ("open-r", "read"):
                for at in range(0, 4 if op == "read" else 1):
                    for e in ("EIO", "EACCES", "ESTALE", "EMFILE"):
                        out.append({"medium": "file", "path": "model.yaml", "abs": True, "style": style, "bufsize": [64, 4096][at % 2], "ops": [
                            dict(ok, op="import", faults=[{"kind": "error", "op": op, "at": at, "errno": e}]), dict(ok, op="import")]})
        for framing in ("length", "chunked", "close"):
            n = len(model_text("small", 0)) + 200
            for kind in CUTS:
                if kind == "close" and framing == "close":
                    continue
                for b in list(range(0, n, 7)) + [n - 1]:
                    out.append({"medium": "web", "scheme": ["http", "https"][b % 2], "host": HOSTS[b % 3], "path": URLS[b % 3], "style": "small", "ops": [
                        {"op": "import", "check": False, "framing": framing, "chunk": 40, "cut": [b, kind], "chunks": [[1], [13], [4096], [50, 1]][b % 4]},
                        {"op": "import", "check": False, "framing": framing}]})
        for sch in ("HTTP", "Https", "hTTp"):
            out.append({"medium": "web", "scheme": sch, "host": HOSTS[0], "path": URLS[0], "style": "small", "ops": [{"op": "import", "check": False, "framing": "length"}]})
        return out

    def generate(self, rng, tier):
        style = rng.choice(STYLES)
        if rng.random() < 0.45:
            sc = {"medium": "file", "path": rng.choice(LOCAL), "abs": rng.random() < 0.6, "style": style,
                  "bufsize": rng.choice([16, 64, 1000, 8192])}
            ops = []
            for _ in range(rng.randint(1, 5)):
                r = rng.random()
                if r < 0.2:
                    ops.append({"op": "rewrite"})
                    continue
                faults, pers = [], []
                if r < 0.65:
                    for _ in range(rng.choice([1, 1, 2])):
                        k = rng.random()
                        if k < 0.25:
                            faults.append({"kind": "error", "op": "open-r", "at": rng.choice([0, 0, 1]), "errno": rng.choice(["EACCES", "ENOENT", "EMFILE", "EIO"])})
                        elif k < 0.7:
                            faults.append({"kind": "error", "op": "read", "at": int(rng.expovariate(0.2)), "errno": rng.choice(["EIO", "ESTALE", "EISDIR", "ETIMEDOUT"])})
                        else:
                            faults += [{"kind": "short", "op": "read", "at": i, "k": rng.choice([1, 2, 3, 7, 50])} for i in range(rng.randint(1, 20))]
                elif r < 0.7:
                    pers.append({"op": rng.choice(["open-r", "read"]), "errno": "EIO"})
                ops.append({"op": "import", "check": rng.random() < 0.1, "faults": faults, "persistent": pers, "hold": rng.random() < 0.5})
            sc["ops"] = ops
            return sc
        sc = {"medium": "web", "scheme": rng.choice(["http", "http", "https", "HTTPS"]), "host": rng.choice(HOSTS), "path": rng.choice(URLS), "style": style}
        ops = []
        n = len(model_text(style, 0).encode()) + 120
        for _ in range(rng.randint(1, 4)):
            r = rng.random()
            if r < 0.2:
                ops.append({"op": "rewrite"})
                continue
            framing = rng.choice(["length", "length", "chunked", "chunked", "close"])
            o = {"op": "import", "check": rng.random() < 0.1, "framing": framing, "chunk": rng.choice([16, 100, 1000, 5000]),
                 "chunks": [rng.choice([1, 2, 3, 10, 100, 1000, 8192]) for _ in range(rng.randint(1, 5))] if n < 6000
                 else [rng.choice([50, 1000, 8192, 100000]) for _ in range(rng.randint(1, 5))],
                 "delays": rng.choice([None, None, [0, 0, 0.2], [3], [0, 0, 0, 0, 40]]), "hold": rng.random() < 0.5}
            if r < 0.6:
                kind = rng.choice([c for c in CUTS if not (c == "close" and framing == "close")])
                o["cut"] = [rng.choice([rng.randint(0, n), rng.randint(0, 150), rng.randint(max(0, n - 60), n)]), kind]
            elif r < 0.75:
                o["connect"] = [rng.choice(["refused", "dns", "unreachable", "timeout"])]
            elif r < 0.82:
                o["status"] = rng.choice([404, 500, 503, 403, 410])
            elif r < 0.9:
                o["redirect"] = rng.choice([301, 302, 307, 303])
                o["redirect_abs"] = rng.random() < 0.5
            ops.append(o)
        sc["ops"] = ops
        return sc

    def shrink(self, sc):
        yield from core.shrink_lists(sc)
        for i, o in enumerate(sc["ops"]):
            for k in ("delays", "redirect", "chunks"):
                if o.get(k):
                    new = core.json.loads(core.json.dumps(sc))
                    new["ops"][i].pop(k)
                    yield new
        if sc["style"] != "small":
            yield dict(sc, style="small")

    def run(self, sc, ctx):
        root = tempfile.mkdtemp(dir=os.environ["DOLO_SIM_RUNDIR"])
        home = os.getcwd()
        try:
            os.chdir(root)
            (self._file if sc["medium"] == "file" else self._web)(sc, ctx, root)
        finally:
            os.chdir(home)
            shutil.rmtree(root, ignore_errors=True)

    def _import(self, target, op):
        err = model = None
        try:
            if op.get("check"):
                with models.stub_compile():
                    model = self.imp(target)
            else:
                model = self.imp(target, check=False)
        except Exception as e:
            err = e
        return model, err

    def _judge(self, sc, ctx, where, op, version, model, err, must, name):
        cls = type(err).__name__ if err else "ok"
        ctx.state((sc["medium"], op.get("framing"), where[0], cls))
        ctx.ev("import", version, cls)
        if err is None:
            try:
                got = models.node_tree(model.data)
            except AttributeError:
                raise core.Violation("not-a-model", f"{where[1]}: returned {model!r}")
            want = self.ref(sc["style"], version)
            if got[0] == "m" and got[2] and got[2][-1][1][2] == name:
                got = (got[0], got[1], got[2][:-1])  # the file name the importer adds
            if got != want:
                raise core.Violation("wrong-model", f"{where[1]}: the model loaded is not the one written: {diff(got, want)}")
            if op.get("check") and sc["style"].startswith(("tiny", "example:cons")):
                if deep(model) != self.deep_ref(sc["style"], version):
                    raise core.Violation("wrong-model", f"{where[1]}: the model's symbols or calibration differ from those of its text")
        elif must:
            raise core.Violation("load-fails", f"{where[1]}: raised {err!r} although nothing failed")

    def _checkable(self, sc, op):
        if op.get("check") and not sc["style"].startswith(("tiny", "example:cons")):
            op = dict(op, check=False)
        return op

    def _file(self, sc, ctx, root):
        rel = sc["path"]
        path = os.path.join(root, rel)
        os.makedirs(os.path.join(root, "x"), exist_ok=True)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        version = 0

        def write():
            with open(path, "w", encoding="utf8", newline="") as f:
                f.write(model_text(sc["style"], version))
        write()
        target = path if sc["abs"] else rel
        if target.lower().startswith(("http://", "https://")):
            target = path
        for oi, op in enumerate(sc["ops"]):
            if op["op"] == "rewrite":
                version = (version + 1) % 8
                write()
                ctx.ev("rewrite", version)
                continue
            op = self._checkable(sc, op)
            fs = simfs.FS(root, ctx, simfs.Plan(op.get("faults", []), op.get("persistent", [])), bufsize=sc.get("bufsize", 64))
            net = simnet.Net(ctx)
            with simfs.Installed(fs), simnet.Installed(net):
                model, err = self._import(target, op)
                still = [f.path for f in fs.open_files]
                hard = [f for f in fs.fired if f["kind"] == "error"]
                if still:
                    raise core.Violation("file-left-open", f"op {oi}: {target!r} still open after {err!r}, faults {[(f['op_hit'], f.get('errno')) for f in fs.fired]}")
            if fs.fired:
                ctx.nontrivial = True
            where = (tuple((f["op_hit"], f.get("errno")) for f in fs.fired[:3]),
                     f"op {oi}: import of file {rel!r} (text version {version}, faults {[(f['op_hit'], f.get('errno')) for f in fs.fired[:5]]})")
            if net.n_connect:
                raise core.Violation("file-taken-for-url", where[1] + ": a connection was opened")
            self._judge(sc, ctx, where, op, version, model, err, not hard, target)
            err = None

    def _web(self, sc, ctx, root):
        version = 0
        host, _, port = sc["host"].partition(":")
        url = f"{sc['scheme']}://{sc['host']}{sc['path']}"
        import urllib.error
        for oi, op in enumerate(sc["ops"]):
            if op["op"] == "rewrite":
                version = (version + 1) % 8
                continue
            op = self._checkable(sc, op)
            net = simnet.Net(ctx)
            body = model_text(sc["style"], version).encode()
            spec = {"bytes": simnet.http_answer(body, op.get("framing", "length"), op.get("status", 200), chunk=op.get("chunk")),
                    "chunks": op.get("chunks"), "delays": op.get("delays"), "cut": op.get("cut")}
            if spec["cut"] and spec["cut"][0] >= len(spec["bytes"]):
                spec["cut"] = None
            if op.get("redirect"):
                loc = f"{sc['scheme'].lower()}://{sc['host']}/moved" if op.get("redirect_abs") else "/moved"
                net.routes[(host, sc["path"])] = {"bytes": simnet.http_answer(b"moved", "length", op["redirect"], "Moved", headers=[f"Location: {loc}"])}
                net.routes[(host, "/moved")] = spec
            else:
                net.routes[(host, sc["path"])] = spec
            net.connect_faults = list(op.get("connect") or [])
            fs = simfs.FS(root, ctx)
            with simnet.Installed(net), simfs.Installed(fs):
                model, err = self._import(url, op)
                held = net.open_conns()
                is_http = isinstance(err, urllib.error.HTTPError)
                if held and not is_http:
                    raise core.Violation("connection-left-open", f"op {oi}: import of {url} with {op} left the connection open ({err!r})")
                text = repr(err)
                del err
                err = None if text == "None" else RuntimeError(text)
                if held:
                    gc.collect()
                    if net.open_conns():
                        raise core.Violation("connection-left-open", f"op {oi}: import of {url} with {op} left the connection open ({text})")
            slow = any(d > 1 for d in op.get("delays") or [])
            must = not (net.hits or op.get("status") or slow)
            if net.hits or op.get("status") or op.get("redirect") or (op.get("chunks") and min(op["chunks"]) < len(body)):
                ctx.nontrivial = True
            ctx.simtime += net.clock
            if op.get("status") and model is not None:
                raise core.Violation("error-answer-taken", f"op {oi}: the server answered {op['status']} but {url} was loaded")
            cutc = None
            if op.get("cut"):
                cutc = (op["cut"][1], "header" if op["cut"][0] < len(spec["bytes"]) - len(body) else "body")
            where = ((cutc, tuple(net.hits), op.get("status"), op.get("redirect")),
                     f"op {oi}: import of {url} (text version {version}, {op.get('framing')} framing, network events {net.hits}, cut {op.get('cut')}, status {op.get('status', 200)})")
            self._judge(sc, ctx, where, op, version, model, err, must, url)


def deep(model):
    return repr((sorted(dict(model.symbols).items()), sorted((k, [repr(float(x)) for x in v]) for k, v in model.calibration.grouped.items()),
                 sorted(model.equations.items()), sorted(model.definitions.items())))


def diff(a, b):
    if a[0] != b[0] or a[1] != b[1]:
        return f"{str(a)[:200]} instead of {str(b)[:200]}"
    if a[0] == "v":
        return f"{str(a[2])[:200]!r} instead of {str(b[2])[:200]!r}"
    if len(a[2]) != len(b[2]):
        return f"{len(a[2])} entries instead of {len(b[2])}"
    for x, y in zip(a[2], b[2]):
        if x != y:
            if a[0] == "m":
                return f"{x[0][2]}: {diff(x[1], y[1])}" if x[0] == y[0] else f"entry {x[0][2]} instead of {y[0][2]}"
            return diff(x, y)
    return "?"


CHECK = C18()
