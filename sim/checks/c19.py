"""C19: going to the project root either succeeds or leaves the working directory unchanged."""
import importlib.util
import os
import shutil
import tempfile

from .. import core, fs as simfs

README = ["README.md", "README"]
OTHER = ["NOTES.md", "main.py", "model.yaml", ".git", "docs"]
PATHS = ["", "", "sub", "sub/deep", "missing", "file.txt", ".", "..", "../..", "a b", "../sub", "link"]
ERRS = {"listdir": ["EACCES", "EIO", "ENOENT", "EMFILE"], "chdir": ["EACCES", "ENOENT", "EIO", "ENOTDIR"], "getcwd": ["ENOENT", "EACCES"],
        "stat": ["EACCES", "EIO"], "open-r": ["EACCES"]}


def load_groot():
    path = os.path.join(core.REPO, "dolo", "misc", "groot.py")
    spec = importlib.util.spec_from_file_location("dolosim_groot", path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod.groot


class C19(core.Check):
    ID = "C19"
    LEVEL = "fault_enumeration"
    RULE = ("A run is a directory tree with READMEs at some levels, and calls from starting points in it with sub-paths, with listing, entering or "
            "resolving a directory failing at chosen steps; non-trivial when a fault fired, the sub-path cannot be entered, or the root is above "
            "the start.")
    REAL = ["dolo.misc.groot", "directories on disk under a scratch folder"]
    STUBS = ["failing directory operations"]
    RUNS = {"quick": 10000, "thorough": 100000}
    SOFT_S = {"quick": 50, "thorough": 900}
    STATE_MEASURE = "distinct (depth, distance of the README, sub-path, fault, outcome) combinations"

    def setup(self, tier):
        self.groot = load_groot()

    def fixed(self, tier):
        out = []
        for depth in (1, 2, 3):
            for readme in range(depth + 1):
                for op, errs in ERRS.items():
                    for at in range(0, depth + 2):
                        for persistent in (False, True):
                            e = errs[at % len(errs)]
                            out.append({"depth": depth, "readmes": [[readme, "README.md"]], "style": 0, "ops": [
                                {"from": depth, "path": "sub" if at % 2 else "", "faults": [] if persistent else [{"kind": "error", "op": op, "at": at, "errno": e}],
                                 "persistent": [{"op": op, "errno": e}] if persistent else []},
                                {"from": depth, "path": "", "faults": [], "persistent": []}]})
        for path in PATHS:
            out.append({"depth": 2, "readmes": [[1, "README"]], "style": 0, "ops": [{"from": 2, "path": path, "faults": [], "persistent": []}]})
        out.append({"depth": 2, "readmes": [], "style": 0, "ops": [{"from": 2, "path": "", "faults": [], "persistent": []}]})
        return out

    def generate(self, rng, tier):
        depth = rng.randint(0, 6)
        readmes = [[rng.randint(0, depth), rng.choice(README + ["README.md/"])] for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))]
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            faults, persistent = [], []
            r = rng.random()
            if r < 0.45:
                for _ in range(rng.choice([1, 1, 2])):
                    op = rng.choice(["listdir", "listdir", "chdir", "chdir", "getcwd", "stat"])
                    faults.append({"kind": "error", "op": op, "at": rng.randint(0, depth + 1), "errno": rng.choice(ERRS[op])})
            elif r < 0.6:
                op = rng.choice(["listdir", "chdir", "getcwd"])
                persistent.append({"op": op, "errno": rng.choice(ERRS[op])})
            ops.append({"from": rng.choice([depth, rng.randint(0, depth), None]), "path": rng.choice(PATHS), "faults": faults, "persistent": persistent,
                        "gone": rng.random() < 0.05, "abs": rng.random() < 0.05})
        return {"depth": depth, "readmes": readmes, "style": rng.randint(0, 3), "ops": ops}

    def run(self, sc, ctx):
        root = tempfile.mkdtemp(dir=os.environ["DOLO_SIM_RUNDIR"])
        home = os.getcwd()
        try:
            self._run(sc, ctx, root)
        finally:
            os.chdir(home)
            shutil.rmtree(root, ignore_errors=True)

    def _run(self, sc, ctx, root):
        names = [["d1", "d2", "d3", "d4", "d5", "d6"], ["a b", "ü", "README.d", "x", "x", "x"], ["README_", "readme", "d", "-", "..d", "."*3],
                 ["p"] * 6][sc["style"]]
        levels = [root]
        for i in range(sc["depth"]):
            levels.append(os.path.join(levels[-1], names[i]))
        for i, d in enumerate(levels):
            os.makedirs(os.path.join(d, "sub", "deep"), exist_ok=True)
            os.makedirs(os.path.join(d, "a b"), exist_ok=True)
            os.symlink("sub", os.path.join(d, "link"))
            for n in ["file.txt", OTHER[i % len(OTHER)]]:
                open(os.path.join(d, n), "w").close()
        for lv, n in sc["readmes"]:
            p = os.path.join(levels[min(lv, sc["depth"])], n)
            if n.endswith("/"):
                if not os.path.exists(p[:-1]):
                    os.makedirs(p)
            elif not os.path.exists(p):
                open(p, "w").close()
        before_tree = tree(root)
        os.chdir(levels[-1])
        for oi, op in enumerate(sc["ops"]):
            if op["from"] is not None:
                start = levels[min(op["from"], sc["depth"])]
                os.chdir(start)
            if op.get("gone"):
                g = os.path.join(root, "gone")
                os.mkdir(g)
                os.chdir(g)
                os.rmdir(g)
            here = os.stat(".")
            want, dist = None, None
            try:
                cwd = os.getcwd()
                p, dist = cwd, 0
                while True:
                    l = os.listdir(p)
                    if any(r in l for r in README):
                        want = p
                        break
                    if os.path.dirname(p) == p:
                        break
                    p = os.path.dirname(p)
                    dist += 1
            except OSError:
                cwd = None
            sub = os.path.join(levels[0], "sub") if op.get("abs") else op["path"]
            target = None
            if want is not None:
                t = os.path.join(want, sub)
                target = t if os.path.isdir(t) else None
            fs = simfs.FS(root, ctx, simfs.Plan(op["faults"], op["persistent"]))
            err = None
            with simfs.Installed(fs):
                try:
                    self.groot(sub) if sub or oi % 2 else self.groot()
                except Exception as e:
                    err = e
            now = os.stat(".")
            moved = (now.st_dev, now.st_ino) != (here.st_dev, here.st_ino)
            where = f"call {oi}: from {cwd and os.path.relpath(cwd, root)} (README {want and os.path.relpath(want, root)}) groot({sub!r}) with {[(f['op_hit'], f['errno']) for f in fs.fired]}"
            ctx.ev("groot", oi, dist, bool(err), moved)
            ctx.state((sc["depth"], dist, op["path"], tuple((f["op_hit"], f["errno"]) for f in fs.fired), bool(err)))
            if err is not None and moved:
                raise core.Violation("directory-changed", f"{where} raised {err!r} but the working directory is now {os.path.realpath('.')}")
            if err is not None and target is not None and not fs.fired:
                raise core.Violation("root-not-found", f"{where} raised {err!r} although the directory exists")
            if err is None:
                if target is None:
                    raise core.Violation("no-error", f"{where} returned although there is nowhere to go")
                t = os.stat(target)
                if (t.st_dev, t.st_ino) != (now.st_dev, now.st_ino):
                    raise core.Violation("wrong-directory", f"{where} went to {os.path.realpath('.')}, not {target}")
            if tree(root) != before_tree or fs.escapes:
                raise core.Violation("changed-files", f"{where} changed the file system {fs.escapes[:2]}")
            if fs.fired or dist or target is None:
                ctx.nontrivial = True


def tree(root):
    out = []
    for d, dirs, files in os.walk(root):
        dirs.sort()
        out.append((d, tuple(dirs), tuple(sorted(files))))
    return out


CHECK = C19()
