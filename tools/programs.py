"""Support for the checks that enumerate client programs (P25, P28): builds the crates of /repo as libraries and asks
the compiler which of many small programs it accepts."""
import hashlib, json, os, shutil, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class NoAnswer(Exception):
    pass


class Libs:
    def __init__(self, env, target):
        self.dir = os.path.join(target, "programs")
        self.env = dict(env, CARGO_TARGET_DIR=self.dir)

    def build(self, tree_hash):
        os.makedirs(self.dir, exist_ok=True)
        stamp = os.path.join(self.dir, "repo.hash")
        if not os.path.exists(stamp) or open(stamp).read() != tree_hash:
            fp = os.path.join(self.dir, "debug", ".fingerprint")
            if os.path.isdir(fp):
                for e in os.listdir(fp):
                    if e.startswith(("shard", "programs")):
                        shutil.rmtree(os.path.join(fp, e), ignore_errors=True)
        r = subprocess.run(["cargo", "build", "--offline", "--message-format=json"], cwd=os.path.join(V, "programs"), env=self.env, capture_output=True, text=True)
        arts, out = {}, []
        for line in r.stdout.splitlines():
            try:
                j = json.loads(line)
            except ValueError:
                continue
            if j.get("reason") == "compiler-artifact":
                arts[j["target"]["name"].replace("-", "_")] = j["filenames"]
            if j.get("reason") == "compiler-message" and j["message"]["level"] == "error":
                out.append(j["message"].get("rendered") or "")
        if r.returncode != 0:
            raise NoAnswer("the crates do not build:\n" + "\n".join(out) + r.stderr[-2000:])
        with open(stamp, "w") as f:
            f.write(tree_hash)
        pick = lambda n, e: next(f for f in arts[n] if f.endswith(e))
        self.externs = ["--extern", "shard_ecs=" + pick("shard_ecs", ".rlib"), "--extern", "shard_ecs_derive=" + pick("shard_ecs_derive", ".so"),
                        "-L", "dependency=" + os.path.join(self.dir, "debug", "deps")]

    def rustc(self, path, args):
        r = subprocess.run(["rustc", "--error-format=json", "--cap-lints", "allow", path] + args + self.externs, cwd=self.dir, env=self.env, capture_output=True, text=True)
        return r.returncode, r.stderr


class Source:
    """A source file made of numbered units; diagnostics are attributed to the unit whose lines they point at."""

    def __init__(self, prelude):
        self.lines = prelude.splitlines()
        self.unit_of = {}

    def add(self, unit, text):
        for l in text.splitlines():
            self.lines.append(l)
            self.unit_of[len(self.lines)] = unit

    def text(self):
        return "\n".join(self.lines) + "\n"


def _sites(span, path):
    """Lines of our file a span lies in, including the call sites of macros."""
    while span:
        if os.path.basename(span["file_name"]) == os.path.basename(path):
            yield span["line_start"]
        exp = span.get("expansion")
        span = exp["span"] if exp else None


def accepted(libs, name, prelude, units, edition, log=None):
    """units: list of (id, text).  Returns {id: None | error text}: the compiler's verdict on every unit."""
    verdict = {}
    todo = list(units)
    for _ in range(40):
        src = Source(prelude)
        for i, t in todo:
            src.add(i, t)
        path = os.path.join(libs.dir, name + ".rs")
        with open(path, "w") as f:
            f.write(src.text())
        rc, err = libs.rustc(path, ["--edition", edition, "--crate-type", "lib", "--crate-name", name, "--emit=metadata", "-o", os.path.join(libs.dir, name + ".rmeta")])
        if rc == 0:
            for i, _ in todo:
                verdict[i] = None
            return verdict
        bad, other = {}, []
        for line in err.splitlines():
            try:
                d = json.loads(line)
            except ValueError:
                other.append(line)
                continue
            if d.get("level") != "error":
                continue
            ids = {src.unit_of[l] for s in d.get("spans", []) if s["is_primary"] for l in _sites(s, path) if l in src.unit_of}
            if not ids:
                ids = {src.unit_of[l] for s in d.get("spans", []) for l in _sites(s, path) if l in src.unit_of}
            if not ids and d.get("spans"):
                other.append(d.get("rendered") or d["message"])
            for i in ids:
                bad.setdefault(i, d.get("rendered") or d["message"])
        if not bad:
            raise NoAnswer(f"{name}: the compiler failed without pointing at a program:\n" + "\n".join(other)[:3000])
        if os.environ.get("PROG_DEBUG"):
            print(name, len(todo), {k: v.split(chr(10))[0] for k, v in list(bad.items())[:3]}, flush=True)
        verdict.update(bad)
        todo = [u for u in todo if u[0] not in bad]
    raise NoAnswer(f"{name}: no end of compiler errors")
