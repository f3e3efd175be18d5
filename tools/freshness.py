#!/usr/bin/env python3
"""cargo decides by modification times what to rebuild. Copies of /repo may carry any times, so decide by content:
if /repo's sources are not those of the last build, forget that diman was ever built."""
import glob, hashlib, os, shutil, sys

def digest(repo="/repo"):
    h = hashlib.sha256()
    for top in ("Cargo.toml", "src", "crates"):
        top = os.path.join(repo, top)
        files = [top] if os.path.isfile(top) else [os.path.join(d, f) for d, _, fs in os.walk(top) for f in fs]
        for f in sorted(files):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as g:
                h.update(hashlib.sha256(g.read()).digest())
    return h.hexdigest()

def ensure(target):
    os.makedirs(target, exist_ok=True)
    stamp = os.path.join(target, "repo.sha256")
    new = digest()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if new != old:
        for name in ("diman", "rtsim", "mpisim", "hdfsim"):
            for at in ("/debug", "/x86_64-unknown-linux-gnu/debug"):
                for d in glob.glob(glob.escape(target) + at + "/.fingerprint/" + name + "*"):
                    shutil.rmtree(d, ignore_errors=True)
        with open(stamp, "w") as f:
            f.write(new)

if __name__ == "__main__":
    ensure(sys.argv[1] if len(sys.argv) > 1 else os.environ["CARGO_TARGET_DIR"])
