#!/usr/bin/env python3
"""Builds /repo's current tree with the given feature sets and writes where the results are.
usage: build_sut.py min-int full-rational ...   (after sourcing env.sh)"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import json, subprocess
import freshness
verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
target = os.environ["CARGO_TARGET_DIR"]
freshness.ensure(target)
for name in sys.argv[1:]:
    size, kind = name.split("-")
    feats = kind if size == "min" else "full," + kind
    r = subprocess.run(["cargo", "build", "--offline", "--features", feats, "--message-format=json"], cwd=verif + "/sut",
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    info = {}
    errors = []
    for l in r.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
            errors.append(m["message"]["rendered"])
        if m.get("reason") == "compiler-artifact":
            for f in m["filenames"]:
                n = m["target"]["name"].replace("-", "_")
                if f.endswith(".so") and n == "diman_unit_system":
                    info["so"] = f
                if f.endswith(".rlib"):
                    info.setdefault("rlib." + n, f)
    if r.returncode != 0 or "so" not in info or "rlib.diman" not in info:
        print("cannot build", name, "".join(errors)[:4000], r.stderr[-3000:], file=sys.stderr)
        sys.exit(2)
    with open(f"{target}/sut-{name}.info", "w") as f:
        for k, v in sorted(info.items()):
            if k == "so" or k.split(".")[1] in ("diman", "diman_lib", "serde", "rand", "mpi", "hdf5", "hdf5_metno", "glam", "once_cell"):
                f.write(f"{k}={v}\n")
        f.write(f"deps={target}/debug/deps\n")
