#!/usr/bin/env python3
"""Stages the current /repo sources as a crate that builds here: build/<flavour>/bugi.

/repo cannot be built as it is: Cargo.toml needs ../spacemath, which is not available. The staged
crate holds the same source files, byte for byte, except that
  * src/lib.rs has every `mod x;` made `pub mod x;` (so that the harness reaches private modules
    without any hook in /repo), and in the "core" flavour the modules file and mesher are dropped;
  * Cargo.toml is ours (same crate versions, the stand-in spacemath of harness/spacemath).
Files are rewritten only when their content differs, so cargo rebuilds exactly when the code changed.
"""
import os, re, sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("BUGI_REPO", "/repo")

CARGO = """[package]
name = "bugi"
version = "0.1.0"
edition = "2018"
autobins = false
autotests = false
autoexamples = false
autobenches = false

[workspace]

[lib]
path = "src/lib.rs"
doctest = false
{bins}
[dependencies]
image = {{ version = "0.23.12", default-features = false, features = ["png"] }}
fastrand = "1.5.0"
spacemath = {{ path = "../../../harness/spacemath" }}
{extra}
"""


def stage(flavour):
    out = os.path.join(VERIF, "build", flavour, "bugi")
    wanted = {}
    left_out = ("main.rs", "cli.yml", "file/", "mesher/") if flavour == "core" else ()
    src = os.path.join(REPO, "src")
    for top, _, names in os.walk(src):
        for n in names:
            path = os.path.join(top, n)
            rel = os.path.relpath(path, src)
            if rel.startswith(left_out) if left_out else False:
                continue
            data = open(path, "rb").read()
            if rel == "lib.rs":
                text = data.decode("utf-8", "surrogateescape")
                if flavour == "core":
                    text = re.sub(r"(?m)^\s*(pub(\([a-z]+\))?\s+)?mod\s+(file|mesher)\s*;", "", text)
                text = re.sub(r"(?m)^(\s*)(?:pub(?:\([a-z]+\))?\s+)?mod\s+(\w+)\s*;", r"\1pub mod \2;", text)
                data = text.encode("utf-8", "surrogateescape")
            wanted[os.path.join("src", rel)] = data
    if flavour == "core":
        toml = CARGO.format(bins="", extra="")
    else:
        toml = CARGO.format(
            bins='\n[[bin]]\nname = "bugi"\npath = "src/main.rs"\n',
            extra='clap = { version = "~2.27.0", features = ["yaml"] }\nnom = "7.1.1"\n',
        )
    wanted["Cargo.toml"] = toml.encode()
    for rel, data in wanted.items():
        path = os.path.join(out, rel)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        try:
            same = open(path, "rb").read() == data
        except OSError:
            same = False
        if not same:
            with open(path, "wb") as f:
                f.write(data)
    for top, _, names in os.walk(os.path.join(out, "src")):
        for n in names:
            path = os.path.join(top, n)
            if os.path.relpath(path, out) not in wanted:
                os.remove(path)
    return out


if __name__ == "__main__":
    print(stage(sys.argv[1]))
