#!/usr/bin/env python3
"""Writes build/cargo-home/config.

The pinned openssl crates only know OpenSSL 1.1; /opt/vp links every OpenSSL
function as address 0, so creating any HTTP client (InfluxDB, Elasticsearch
sinks) crashes.  Here the functions that the sandbox's own libssl/libcrypto do
export are linked from there, and only the leftovers are defined as 0.  That is
enough to create clients and speak plain HTTP.
"""
import os, re, subprocess
VB = os.environ["VB"]
args = open("/opt/vp/openssl-absent.args").read().split()
names = [re.match(r"-Wl,--defsym=(\w+)=0", a).group(1) for a in args if "--defsym" in a]
other = [a for a in args if "--defsym" not in a]
libd = "/usr/lib/x86_64-linux-gnu"
have, libs = set(), []
for lib in ("ssl", "crypto"):
    so = f"{libd}/lib{lib}.so.3"
    if os.path.exists(so):
        out = subprocess.run(["nm", "-D", "--defined-only", so], capture_output=True, text=True).stdout
        have |= {l.split()[-1].split("@")[0] for l in out.splitlines() if l.split()}
        libs.append(so)
def write(path, text):
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    open(path, "w").write(text)
left = [n for n in names if n not in have]
lines = other + [f"-Wl,--defsym={n}=0" for n in left] + (["-Wl,--no-as-needed"] + libs if libs else [])
write(f"{VB}/link.args", "\n".join(lines) + "\n")
write(f"{VB}/cargo-home/config", f'''[source.crates-io]
replace-with = "vendored-sources"

[source.vendored-sources]
directory = "{VB}/vendor"

[net]
offline = true

[target.x86_64-unknown-linux-gnu.openssl]
rustc-cfg = ["ossl101", "ossl102", "ossl102h", "ossl110"]
version = "110"
version_number = "10100000"

[target.x86_64-unknown-linux-gnu]
rustflags = ["-C", "link-arg=@{VB}/link.args"]
''')
print(f"openssl: {len(names)-len(left)} of {len(names)} functions from the system library")
