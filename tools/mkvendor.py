#!/usr/bin/env python3
"""build/vendor: a view of /opt/vp/vendor by symlink, with private copies of
the crates that cannot be used in place: rdkafka-sys (its build script writes in
its source folder), openssl (must ignore option bits it does not know, which
the sandbox's newer library returns) and any crate with files missing from the
sandbox (cargo then refuses the checksum list, so the copy lists only what is
there)."""
import hashlib, json, os, shutil
VB, SRC = os.environ["VB"], "/opt/vp/vendor"
dst = f"{VB}/vendor"
os.makedirs(dst, exist_ok=True)
for n in sorted(os.listdir(SRC)):
    src, d = f"{SRC}/{n}", f"{dst}/{n}"
    cks = json.load(open(f"{src}/.cargo-checksum.json"))
    missing = [f for f in cks["files"] if not os.path.exists(f"{src}/{f}")]
    if n in ("rdkafka-sys", "openssl") or missing:
        if os.path.islink(d):
            os.unlink(d)
        if not os.path.exists(f"{d}/.copied"):
            shutil.rmtree(d, ignore_errors=True)
            shutil.copytree(src, d, symlinks=True)
            for f in missing:
                del cks["files"][f]
            if n == "openssl":
                f = "src/ssl/mod.rs"
                t = open(f"{d}/{f}").read().replace("from_bits(ret).unwrap()", "from_bits_truncate(ret)").replace("from_bits(mode).unwrap()", "from_bits_truncate(mode)")
                open(f"{d}/{f}", "w").write(t)
                cks["files"][f] = hashlib.sha256(t.encode()).hexdigest()
            json.dump(cks, open(f"{d}/.cargo-checksum.json", "w"))
            open(f"{d}/.copied", "w").close()
    elif not os.path.islink(d):
        os.symlink(src, d)
