#!/usr/bin/env python3
"""setup_cmd: checks that the toolchains and the offline crate cache are usable."""
import os, subprocess, sys
H = os.path.dirname(os.path.abspath(__file__))
env = dict(os.environ, CARGO_NET_OFFLINE="true")
env["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + env.get("PATH", "")
for cmd in (["cargo", "--version"], ["cargo", "+nightly", "--version"], ["cargo", "metadata", "--offline", "--locked", "--format-version", "1", "--all-features"]):
    r = subprocess.run(cmd, cwd=os.path.join(H, "..", "harness"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-2000:])
        sys.exit(1)
print("ok")
