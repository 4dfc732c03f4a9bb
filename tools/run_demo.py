#!/usr/bin/env python3
# Builds main.rs, beside this file, against the crate in the current directory, and runs it.
import os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
repo = os.getcwd()
more = os.path.join(here, "demo.toml")
more = open(more).read() if os.path.exists(more) else ""
with tempfile.TemporaryDirectory(prefix="demo.") as d:
    os.mkdir(os.path.join(d, "src"))
    shutil.copy(os.path.join(here, "main.rs"), os.path.join(d, "src", "main.rs"))
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[dependencies]\n'
                'graph_safe_compare = { path = "%s", features = ["wyrng", "oorandom", "fastrand"] }\n%s' % (repo, more))
    e = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(d, "target"), RUSTFLAGS="-Awarnings")
    if "#miri" in more:
        # Watched by Miri.
        if subprocess.run(["cargo", "+nightly", "miri", "setup"], cwd=d, env=e).returncode:
            sys.exit(90)
        if subprocess.run(["cargo", "build", "--offline", "-q"], cwd=d, env=e).returncode:
            sys.exit(90)
        p = subprocess.run(["cargo", "+nightly", "miri", "run", "--offline", "-q"], cwd=d, env=e, timeout=250)
        sys.exit(0 if p.returncode == 0 else 1)
    p = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=d, env=e)
    if p.returncode:
        sys.exit(90)
    p = subprocess.run([os.path.join(d, "target", "debug", "demo")], cwd=d, timeout=200)
    sys.exit(0 if p.returncode == 0 else 1)
