#!/usr/bin/env python3
"""mkbug(id, property, needs, what, edits=[(file, old, new)], deps={crate: (path, [features])}, main=rust source)"""
import os, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the change
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
cp -r "$d/demo" "$t/demo" && cd "$t/demo" || exit 1
CARGO_INCREMENTAL=0 CARGO_TARGET_DIR=%s cargo run --offline --quiet
'''
def mkbug(id, prop, needs, what, edits, deps, main, features="tiny", target='"$t/target"', patches="", profile="[profile.dev]\ndebug = 0\n"):
    d = os.path.join(V, "seeded", id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "demo", "src"))
    with tempfile.TemporaryDirectory() as t:
        out = ""
        files = []
        for f, old, new in edits:
            if f not in files:
                files.append(f)
        for f in files:
            s = open("/repo/" + f).read()
            n = s
            for g, old, new in edits:
                if g == f:
                    assert n.count(old) == 1, (id, f, n.count(old), old)
                    n = n.replace(old, new)
            for k, c in (("a", s), ("b", n)):
                p = os.path.join(t, k, f)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, "w").write(c)
            out += subprocess.run(["diff", "-u", "a/" + f, "b/" + f], cwd=t, stdout=subprocess.PIPE, text=True).stdout
        import re
        out = re.sub(r"^(--- \S+|\+\+\+ \S+)\t.*$", r"\1", out, flags=re.M)
        open(os.path.join(d, "patch.diff"), "w").write(out)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(os.path.join(d, "meta.json"), "w"), indent=1)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO % target)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    toml = '[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2021"\n[dependencies]\n'
    for k, (p, fs) in deps.items():
        toml += f'{k} = {{ path = "/repo/{p}"' + (", features = %s" % json.dumps(fs) if fs else "") + " }\n"
    toml += "[workspace]\n" + profile + patches
    open(os.path.join(d, "demo", "Cargo.toml"), "w").write(toml)
    open(os.path.join(d, "demo", "src", "main.rs"), "w").write(main)
    shutil.copy("/repo/Cargo.lock", os.path.join(d, "demo", "Cargo.lock"))
TEST = '''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the change
d=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin RUSTUP_TOOLCHAIN=stable
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1 CARGO_TARGET_DIR=/repo/target RUSTC_WRAPPER= RUST_BACKTRACE=0
export CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_PROFILE_TEST_DEBUG=line-tables-only
unset RUSTFLAGS LD_LIBRARY_PATH RUST_LOG
cd /repo || exit 1
f=/repo/%s/tests/seeded_demo.rs
new=; [ -d /repo/%s/tests ] || { mkdir /repo/%s/tests; new=1; }
trap 'rm -f "$f"; [ -z "$new" ] || rmdir /repo/%s/tests' EXIT
cp "$d/demo.rs" "$f" || exit 1
set -f
timeout 280 cargo test --workspace --exclude fr-integration --offline --locked --config 'profile.dev.package."*".debug=false' --features tiny,fuzz --test seeded_demo
'''
def mktest(id, prop, needs, what, edits, crate, main):
    """as mkbug, with a demonstration that is an integration test of /repo/<crate>"""
    mkbug(id, prop, needs, what, edits, {}, main)
    d = os.path.join(V, "seeded", id)
    shutil.rmtree(os.path.join(d, "demo"))
    open(os.path.join(d, "demo.rs"), "w").write(main)
    open(os.path.join(d, "demo.sh"), "w").write(TEST.replace("%s", crate))
