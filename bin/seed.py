#!/usr/bin/env python3
"""Developer helper for /verif/seeded.
  seed.py pack            put the demonstration rig (rig.tar, demo.sh) beside every demo.rs
  seed.py try ID [CHECK]  in a scratch copy: demo on the clean tree, demo with the patch, then the property's check
"""
import glob, io, json, os, shutil, subprocess, sys, tarfile, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")


def pack():
    buf = io.BytesIO()
    with tarfile.open(fileobj=buf, mode="w", format=tarfile.USTAR_FORMAT) as t:
        def add(src, name):
            ti = tarfile.TarInfo(name)
            data = open(src, "rb").read()
            ti.size, ti.mode = len(data), 0o644
            t.addfile(ti, io.BytesIO(data))
        add(HERE + "/bin/mirror.py", "bin/mirror.py")
        for d in ("patched", "shims", "symx", "probes", "cycles"):
            for f in sorted(subprocess.run(["git", "-C", HERE, "ls-files", "-co", "--exclude-standard", "sym/" + d], stdout=subprocess.PIPE, text=True).stdout.split()):
                add(os.path.join(HERE, f), f)
        add(HERE + "/sym/harness/Cargo.toml", "sym/harness/Cargo.toml")
        for f in ("common.rs", "world.rs", "main_probe.rs", "sol.rs"):
            add(HERE + "/sym/harness/src/" + f, "sym/harness/src/" + f)
        add(HERE + "/sym/demo/main.rs", "sym/harness/src/main.rs")
        add(HERE + "/sym/demo/pipe.rs", "sym/harness/src/pipe.rs")
    for d in glob.glob(SEEDED + "/*/demo.rs"):
        d = os.path.dirname(d)
        open(d + "/rig.tar", "wb").write(buf.getvalue())
        shutil.copy(HERE + "/sym/demo/demo.sh", d + "/demo.sh")
        os.chmod(d + "/demo.sh", 0o755)


def attempt(i, check=True):
    d = os.path.join(SEEDED, i)
    meta = json.load(open(d + "/meta.json"))
    w = tempfile.mkdtemp(prefix="seed_")
    try:
        subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
        subprocess.run(["git", "clone", "-q", "/repo", w + "/repo"], check=True)
        r = subprocess.run(["bash", d + "/demo.sh"], cwd=w + "/repo")
        print(i, "demo clean:", r.returncode)
        subprocess.run(["git", "-C", w + "/repo", "apply", d + "/patch.diff"], check=True)
        r = subprocess.run(["bash", d + "/demo.sh"], cwd=w + "/repo")
        print(i, "demo patched:", r.returncode)
        if check:
            v = "/tmp/seedverif"
            os.makedirs(v, exist_ok=True)
            subprocess.run(["rsync", "-a", "--delete", "--exclude", ".git", "--exclude", "build", "--exclude", "evidence", "--exclude", "seeded", HERE + "/", v + "/"], check=True) if shutil.which("rsync") else subprocess.run("cd %s && tar cf - --exclude=./.git --exclude=./build --exclude=./evidence --exclude=./seeded . | tar xf - -C %s" % (HERE, v), shell=True, check=True)
            for p in ([meta["property"]] + meta.get("also", [])):
                r = subprocess.run([sys.executable, v + "/bin/check.py", p, "quick"], env=dict(os.environ, VERIF_REPO=w + "/repo"), stdout=subprocess.PIPE, text=True)
                print(i, "check", p, "->", r.returncode, "|", " / ".join(r.stdout.splitlines()[-2:])[:300])
    finally:
        shutil.rmtree(w)


if sys.argv[1] == "pack":
    pack()
else:
    attempt(sys.argv[2], len(sys.argv) < 4)
