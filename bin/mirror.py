#!/usr/bin/env python3
"""Mirror /repo's current working tree into a cargo workspace that builds offline.

Usage: mirror.py DEST {sym|kani}

What changes with respect to /repo (nothing else does; every .rs file is copied verbatim on every run):
 * Cargo.toml: the git dependencies on dfinity/ic become path dependencies on /verif/sym/shims,
   dev-dependencies are dropped;
 * crates.io patches: ethnum, num-bigint, ic-cdk, ic-cdk-timers, ic-stable-structures (see DESIGN.md);
 * wasm/*.gz, which the repository does not contain, become small distinct dummy files;
 * read-only probe modules (/verif/sym/probes) are appended as child modules of some files.
"""
import os, re, shutil, sys

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SYM = os.path.join(HERE, "sym")
SHIMS = os.path.join(SYM, "shims")

SHIMMED = ["ic-crypto-sha2", "ic-management-canister-types", "ic-crypto-secp256k1", "ic-utils-ensure",
           "icrc-ledger-client-cdk", "icrc-ledger-types", "ic-ethereum-types", "phantom_newtype"]


def put(path, data):
    """Write only when the content differs, so that cargo's fingerprints survive."""
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if isinstance(data, str):
        data = data.encode()
    if os.path.exists(path):
        with open(path, "rb") as f:
            if f.read() == data:
                return
    with open(path, "wb") as f:
        f.write(data)


def read(path):
    with open(path, "rb") as f:
        return f.read()


def manifest(path):
    out, skip = [], False
    for line in read(path).decode().splitlines():
        s = line.strip()
        if s.startswith("["):
            skip = s == "[dev-dependencies]"
        if skip:
            continue
        m = re.match(r"\s*([\w-]+)\s*=", line)
        if "github.com/dfinity/ic" in line and m:
            name = m.group(1)
            if name in SHIMMED:
                out.append('%s = { path = "%s/%s" }' % (name, SHIMS, name))
            continue
        if m and m.group(1) in ("pocket-ic", "ethers-core"):  # only tests use them
            continue
        out.append(line)
    return "\n".join(out) + "\n"


def copy_tree(src, dst, appended=None):
    wanted = set()
    for root, dirs, files in os.walk(src):
        dirs[:] = [d for d in dirs if d not in ("target", ".git", "node_modules")]
        for f in files:
            full = os.path.join(root, f)
            rel = os.path.relpath(full, src)
            data = read(full)
            if appended and rel in appended:
                data = data + b"\n" + appended[rel].encode()
            put(os.path.join(dst, rel), data)
            wanted.add(rel)
    for root, _, files in os.walk(dst):
        for f in files:
            rel = os.path.relpath(os.path.join(root, f), dst)
            if rel not in wanted:
                os.unlink(os.path.join(root, f))


def mirror(ws, members, patches, appended, extra_toml=""):
    os.makedirs(ws, exist_ok=True)
    put(f"{ws}/evm_rpc_client/Cargo.toml", manifest(f"{REPO}/evm_rpc_client/Cargo.toml"))
    copy_tree(f"{REPO}/evm_rpc_client/src", f"{ws}/evm_rpc_client/src", appended.get("evm_rpc_client"))
    put(f"{ws}/minter/Cargo.toml", manifest(f"{REPO}/minter/Cargo.toml") + '\n[lib]\nname = "evm_minter"\npath = "src/lib.rs"\n')
    copy_tree(f"{REPO}/minter/src", f"{ws}/minter/src", appended.get("minter"))
    for name in ("ledger_canister_u256.wasm.gz", "index_ng_canister_u256.wasm.gz",
                 "ledger_canister_u256.raw.wasm", "index_ng_canister_u256.raw.wasm",
                 "archive_canister_u256.wasm.gz", "lsm.wasm", "evm_rpc.wasm"):
        put(f"{ws}/wasm/{name}", name)
    toml = "[workspace]\nmembers = [%s]\nresolver = \"2\"\n" % ", ".join('"%s"' % m for m in ["evm_rpc_client", "minter"] + members)
    toml += "[patch.crates-io]\n" + "".join('%s = { path = "%s" }\n' % kv for kv in patches.items())
    toml += extra_toml
    put(f"{ws}/Cargo.toml", toml)


def cycles(ws):
    """The RPC client once more, with `u128` meaning cy_int::u128, whose values may be solver terms."""
    src = f"{REPO}/evm_rpc_client/src"
    wanted = set()
    for f in sorted(os.listdir(src)):
        if not f.endswith(".rs") or f == "tests.rs":
            continue
        s = read(f"{src}/{f}").decode()
        s = re.sub(r"#\[cfg\(test\)\]\s*mod tests;", "", s)
        s = re.sub(r"(:\s*u128\s*=\s*)([0-9][0-9_]*)(?:_?u128)?(\s*;)", r"\1u128::lit(\2)\3", s)
        put(f"{ws}/evm_rpc_client_cy/src/{f}", s + "\n#[allow(unused_imports, non_camel_case_types)]\nuse cy_int::u128;\n")
        wanted.add(f)
    for f in os.listdir(f"{ws}/evm_rpc_client_cy/src"):
        if f not in wanted:
            os.unlink(f"{ws}/evm_rpc_client_cy/src/{f}")
    t = manifest(f"{REPO}/evm_rpc_client/Cargo.toml").replace('"evm_rpc_client"', '"evm_rpc_client_cy"')
    t = re.sub(r"(?m)^ic-cdk\s*=.*$", 'ic-cdk = { package = "cy-ic-cdk", path = "%s/cycles/ic-cdk" }' % SYM, t)
    t = re.sub(r"(?m)^evm_rpc_types\s*=.*$", 'evm_rpc_types = { package = "cy-evm-rpc-types", path = "%s/cycles/evm_rpc_types" }' % SYM, t)
    put(f"{ws}/evm_rpc_client_cy/Cargo.toml", t.replace("[dependencies]", '[dependencies]\ncy-int = { path = "%s/cycles/int" }' % SYM))


def main_rs():
    """main.rs becomes a module of the harness crate (it only uses public items of the library)."""
    return read(f"{REPO}/minter/src/main.rs")


def sym(ws):
    probes = f"{SYM}/probes"
    appended = {"minter": {}, "evm_rpc_client": {}}
    if os.path.isdir(probes):
        for f in sorted(os.listdir(probes)):
            # state__mod.rs -> appended to src/state.rs or src/state/mod.rs as `pub mod verif_probe`
            target = f[:-3].replace("__", "/") + ".rs"
            appended["minter"][target] = '#[path = "%s/%s"]\npub mod verif_probe;\n' % (probes, f)
    patched = f"{SYM}/patched"
    patches = {d: f"{patched}/{d}" for d in sorted(os.listdir(patched))} if os.path.isdir(patched) else {}
    cycles(ws)
    mirror(ws, ["harness"], patches, appended,
           "\n[profile.dev]\nopt-level = 1\ndebug = 1\noverflow-checks = true\ndebug-assertions = true\n[profile.dev.package.\"*\"]\ndebug = 0\n")
    if os.path.isdir(f"{REPO}/evm_helper_contract/src"):
        copy_tree(f"{REPO}/evm_helper_contract/src", f"{ws}/contract")
    h = f"{ws}/harness"
    put(f"{h}/Cargo.toml", read(f"{SYM}/harness/Cargo.toml").decode().replace("@SYM@", SYM))
    copy_tree(f"{SYM}/harness/src", f"{h}/src")
    put(f"{h}/src/minter_main.rs", main_rs() + b"\n#[path = \"main_probe.rs\"]\npub mod verif_main_probe;\n")
    lock = read(f"{REPO}/Cargo.lock")
    if not os.path.exists(f"{ws}/Cargo.lock"):
        put(f"{ws}/Cargo.lock", lock)


if __name__ == "__main__":
    {"sym": sym}[sys.argv[2]](sys.argv[1])
