"""Generates a cargo workspace in build/ws-NAME: /repo's crates (sources by symlink) with the
dependencies that are not installed here replaced by the stand-ins in stubs/.

Only manifests are rewritten; every source of air that is compiled is /repo's.

    python3 lib/mkws.py NAME        (NAME: a key of WORKSPACES)
"""
import os
import re
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

FORMATTER = ["air_r_syntax", "air_r_factory", "air_r_parser", "air_r_formatter",
             "comments", "fs", "line_ending", "settings", "workspace"]

LSP = FORMATTER + ["crates", "aether_lsp_utils", "lsp", "air"]

#: name -> (crates of /repo, harness crates, crates that keep their tests and what those need)
WORKSPACES = {
    "fmt": (FORMATTER, ["stubcheck", "wsfull", "rfmt"], []),
    "lsp": (LSP, ["utils", "rfmt", "session"], []),
    # only to try the stand-ins with air's own tests (no check does): lib/airtests.sh
    "tests": (LSP + ["lsp_test"], [], ["workspace", "aether_lsp_utils", "lsp", "air", "crates"]),
}


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.isfile(path) or open(path, encoding="utf-8").read() != text:
        with open(path, "w", encoding="utf-8") as f:
            f.write(text)


def link(path, target):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not (os.path.islink(path) and os.readlink(path) == target):
        if os.path.lexists(path):
            os.remove(path)
        os.symlink(target, path)


def drop_section(text, name):
    return re.sub(rf"^\[{re.escape(name)}\]\n(?:(?!\[).*\n?)*", "", text, flags=re.M)


def read(path):
    with open(path, encoding="utf-8") as f:
        return f.read()


def make(name):
    """Writes the workspace, returns its directory."""
    ws = os.path.join(VERIF, "build", f"ws-{name}")
    crates, harnesses, tested = WORKSPACES[name]
    harnesses = [h for h in harnesses if os.path.isfile(f"{VERIF}/harness/{h}/Cargo.toml")]
    text = read(f"{REPO}/Cargo.toml")
    for stub in sorted(os.listdir(f"{VERIF}/stubs")):
        if os.path.isfile(f"{VERIF}/stubs/{stub}/Cargo.toml"):
            text = re.sub(rf'^{re.escape(stub)} *=.*$', f'{stub} = {{ path = "{VERIF}/stubs/{stub}" }}', text, flags=re.M)
    text = drop_section(text, "workspace.lints.clippy")
    text = drop_section(text, "workspace.lints.rust")
    members = [f"crates/{c}" for c in crates] + [f"harness/{h}" for h in harnesses]
    text = re.sub(r"^members *=.*$", f"members = {members!r}".replace("'", '"'), text, flags=re.M)
    text = re.sub(r"^default-members *=.*$", "", text, flags=re.M)
    text = re.sub(r"\n\[profile\.[^\]]*\]\n(?:(?!\[).*\n?)*", "\n", text)
    # a dependency of a dependency that is not installed here either
    text += f"""
[patch.crates-io]
num_threads = {{ path = "{VERIF}/stubs/num_threads" }}
""" if name != "fmt" else ""
    text += """
[profile.dev]
opt-level = 1
debug = "line-tables-only"
incremental = false

[profile.dev.package."*"]
debug = false
opt-level = 2
"""
    write(f"{ws}/Cargo.toml", text)
    for crate in crates:
        manifest = read(f"{REPO}/crates/{crate}/Cargo.toml")
        build = os.path.isfile(f"{REPO}/crates/{crate}/build.rs")
        for section in ("lints",) + (() if build else ("build-dependencies",)) \
                + (() if crate in tested else ("dev-dependencies",)):
            manifest = drop_section(manifest, section)
        write(f"{ws}/crates/{crate}/Cargo.toml", manifest)
        link(f"{ws}/crates/{crate}/src", f"{REPO}/crates/{crate}/src")
        if build:
            link(f"{ws}/crates/{crate}/build.rs", f"{REPO}/crates/{crate}/build.rs")
        for part in ("tests", "fixtures") if crate in tested else ():
            if os.path.isdir(f"{REPO}/crates/{crate}/{part}"):
                link(f"{ws}/crates/{crate}/{part}", f"{REPO}/crates/{crate}/{part}")
    for h in harnesses:
        # as members of this workspace: without one of their own
        manifest = read(f"{VERIF}/harness/{h}/Cargo.toml").replace("@VERIF@", VERIF)
        write(f"{ws}/harness/{h}/Cargo.toml", manifest)
        link(f"{ws}/harness/{h}/src", f"{VERIF}/harness/{h}/src")
    lock = f"{VERIF}/stubs/{name}.lock"
    if os.path.isfile(lock):
        write(f"{ws}/Cargo.lock", read(lock))
    elif not os.path.isfile(f"{ws}/Cargo.lock"):
        write(f"{ws}/Cargo.lock", read(f"{REPO}/Cargo.lock"))
    return ws


if __name__ == "__main__":
    print(make(sys.argv[1]))
