"""Author a planted bug: mkseed.py ID FILE OLDFILE NEWFILE  (helper used while writing seeded/; no check reads it).

usage: python3 spec/mkseed.py ID path/in/repo <<< 'old\n====\nnew'   (exact text, first occurrence must be unique)
writes seeded/ID/patch.diff; then runs seeded/ID/demo.sh on a bind-mounted copy with and without the patch."""
import os, subprocess, sys
ID, blocks = sys.argv[1], sys.stdin.read()
d = f"/verif/seeded/{ID}"
os.makedirs(d, exist_ok=True)
W = "/tmp/seedcopy"
subprocess.run(["rsync", "-a", "--delete", "/repo/", W + "/"], check=True) if os.path.exists("/usr/bin/rsync") else subprocess.run(f"mkdir -p {W} && cp -a /repo/. {W}/ && cd {W} && git checkout -q .", shell=True, check=True)
if blocks.strip():
    for blk in blocks.split("\n@@@@\n"):
        f, rest = blk.lstrip("\n").split("\n", 1)
        old, new = rest.split("\n====\n")
        new = new[:-1] if new.endswith("\n") and not old.endswith("\n") else new
        p = os.path.join(W, f.strip())
        s = open(p, newline="").read()
        if "\r\n" in s:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        assert s.count(old) == 1, (f, s.count(old))
        open(p, "w", newline="").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", W, "diff"], capture_output=True).stdout
    open(d + "/patch.diff", "wb").write(diff)
    subprocess.run(["git", "-C", W, "checkout", "-q", "."], check=True)
os.chmod(d + "/demo.sh", 0o755)
def demo(tag, patched):
    cmd = f"mount --bind {W} /repo && cd /repo && " + ("git apply %s/patch.diff && bash /opt/vp/build.sh >/dev/null && " % d if patched else "") + f"bash {d}/demo.sh"
    p = subprocess.run(["unshare", "-Urm", "bash", "-c", cmd], capture_output=True, text=True)
    print(tag, "rc", p.returncode, (p.stdout + p.stderr)[-400:])
demo("unpatched", False)
demo("patched", True)
subprocess.run(["git", "-C", W, "checkout", "-q", "."], check=True)
subprocess.run(["bash", "/opt/vp/build.sh"], capture_output=True)
