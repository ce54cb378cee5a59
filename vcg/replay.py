"""The real code, run through the driver crate (path dependency on /repo), with time limits."""
import os
import select
import shutil
import signal
import subprocess
import sys
import time
from campaign import die_with_parent


class Driver:
    def __init__(self, exe, limit=10.0):
        self.exe, self.limit = exe, limit
        self.p = None

    def start(self):
        r, w = os.pipe()
        self.p = subprocess.Popen([self.exe, str(w)], stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, pass_fds=(w,),
                                  preexec_fn=die_with_parent)
        os.close(w)
        self.r = r
        self.buf = b""

    def stop(self):
        if self.p is not None:
            try:
                self.p.kill()
            except OSError:
                pass
            try:
                self.p.stdin.close()
            except OSError:
                pass
            self.p.wait()
            os.close(self.r)
            self.p = None

    def _batch(self, lines, limit):
        """results obtained, and why it stopped short (None | hang | crash)"""
        if self.p is None:
            self.start()
        data = ("\n".join(lines) + "\nflush\n").encode()
        out = []
        end = time.time() + limit
        pos = 0
        fd = self.p.stdin.fileno()
        os.set_blocking(fd, False)
        while len(out) < len(lines):
            left = end - time.time()
            if left <= 0:
                self.stop()
                return out, "hang"
            rs, ws, _ = select.select([self.r], [fd] if pos < len(data) else [], [], left)
            if ws:
                try:
                    pos += os.write(fd, data[pos:pos + 65536])
                except BlockingIOError:
                    pass
                except BrokenPipeError:
                    pos = len(data)
            if rs:
                b = os.read(self.r, 1 << 20)
                if not b:
                    self.stop()
                    return out, "crash"
                self.buf += b
                *ls, self.buf = self.buf.split(b"\n")
                out += [l.decode() for l in ls]
        return out, None

    def run(self, lines):
        """one result per line; a line that does not finish gives 'HANG', one that kills the process 'CRASH'"""
        out, why = self._batch(lines, self.limit)
        if why is None:
            return out
        # results are buffered by the driver, so find the culprit by halving
        if len(lines) == 1:
            return ["HANG" if why == "hang" else "CRASH"]
        h = len(lines) // 2
        a = self.run(lines[:h])
        if any(x in ("HANG", "CRASH") for x in a):
            return a + ["SKIPPED"] * (len(lines) - h)
        return a + self.run(lines[h:])

    def __del__(self):
        self.stop()


def build(out_dir, log=None):
    """both profiles of the driver from the current /repo; returns {'debug': exe, 'release': exe}"""
    env = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
               CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=out_dir, RUSTC_WRAPPER="", CARGO_INCREMENTAL="0")
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "")
    env.pop("RUSTFLAGS", None)
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    crate = out_dir + "-driver"                # a copy, so that nothing committed changes
    shutil.copytree(os.path.join(here, "driver"), crate)
    toml = os.path.join(crate, "Cargo.toml")
    with open(toml) as f:
        t = f.read().replace('"/repo"', '"%s"' % os.environ.get("VERIF_REPO", "/repo"))
    with open(toml, "w") as f:
        f.write(t)
    for flags in ([], ["--release"]):
        p = subprocess.run(["cargo", "build", "--offline", "-q", "--manifest-path", toml] + flags,
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise RuntimeError("driver does not build:\n" + p.stdout[-3000:])
    return exes(out_dir)


def exes(out_dir):
    return {k: os.path.join(out_dir, k, "driver") for k in ("debug", "release")}


if __name__ == "__main__":
    try:
        build(sys.argv[1])
    except RuntimeError as e:
        sys.exit(str(e))
