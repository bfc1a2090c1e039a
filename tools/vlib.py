"""What all checks share: building the harness, running it, running TLC, evidence."""
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
EVIDENCE = os.path.join(VERIF, "evidence")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
HANG = 97
MOST = {"hang": 16, "abort": 200}     # how many of them are recorded before the rest is left out
MEMORY = 6 << 30
STACK = 512 << 10


class ToolError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def cargo_env(cfgs, target):
    env = dict(os.environ)
    env["HOME"] = env.get("HOME") or "/root"
    env["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + env.get("PATH", "")
    for k in list(env):
        if k.startswith("CARGO_PROFILE_") or k in ("CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
            del env[k]
    env.update(
        RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        CARGO_INCREMENTAL="0",
        RUSTC_WRAPPER="",
        CARGO_TARGET_DIR=target,
        RUSTFLAGS=" ".join("--cfg " + (c if c == "rtps_verif" else 'rtps_verif="%s"' % c) for c in cfgs),
    )
    return env


def build(extra):
    """Builds the harness against /repo's working tree; `extra`: hooks beyond the plain one"""
    cfgs = ["rtps_verif"] + sorted(extra)
    target = os.path.join(VERIF, "target", "-".join(["h"] + sorted(extra)))
    r = subprocess.run(
        ["cargo", "build", "--offline", "--quiet"],
        cwd=os.path.join(VERIF, "harness"),
        env=cargo_env(cfgs, target),
        stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT,
        text=True,
    )
    if r.returncode:
        raise ToolError("the harness does not build:\n" + r.stdout[-4000:])
    return os.path.join(target, "debug", "conform")


def closing(text):
    """What closes the open brackets of a JSON prefix"""
    stack, string = [], False
    for c in text:
        if c == '"':
            string = not string
        elif not string:
            if c in "{[":
                stack.append("}" if c == "{" else "]")
            elif c in "}]":
                stack.pop()
    return ('"' if string else "") + "".join(reversed(stack))


# what an event is completed with if the code under test did not return
UNFINISHED = '"left":0,"mem":0,"suf":false,"ch":false,"r":"%s"'


def execute(binary, schedules, work, timeout=600, jobs=8):
    """Runs the schedules in parallel processes. Returns the traces in the same order."""
    n = len(schedules)
    if n == 0:
        return []
    jobs = max(1, min(jobs, n // 50 + 1))
    size = (n + jobs - 1) // jobs
    parts = [schedules[i:i + size] for i in range(0, n, size)]
    running = []
    for k, part in enumerate(parts):
        src = os.path.join(work, "schedules.%d" % k)
        dst = os.path.join(work, "traces.%d" % k)
        with open(src, "w") as f:
            f.write("\n".join(part) + "\n")
        if os.path.exists(dst):
            os.remove(dst)
        running.append([binary, src, dst, part])

    deadline = time.time() + timeout
    lock = threading.Lock()
    seen = {"hang": 0, "abort": 0}
    failed = []

    def run_part(job):
        binary, src, dst, part = job
        first = 0
        while True:
            process = subprocess.Popen(["prlimit", "--as=%d" % MEMORY, "--core=0", "--stack=%d" % STACK, binary, src, dst, str(first)],
                                       stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
            try:
                _, err = process.communicate(timeout=max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                process.kill()
                process.communicate()
                raise ToolError("the harness did not finish")
            rc = process.returncode
            if rc == 0:
                return
            with open(dst) as f:
                text = f.read()
            done = text.count("\n")
            tail = text[text.rfind("\n") + 1:]
            how = "hang" if rc == HANG else "abort"
            if rc == 101:
                raise ToolError("the harness itself panicked on: %s\n%s" % (part[done][:500], err.decode(errors="replace")[-1000:]))
            if not tail.endswith(","):
                raise ToolError("the harness ended (%s) outside of the code under test on: %s\n%s"
                                % (rc, part[done][:500], err.decode(errors="replace")[-1000:]))
            patch = tail + UNFINISHED % how
            with open(dst, "a") as f:
                f.write(UNFINISHED % how + closing(patch) + "\n")
            first = done + 1
            with lock:
                seen[how] += 1
                enough = seen[how] > MOST[how] or failed
            if first == len(part) or enough:
                # the same defect again and again: enough is recorded
                job[3] = part[:first]
                return

    def guarded(job):
        try:
            run_part(job)
        except Exception as e:
            failed.append(e)

    threads = [threading.Thread(target=guarded, args=(job,)) for job in running]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    if failed:
        raise failed[0]
    out = []
    for _, _, dst, part in running:
        with open(dst) as f:
            lines = f.read().split("\n")[:-1]
        if len(lines) != len(part):
            raise ToolError("%d schedules gave %d traces" % (len(part), len(lines)))
        out.extend(zip(part, lines))
    return out


class Tlc:
    def __init__(self, module, cfg, env=None, workers=8, args=(), timeout=800, heap="6g", keep=None):
        self.module, self.cfg = module, cfg
        work = keep
        meta = os.path.join(work, "states-" + module + "-" + str(os.getpid()) + "-" + str(time.time_ns()))
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-cp", JARS, "tlc2.TLC",
               "-workers", str(workers), "-metadir", meta, "-config", cfg, "-noGenerateSpecTE", *args, module + ".tla"]
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on %s/%s" % (module, cfg))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        self.wall = time.time() - t
        self.rc = r.returncode
        self.out = r.stdout
        m = re.findall(r"^(\d+) states generated, (\d+) distinct states found", self.out, re.M)
        self.transitions, self.states = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

    def lines(self, prefix):
        for line in self.out.split("\n"):
            if line.startswith('"' + prefix):
                yield json.loads(json.loads(line)[len(prefix):])


def fresh_dir(path):
    shutil.rmtree(path, ignore_errors=True)
    os.makedirs(path)
    return path
