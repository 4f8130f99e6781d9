"""Runs the natively compiled code in a child process: a crash, an endless loop or memory exhaustion of the
code under test is an observation, not the end of the check."""
import mmap, os, pickle, resource, select, signal, struct, subprocess, sys, time

CHUNK = 64


def _child(entry, args, w, shm, cpu):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 2)
        os.dup2(null, 1)
        out = os.fdopen(w, "wb")
        buf = []
        for i, a in enumerate(args):
            struct.pack_into("q", shm, 0, i)
            try:
                r = entry.native(a)
            except Exception as x:          # a fault of the harness, not an observation of the code
                r = ("error", repr(x))
            buf.append(r)
            if len(buf) == CHUNK:
                pickle.dump(buf, out)
                out.flush()
                buf = []
        pickle.dump(buf, out)
        pickle.dump(None, out)
        out.flush()
    finally:
        os._exit(0)


def run(entry, args, per_call=20.0):
    """yields (arguments, outcome); outcome: ('ret', values) | ('throw',) | ('crash', text) | ('error', text)"""
    args = list(args)
    entry.unit.so()
    k = 0
    crashes = 0
    while k < len(args) and crashes < 3:
        todo = args[k:]
        shm = mmap.mmap(-1, 16)
        struct.pack_into("q", shm, 0, 0)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            _child(entry, todo, w, shm, per_call)
        os.close(w)
        data = b""
        seen, last, tlast = 0, -1, time.time()
        res = []
        why = None
        done = False
        while True:
            rd, _, _ = select.select([r], [], [], 0.5)
            if rd:
                b = os.read(r, 1 << 16)
                if not b:
                    break
                data += b
                continue
            cur = struct.unpack_from("q", shm, 0)[0]
            if cur != last:
                last, tlast = cur, time.time()
            elif time.time() - tlast > per_call:
                why = "does not return within %.0f s" % per_call
                os.kill(pid, signal.SIGKILL)
        os.close(r)
        _, status = os.waitpid(pid, 0)
        cur = struct.unpack_from("q", shm, 0)[0]
        import io
        f = io.BytesIO(data)
        while True:
            try:
                x = pickle.load(f)
            except Exception:
                break
            if x is None:
                done = True
                break
            res.extend(x)
        for a, o in zip(todo, res):
            yield a, o
        if done:
            return
        # results lost with the child are recomputed, all but the culprit
        if why is None:
            why = "ends with signal %d" % os.WTERMSIG(status) if os.WIFSIGNALED(status) else "ends the process"
        if cur > len(res):
            for a, o in run(entry, todo[len(res):cur], per_call):
                yield a, o
        yield todo[cur], ("crash", why)
        crashes += 1
        k += cur + 1


def sanitized(src, mode="slice"):
    """a harness program built with the address and undefined-behaviour sanitizers, fed line by line"""
    from . import frontend as F
    exe = F.compile_exe(src, mode)

    def run(entry, args, per_call=30.0):
        args = list(args)
        k = crashes = 0
        while k < len(args) and crashes < 3:
            todo = args[k:]
            env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0", UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1")
            text = "\n".join(entry.line(a) for a in todo)
            p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env)
            try:
                out, err = p.communicate(text, timeout=per_call + 0.05 * len(todo))
                why = None if p.returncode == 0 else (re_first(err) or "ends with status %d" % p.returncode)
            except subprocess.TimeoutExpired:
                p.kill()
                out, err = p.communicate()
                why = "does not return"
            started = done = 0
            for l in out.split("\n"):
                if l.startswith(">"):
                    started += 1
                elif l.startswith("<"):
                    yield todo[done], entry.parse(l[1:].split())
                    done += 1
            if why is None and done == len(todo):
                return
            if started > done:
                yield todo[done], ("crash", why or "ends early")
                crashes += 1
                k += done + 1
            else:
                k += max(1, done)
                crashes += 1
    return run


def re_first(err):
    for l in err.split("\n"):
        if "ERROR: AddressSanitizer" in l or "runtime error:" in l:
            return l.strip()[:300]
    return None
