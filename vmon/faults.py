"""Fault injection around the real disk store: file-operation faults (audit events), line-level faults and crashes in
background threads, file-size limits; children with a hang limit."""
import errno, os, pickle, resource, select, signal, sys, threading, time


def child(fn, limit):
    """Runs fn() in a forked child: ('ok', result) | ('exc', repr) | ('died', status) | ('hang', None)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                out = ("ok", fn())
            except BaseException as e:  # noqa: BLE001
                import traceback
                out = ("exc", type(e).__name__, str(e)[:300], "".join(traceback.format_exception(e)[-4:])[-1500:])
            data = pickle.dumps(out)
            while data:
                data = data[os.write(w, data):]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    buf, end = b"", time.time() + limit
    while True:
        left = end - time.time()
        if left <= 0 or not select.select([r], [], [], left)[0]:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return ("hang", None)
        part = os.read(r, 1 << 16)
        if not part:
            break
        buf += part
    os.close(r)
    _, st = os.waitpid(pid, 0)
    try:
        return pickle.loads(buf)
    except Exception:  # noqa: BLE001
        return ("died", st)


class Plan:
    """Counts fault points; at the n-th one crashes the process or raises OSError."""

    def __init__(self, n, act):
        self.n, self.act, self.count, self.fired, self.on = n, act, 0, False, True
        self.lock = threading.Lock()

    def point(self, what):
        if not self.on:
            return
        with self.lock:
            self.count += 1
            hit = self.count == self.n if self.act != "fail-on" else self.n <= self.count
            if hit:
                self.fired = True
        if hit:
            if self.act == "crash":
                os._exit(9)
            raise OSError(errno.ENOSPC, "injected: no space left on device", what)


def at_files(root, plan):
    """Every file operation below root is a fault point."""
    def hook(ev, args):
        if ev in ("open", "os.rename", "os.remove", "os.mkdir", "os.truncate") and args and isinstance(args[0], (str, os.PathLike)):
            try:
                p = os.fspath(args[0])
            except TypeError:
                return
            if isinstance(p, str) and p.startswith(root):
                if ev == "open" and len(args) > 2 and isinstance(args[2], int) and not args[2] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
                    if plan.act != "crash":
                        return  # failing writes; reads are covered by the crash plans
                plan.point(f"{ev} {os.path.basename(p)}")
    sys.addaudithook(hook)


def at_lines(pathpart, plan, background=True):
    """Every source line executed in files containing pathpart (by threads other than this one) is a fault point."""
    main = threading.get_ident()
    mon = sys.monitoring
    tool = 3
    mon.use_tool_id(tool, "vmon-faults")

    def line(code, no):
        if pathpart not in code.co_filename:
            return mon.DISABLE
        if background and threading.get_ident() == main:
            return
        plan.point(f"{os.path.basename(code.co_filename)}:{no}")
    mon.register_callback(tool, mon.events.LINE, line)
    mon.set_events(tool, mon.events.LINE)


def file_limit(nbytes):
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (nbytes, nbytes))
