"""Stand-ins for the external solvers: a process class whose behaviour is a script.

Nothing is started.  subprocess.run / call / check_output go through subprocess.Popen, so replacing the class covers them."""
import io
import subprocess
import time

REAL = subprocess.Popen


class Hang(BaseException):
    """the code under test goes on for ever"""


class World:
    """clock: events at points of the loop.  handler(argv) -> (returncode, stdout, stderr) for processes that answer at
    once, or a Script for the long-running one."""

    def __init__(self, handler, limit=400):
        self.handler, self.limit = handler, limit
        self.steps, self.scripts, self.calls = 0, [], []

    def step(self):
        self.steps += 1
        if self.steps > self.limit:
            raise Hang()

    def install(self):
        subprocess.Popen = lambda *a, **k: FakePopen(self, *a, **k)
        self.sleep = time.sleep
        time.sleep = self.on_sleep

    def uninstall(self):
        subprocess.Popen = REAL
        time.sleep = self.sleep

    def on_sleep(self, s):
        self.step()
        for sc in self.scripts:
            sc.on_sleep()


class Script:
    """events: [pc, n, what, code] -- fired before the n-th poll ("poll"), after it ("look") or at the n-th sleep.
    fire(what, code) does an event; when they are used up, end() is called after some more steps."""

    def __init__(self, world, events, fire, end):
        self.world, self.events, self.fire, self.end = world, list(events), fire, end
        self.poll_n = self.sleep_n = self.idle = 0
        self.code, self.out, self.err = None, b"", b""

    def run_until(self, pcs, n):
        while self.events:
            e = self.events[0]
            if e[1] < n or (e[1] == n and e[0] in pcs):
                self.events.pop(0)
                self.fire(self, e[2], e[3])
            else:
                break

    def on_poll_before(self):
        self.run_until(("poll",), self.poll_n)

    def on_poll_after(self):
        self.run_until(("poll", "look"), self.poll_n)
        self.poll_n += 1

    def on_sleep(self):
        self.run_until(("poll", "look", "sleep"), self.poll_n - 1)
        if not self.events and self.code is None:
            self.idle += 1
            if self.idle > 30:
                self.end(self)

    def finish(self):
        while self.events:
            e = self.events.pop(0)
            self.fire(self, e[2], e[3])
        if self.code is None:
            self.end(self)


class Counted(io.BytesIO):
    """output of which every line read counts as a step"""

    def __init__(self, b, world):
        io.BytesIO.__init__(self, b)
        self.world = world

    def readline(self, *a):
        self.world.step()
        return io.BytesIO.readline(self, *a)


class FakePopen:
    def __init__(self, world, args, *a, stdout=None, stderr=None, universal_newlines=None, text=None, encoding=None, **k):
        self.world, self.args, self.pid, self.returncode = world, args, 4242, None
        self.textmode = bool(universal_newlines or text or encoding)
        argv = [str(x) for x in (args if isinstance(args, (list, tuple)) else args.split())]
        world.calls.append(argv)
        r = world.handler(argv)
        self.script = r if isinstance(r, Script) else None
        self.stdin = None
        if self.script:
            world.scripts.append(r)
            o, e = r.out, r.err
        else:
            self.code, o, e = r
        self._out, self._err = o, e
        w = lambda b: io.StringIO(b.decode()) if self.textmode else Counted(b, world)  # noqa: E731
        merged = stderr == subprocess.STDOUT
        self.stdout = w(o + (e if merged else b"")) if stdout == subprocess.PIPE else None
        self.stderr = w(e) if stderr == subprocess.PIPE else None
        if stdout is not None and not isinstance(stdout, int):
            stdout.write(o.decode() if "b" not in getattr(stdout, "mode", "wb") else o)

    def poll(self):
        self.world.step()
        if self.script:
            self.script.on_poll_before()
            self.returncode = self.script.code
            self.script.on_poll_after()
        else:
            self.returncode = self.code
        return self.returncode

    def wait(self, timeout=None):
        if self.script:
            self.script.finish()
            self.returncode = self.script.code
        else:
            self.returncode = self.code
        return self.returncode

    def communicate(self, input=None, timeout=None):
        self.wait()
        rd = lambda s: None if s is None else s.read()  # noqa: E731
        return rd(self.stdout), rd(self.stderr)

    def terminate(self):
        if self.script and self.script.code is None:
            self.script.code = -15
            self.script.events = []

    kill = terminate

    def send_signal(self, s):
        self.terminate()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.wait()
