"""Helpers for the demonstrations: the built conmand in a scratch directory, fake devices and raw protocol clients."""
import os, re, select, shutil, signal, socket, struct, subprocess, sys, tempfile, time
ROOT = os.getcwd(); BIN = ROOT + "/_build/conmand"; CLI = ROOT + "/_build/conman"
ESC = b"\xff"
def free_port():
    s = socket.socket(); s.bind(("127.0.0.1", 0)); p = s.getsockname()[1]; s.close(); return p
class Demo:
    def __init__(self): self.dir = tempfile.mkdtemp(prefix="cmdemo.", dir="/tmp"); self.port = free_port(); self.p = None; self.socks = []
    def path(self, n): return os.path.join(self.dir, n)
    def conf(self, consoles, server=""): open(self.path("conf"), "w").write(f"server loopback=on\nserver port={self.port}\nserver logdir=\"{self.dir}\"\nserver pidfile=\"{self.dir}/pid\"\nserver logfile=\"{self.dir}/daemon.log\"\n{server}\n{consoles}\n")
    def start(self, *extra, env=None, wait=True):
        self.p = subprocess.Popen([BIN, "-F", "-c", self.path("conf"), *extra], stdin=subprocess.DEVNULL, stdout=open(self.path("out"), "ab"), stderr=open(self.path("err"), "ab"), env=env, cwd=self.dir)
        if not wait: return
        for _ in range(100):
            try: socket.create_connection(("127.0.0.1", self.port)).close(); return
            except OSError: time.sleep(0.05)
            if self.p.poll() is not None: raise SystemExit("conmand ended: " + open(self.path("err")).read())
        raise SystemExit("conmand does not listen")
    def stop(self):
        if self.p and self.p.poll() is None:
            self.p.terminate()
            try: self.p.wait(5)
            except Exception: self.p.kill(); self.p.wait()
    def end(self): self.stop(); [s.close() for s in self.socks]; shutil.rmtree(self.dir, ignore_errors=True)
    def __enter__(self): return self
    def __exit__(self, *a): self.end()
    def alive(self): return self.p.poll() is None
    def unix(self, name):
        s = socket.socket(socket.AF_UNIX); s.bind(self.path(name)); s.listen(5); self.socks.append(s); return s
    def tcp(self):
        s = socket.socket(); s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1); s.bind(("127.0.0.1", 0)); s.listen(5); self.socks.append(s); return s, s.getsockname()[1]
    def raw(self): return socket.create_connection(("127.0.0.1", self.port))
    def client(self, cmd, cons=(), opts=(), user="u", tty="pts/1"):
        s = self.raw(); s.sendall(f"HELLO USER='{user}' TTY='{tty}'\n".encode()); r1 = line(s)
        s.sendall((cmd + "".join(f" OPTION={o}" for o in opts) + "".join(f" CONSOLE='{c}'" for c in cons) + "\n").encode()); r2 = line(s)
        return s, r1 + r2
    def file(self, n):
        try: return open(self.path(n), "rb").read()
        except OSError: return b""
def line(s):
    b = b""
    s.settimeout(5)
    while not b.endswith(b"\n"):
        c = s.recv(1)
        if not c: break
        b += c
    return b.decode("latin1")
def drain(s, t=0.5):
    b = b""; end = time.time() + t
    while True:
        left = end - time.time()
        if left <= 0: return b
        if not select.select([s], [], [], left)[0]: return b
        try: c = s.recv(65536)
        except OSError: return b
        if not c: return b
        b += c
def until(s, what, t=5):
    b = b""; end = time.time() + t
    while what not in b and time.time() < end:
        if select.select([s], [], [], 0.2)[0]:
            try: c = s.recv(65536)
            except OSError: break
            if not c: break
            b += c
    return b
def closed(s, t=2):
    end = time.time() + t
    while time.time() < end:
        if select.select([s], [], [], 0.1)[0]:
            try:
                if not s.recv(65536): return True
            except OSError: return True
    return False
def accept(l, t=10):
    l.settimeout(t); c, _ = l.accept(); c.settimeout(5); return c
def wait(f, t=5):
    end = time.time() + t
    while time.time() < end:
        if f(): return True
        time.sleep(0.05)
    return False
def check(c, what):
    if not c: print("FAILED:", what); sys.exit(1)
def pat(n, seed=1):
    o = bytearray(); x = seed
    for _ in range(n): x = (x * 1103515245 + 12345) & 0x7fffffff; o.append(65 + (x >> 16) % 57)
    return bytes(o)
