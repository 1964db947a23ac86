"""Building the harness from /repo (LLVM IR for the executor, a native library for replay) and calling the native code in a
child process so that crashes and endless loops are observed instead of suffered."""
import ctypes
import os
import pickle
import select
import signal
import struct
import subprocess
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IRFLAGS = ['-std=gnu++17', '-O1', '-fno-builtin', '-ffp-contract=off', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops',
           '-fno-exceptions', '-include', os.path.join(HERE, 'harness', 'prefix.h'), '-include', 'cstring', '-include', 'cstdint']


class BuildError(Exception):
    pass


def run(cmd, what):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError('%s failed:\n%s' % (what, p.stdout[-3000:]))
    return p.stdout


def build(harness, scratch, irflags=(), native=True, asan=False):
    src = os.path.join(HERE, 'harness', harness)
    base = os.path.join(scratch, os.path.splitext(harness)[0])
    inc = ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(HERE, 'harness')]
    flags = [f for f in IRFLAGS if f != '-fno-exceptions']
    jobs = [(['clang++'] + flags + list(irflags) + inc + ['-S', '-emit-llvm', src, '-o', base + '.ll'], 'compiling %s to LLVM IR' % harness)]
    if native:
        jobs.append((['g++', '-std=gnu++17', '-O2', '-w', '-ffp-contract=off', '-include', 'cstring', '-include', 'cstdint', '-shared', '-fPIC'] + inc +
                     [src, '-o', base + '.so'], 'compiling %s natively' % harness))
    if asan:
        jobs.append((['g++', '-std=gnu++17', '-O1', '-g', '-w', '-ffp-contract=off', '-include', 'cstring', '-include', 'cstdint',
                      '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr', '-shared', '-fPIC'] + inc +
                     [src, '-o', base + '.asan.so'], 'compiling %s with sanitizers' % harness))
    ps = [(subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), w) for c, w in jobs]
    err = None
    for p, w in ps:
        o, _ = p.communicate()
        if p.returncode and err is None:
            err = '%s failed:\n%s' % (w, o[-3000:])
    if err:
        raise BuildError(err)
    return base


def serve(so, r1, w2):
    lib = ctypes.CDLL(so)
    libc = ctypes.CDLL(None)
    seen = os.lseek(1, 0, os.SEEK_CUR)
    while True:
        h = readn(r1, 4)
        if h is None:
            os._exit(0)
        fn, ins, nout, pre, bits = pickle.loads(readn(r1, struct.unpack('<I', h)[0]))
        f = getattr(lib, fn)
        f.restype = None
        t = ctypes.c_uint32 if bits else ctypes.c_float
        a = (t * max(1, len(ins)))(*ins)
        b = (t * max(1, nout))(*([0xdeadbeef if bits else float('nan')] * max(1, nout)))
        f(a, b, *[ctypes.c_int(p) for p in pre])
        libc.fflush(None)
        n = os.lseek(1, 0, os.SEEK_CUR)
        o = pickle.dumps((list(b)[:nout], n - seen))
        seen = n
        os.write(w2, struct.pack('<I', len(o)) + o)


class Native:
    """call(fn, floats, nout, pre) -> list of floats, or a string describing how the call failed."""

    def __init__(self, so, timeout=10.0, asan=False):
        self.so = so
        self.timeout = timeout
        self.asan = asan
        self.pid = None
        self.printed = 0

    def start(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                signal.signal(signal.SIGINT, signal.SIG_IGN)
                dn = os.memfd_create('out')         # what the code prints is counted
                os.dup2(dn, 1)
                os.dup2(dn, 2)
                if self.asan:
                    os.set_inheritable(r1, True)
                    os.set_inheritable(w2, True)
                    env = dict(os.environ)
                    lib = subprocess.check_output(['g++', '-print-file-name=libasan.so'], text=True).strip()
                    env['LD_PRELOAD'] = os.path.realpath(lib)
                    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=1:allocator_may_return_null=1'
                    env['UBSAN_OPTIONS'] = 'abort_on_error=1'
                    os.execve(sys.executable, [sys.executable, os.path.abspath(__file__), self.so, str(r1), str(w2)], env)
                serve(self.so, r1, w2)
            finally:
                os._exit(3)
        os.close(r1)
        os.close(w2)
        self.pid, self.w, self.r = pid, w1, r2

    def stop(self):
        if self.pid is not None:
            try:
                os.kill(self.pid, signal.SIGKILL)
            except OSError:
                pass
            os.waitpid(self.pid, 0)
            os.close(self.w)
            os.close(self.r)
            self.pid = None

    def callbits(self, fn, ins, nout, pre=()):
        return self.call(fn, ins, nout, pre, True)

    def call(self, fn, ins, nout, pre=(), bits=False):
        fresh = self.pid is None
        if fresh:
            self.start()
        m = pickle.dumps((fn, list(ins), nout, tuple(pre), bits))
        try:
            os.write(self.w, struct.pack('<I', len(m)) + m)
            rd, _, _ = select.select([self.r], [], [], self.timeout + (20 if fresh and self.asan else 0))
            if not rd:
                self.stop()
                return 'did not return within %gs' % self.timeout
            h = readn(self.r, 4)
            if h is None:
                raise OSError
            o, self.printed = pickle.loads(readn(self.r, struct.unpack('<I', h)[0]))
            return o
        except OSError:
            _, st = os.waitpid(self.pid, 0)
            os.close(self.w)
            os.close(self.r)
            self.pid = None
            sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else None
            return 'crashed (%s%s)' % (signal.Signals(sig).name if sig else 'exit status %d' % os.WEXITSTATUS(st),
                                       ', address/undefined-behaviour sanitizer build' if self.asan else '')


def readn(fd, n):
    b = b''
    while len(b) < n:
        c = os.read(fd, n - len(b))
        if not c:
            return None
        b += c
    return b


if __name__ == '__main__':
    serve(sys.argv[1], int(sys.argv[2]), int(sys.argv[3]))
