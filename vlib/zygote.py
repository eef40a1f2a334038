"""A process that has never parsed anything, forked per request: what a call returns in a fresh interpreter."""
import os
import pickle
import resource
import struct

_z = None


def _read(fd, n):
    b = b''
    while len(b) < n:
        x = os.read(fd, n - len(b))
        if not x:
            raise EOFError
        b += x
    return b


def _send(fd, o):
    b = pickle.dumps(o)
    os.write(fd, struct.pack('>I', len(b)))
    while b:
        b = b[os.write(fd, b):]


def _recv(fd):
    return pickle.loads(_read(fd, struct.unpack('>I', _read(fd, 4))[0]))


def start(fn):
    """fn(request) -> answer is run in a fork of the state this process has now."""
    global _z
    if _z:
        return
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(w1)
        os.close(r2)
        try:
            while True:
                q = _recv(r1)
                c = os.fork()
                if c == 0:
                    resource.setrlimit(resource.RLIMIT_CPU, (120, 120))
                    try:
                        _send(w2, fn(q))
                    except BaseException as e:
                        _send(w2, ('zygote', repr(e)))
                    os._exit(0)
                if os.waitpid(c, 0)[1]:
                    _send(w2, ('zygote', 'killed: out of processor time'))
        except BaseException:
            os._exit(0)
    os.close(r1)
    os.close(w2)
    _z = (w1, r2, pid)


def ask(q):
    _send(_z[0], q)
    return _recv(_z[1])
