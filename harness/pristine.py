'''
Calls evaluated in a process which has done nothing but imports: z = Zygote(f); z(arg) is f(arg) computed in a fresh fork.
The zygote is to be created before anything else is done in the process.
'''
import os, pickle, struct, sys, traceback


def _write(fd, data):
    data = struct.pack('<Q', len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def _read(fd):
    def get(n):
        out = b''
        while len(out) < n:
            piece = os.read(fd, n-len(out))
            if not piece:
                raise EOFError
            out += piece
        return out
    n, = struct.unpack('<Q', get(8))
    return get(n)


class Zygote:
    def __init__(self, f):
        r0, w0 = os.pipe()
        r1, w1 = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(w0)
            os.close(r1)
            try:
                self.serve(f, r0, w1)
            finally:
                os._exit(0)
        os.close(r0)
        os.close(w1)
        self.r, self.w = r1, w0

    @staticmethod
    def serve(f, r, w):
        while True:
            arg = _read(r)
            pid = os.fork()
            if pid == 0:
                try:
                    out = pickle.dumps(('ok', f(pickle.loads(arg))))
                except BaseException:
                    out = pickle.dumps(('error', traceback.format_exc()))
                _write(w, out)
                os._exit(0)
            _, status = os.waitpid(pid, 0)
            if status:
                _write(w, pickle.dumps(('error', 'process ended with status %d' % status)))

    def __call__(self, arg):
        _write(self.w, pickle.dumps(arg))
        status, out = pickle.loads(_read(self.r))
        if status == 'error':
            raise RuntimeError('in the pristine process: ' + out)
        return out
