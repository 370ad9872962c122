"""
Second interpreters, started with other settings than the simulation's own. Each listens on a socket and serves every
request in a fork of its own. They end with the process that started them.
"""
import json
import os
import select
import socket
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
STATIC = [
    {'PYTHONHASHSEED': '1', 'LC_ALL': 'C', 'LANG': 'C', 'PYTHONCOERCECLOCALE': '0', 'PYTHONUTF8': '0'},
    {'PYTHONHASHSEED': '2', 'LC_ALL': 'C.UTF-8', 'PYTHONOPTIMIZE': '1'},
    {'PYTHONHASHSEED': '4242', 'LC_ALL': 'POSIX', 'PYTHONUTF8': '1', 'PYTHONOPTIMIZE': '1'},
]

_procs = {}


def sock_dir():
    d = os.environ.get('VERIF_ENV_SOCKETS')
    if not d:
        d = tempfile.mkdtemp(dir=os.environ.get('VERIF_BUILD') or None)
        os.environ['VERIF_ENV_SOCKETS'] = d
    return d


def start(k):
    """Starts interpreter k unless somebody has done so already."""
    path = os.path.join(sock_dir(), f's{k}')
    if k in _procs or os.path.exists(path + '.started'):
        return
    open(path + '.started', 'w').close()
    env = {q: v for q, v in os.environ.items() if q not in ('PYTHONUTF8', 'PYTHONIOENCODING')}
    env.update(STATIC[k])
    _procs[k] = subprocess.Popen([sys.executable, '-B', os.path.join(HERE, 'main.py'), 'helper', path], env=env,
                                 stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)


def start_all():
    for k in range(len(STATIC)):
        start(k)


def ask(k, request):
    """Sends a request to the other interpreter; -> its answer"""
    path = os.path.join(sock_dir(), f's{k}')
    end = time.monotonic() + 100
    with socket.socket(socket.AF_UNIX) as s:
        while True:
            try:
                s.connect(path)
                break
            except OSError:
                if time.monotonic() > end:
                    raise RuntimeError('the second interpreter has ended')
                select.select([], [], [], 0.05)
        s.sendall((json.dumps(request) + '\n').encode('ascii'))
        buf = []
        s.settimeout(80)
        while True:
            b = s.recv(1 << 20)
            if not b:
                break
            buf.append(b)
    if not buf:
        raise RuntimeError('the second interpreter has ended a run')
    return json.loads(b''.join(buf))


def serve(path, work):
    """Answers requests with work(request) until stdin ends."""
    import gc
    import signal
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    srv = socket.socket(socket.AF_UNIX)
    srv.bind(path)
    srv.listen(64)
    gc.collect()
    gc.freeze()
    while True:
        r, _, _ = select.select([srv, 0], [], [])
        if 0 in r:
            return
        c, _ = srv.accept()
        if os.fork():
            c.close()
            continue
        signal.signal(signal.SIGCHLD, signal.SIG_DFL)
        buf = b''
        while not buf.endswith(b'\n'):
            b = c.recv(1 << 20)
            if not b:
                os._exit(1)
            buf += b
        try:
            ans = {'obs': work(json.loads(buf))}
        except BaseException:
            import traceback
            ans = {'error': traceback.format_exc()[-3000:]}
        c.sendall(json.dumps(ans).encode('ascii'))
        os._exit(0)
