"""A process with its own hash seed that runs programs on request.

    python -m sim.server NAME CHECK      (PYTHONHASHSEED is set by the parent)

Every request is served in a forked child.  The server ends when its standard
input is closed, that is, when the process that started it is gone.
"""
import gc
import json
import os
import select
import socket
import subprocess
import sys


def start(name, cid, hash_seed):
    env = dict(os.environ, PYTHONHASHSEED=str(hash_seed))
    return subprocess.Popen([sys.executable, '-B', '-m', 'sim.server', name, cid],
                            stdin=subprocess.PIPE, env=env,
                            cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def request(name, data, sleep, tries=1200):
    s = socket.socket(socket.AF_UNIX)
    for k in range(tries):
        try:
            s.connect('\0' + name)
            break
        except OSError:
            if k == tries - 1:
                raise
            sleep(.05)
    with s, s.makefile('rwb') as f:
        f.write(json.dumps(data).encode() + b'\n')
        f.flush()
        line = f.readline()
    return json.loads(line)


def main(name, cid):
    from . import runner
    mod = runner.load(cid)
    listener = socket.socket(socket.AF_UNIX)
    runner.setup(mod)
    listener.bind('\0' + name)
    listener.listen(64)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1), os.dup2(null, 2)
    gc.collect()
    gc.freeze()
    children = set()
    while True:
        ready, _, _ = select.select([listener, 0], [], [], 1.)
        for pid in list(children):
            if os.waitpid(pid, os.WNOHANG)[0]:
                children.discard(pid)
        if 0 in ready and not os.read(0, 1):
            return
        if listener not in ready:
            continue
        c, _ = listener.accept()
        pid = os.fork()
        if pid:
            children.add(pid)
            c.close()
            continue
        try:
            listener.close()
            with c, c.makefile('rwb') as f:
                data = json.loads(f.readline())
                out = runner.kernel.forked(lambda: mod.serve(data))
                f.write(json.dumps(out).encode() + b'\n')
        finally:
            os._exit(0)


if __name__ == '__main__':
    main(*sys.argv[1:])
