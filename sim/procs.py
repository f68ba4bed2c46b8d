"""child processes: every simulated run executes in a forked child of a worker
that has only imported the code, so no run sees state left by another one"""
import json
import os
import resource
import select
import signal
import sys
import time
import traceback

HANG = 'hang'
MEM = 6 << 30


def fork_json(func, wall=60., mem=MEM):
    """run func() in a forked child -> (status, value)

    status: 'ok' (value: JSON result), 'hang' (no result within `wall` real
    seconds), 'died' (value: how)
    """
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            if mem:
                resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
            try:
                out = {'v': func()}
            except BaseException:
                out = {'err': traceback.format_exc()}
            data = json.dumps(out).encode()
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = []
    status = None
    end = time.monotonic() + wall
    while True:
        left = end - time.monotonic()
        if left <= 0:
            status = HANG
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            continue
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf.append(b)
    os.close(r)
    if status == HANG:
        os.kill(pid, signal.SIGKILL)
    _, st = os.waitpid(pid, 0)
    if status == HANG:
        return HANG, wall
    try:
        out = json.loads(b''.join(buf).decode())
    except ValueError:
        return 'died', 'wait status %d' % st
    if 'err' in out:
        return 'died', out['err']
    return 'ok', out['v']
