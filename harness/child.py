"""Run a function in a forked child with its own output files, and collect what it observed."""
import json
import os
import select
import signal
import sys
import time
import traceback


def forked(fn, tmp, name, timeout=150):
    """
    Run `fn` in a child.

    :return: {'result': ..., 'stdout': bytes, 'stderr': bytes, 'end': 'ok' | 'hang' | 'died <status>' | 'error <text>'}
    """
    base = os.path.join(tmp, name)
    sys.stdout.flush()
    sys.stderr.flush()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.setpgid(0, 0)
            for fd, suffix in ((1, '.out'), (2, '.err')):
                f = os.open(base + suffix, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                os.dup2(f, fd)
            sys.stdout = open(1, 'w', buffering=1, closefd=False, errors='backslashreplace')
            sys.stderr = open(2, 'w', buffering=1, closefd=False, errors='backslashreplace')
            import faulthandler
            faulthandler.enable(file=sys.stderr)
            try:
                data = {'result': fn()}
            except BaseException:
                data = {'error': traceback.format_exc()}
            sys.settrace(None)
            sys.stdout.flush()
            sys.stderr.flush()
            with open(base + '.json', 'w') as f:
                json.dump(data, f, default=repr)
            os.write(w, b'x')
        finally:
            os._exit(0)
    os.close(w)
    ready = select.select([r], [], [], timeout)[0]
    done = bool(ready) and os.read(r, 1) == b'x'
    os.close(r)
    if not ready:
        try:
            os.kill(pid, signal.SIGABRT)  # faulthandler writes the stacks
            time.sleep(.3)
        except ProcessLookupError:
            pass
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    _, status = os.waitpid(pid, 0)
    out = {'result': None, 'end': 'ok'}
    for key, suffix in (('stdout', '.out'), ('stderr', '.err')):
        try:
            with open(base + suffix, 'rb') as f:
                out[key] = f.read()
            os.unlink(base + suffix)
        except OSError:
            out[key] = b''
    if not ready:
        out['end'] = 'hang'
    elif not done:
        out['end'] = 'died %s' % status
    else:
        with open(base + '.json') as f:
            data = json.load(f)
        os.unlink(base + '.json')
        if 'error' in data:
            out['end'] = 'error ' + data['error']
        else:
            out['result'] = data['result']
    return out
