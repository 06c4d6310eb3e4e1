"""Python face of the LD_PRELOAD disk / clock / entropy shim (simio.c)."""
import ctypes
import errno
import os
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(os.path.dirname(HERE), 'build')
SO = os.path.join(BUILD, 'libsimio.so')

CLASSES = ['open_r', 'open_w', 'read', 'write', 'trunc', 'close', 'rename', 'unlink', 'fsync', 'flock', 'mkdir']
ACTIONS = ['none', 'err', 'short', 'torn_crash', 'crash_before', 'crash_after', 'flip', 'quota']
ERRNO = {n: getattr(errno, n) for n in ('EIO', 'ENOSPC', 'EACCES', 'EMFILE', 'EINTR', 'EAGAIN', 'ENOENT', 'EROFS', 'ENOMEM', 'EDQUOT', 'EFBIG')}


def build():
    """Compile the shim if it is missing or older than its source; atomic against concurrent builders."""
    src = os.path.join(HERE, 'simio.c')
    if os.path.exists(SO) and os.path.getmtime(SO) >= os.path.getmtime(src):
        return SO
    os.makedirs(BUILD, exist_ok = True)
    tmp = SO + f'.{os.getpid()}'
    subprocess.run(['gcc', '-O2', '-U_FORTIFY_SOURCE', '-D_FORTIFY_SOURCE=0', '-fno-builtin', '-shared', '-fPIC', '-o', tmp, src, '-ldl'],
                   check = True, capture_output = True)
    os.replace(tmp, SO)
    return SO


_L = None


def lib():
    global _L
    if _L is None:
        L = ctypes.CDLL(None)
        try:
            L.simio_seq
        except AttributeError:
            raise RuntimeError('simulator shim is not preloaded')
        for n in ('simio_seq', 'simio_count', 'simio_fired', 'simio_sleeps', 'simio_crashed'):
            getattr(L, n).restype = ctypes.c_long
        L.simio_slept.restype = ctypes.c_int64
        L.simio_clock_now.restype = ctypes.c_int64
        L.simio_clock.argtypes = [ctypes.c_int, ctypes.c_int64, ctypes.c_int64]
        L.simio_sched_fd.restype = ctypes.c_int
        L.simio_clock_jump.argtypes = [ctypes.c_int64]
        L.simio_rand.argtypes = [ctypes.c_int, ctypes.c_uint64]
        L.simio_quota.argtypes = [ctypes.c_long]
        L.simio_detach.restype = ctypes.c_void_p
        L.simio_attach.argtypes = [ctypes.c_void_p]
        L.simio_fname.restype = ctypes.c_char_p
        L.simio_open_fds.argtypes = [ctypes.c_char_p]
        L.simio_add_fault.argtypes = [ctypes.c_uint32, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_char_p]
        _L = L
    return _L


def arm(faults):
    """faults: list of dicts {cls: name or list, nth, action, arg, repeat, suffix} or {quota: bytes}."""
    L = lib()
    for f in faults:
        if 'quota' in f:
            L.simio_quota(int(f['quota']))
            continue
        cls = f['cls'] if isinstance(f['cls'], list) else [f['cls']]
        mask = 0
        for c in cls:
            mask |= 1 << CLASSES.index(c)
        arg = f.get('arg', 0)
        if isinstance(arg, str):
            arg = ERRNO[arg]
        L.simio_add_fault(mask, int(f['nth']), ACTIONS.index(f['action']), int(arg), int(f.get('repeat', 1)),
                          f.get('suffix', '').encode())


def watch(classes, suffix = ''):
    """Count the matching I/O calls from now on without disturbing them; returns a handle for seen()."""
    mask = 0
    for c in classes:
        mask |= 1 << CLASSES.index(c)
    return lib().simio_add_fault(mask, 1 << 30, ACTIONS.index('err'), 0, 1, suffix.encode())


def seen(handle):
    return int(lib().simio_fault_seen(handle))


def open_fds(suffix = ''):
    return int(lib().simio_open_fds(suffix.encode()))


def disarm():
    lib().simio_clear_faults()


def counts():
    L = lib()
    return {c: int(L.simio_count(i)) for i, c in enumerate(CLASSES) if L.simio_count(i)}


def fired():
    L = lib()
    r = {}
    for i, c in enumerate(CLASSES):
        for j, a in enumerate(ACTIONS):
            v = int(L.simio_fired(i, j))
            if v:
                r[f'{c}:{a}'] = v
    return r


def iolog(since = 0):
    L = lib()
    out = (ctypes.c_int64 * 5)()
    r = []
    for i in range(since, L.simio_nlog()):
        L.simio_log(i, out)
        r.append((CLASSES[out[0]], os.path.basename(L.simio_fname(int(out[1])).decode()), out[2], out[3], out[4]))
    return r


def nlog():
    return lib().simio_nlog()
