"""Build bup's C helpers, unchanged, from /repo's current sources, with every
libc call they make redirected to the simulator (see csim/simlibc.c).

The result is cached under /verif/.build, keyed by the content of all inputs.
"""

import fcntl, hashlib, os, shutil, subprocess, sys, sysconfig

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('BUP_SIM_REPO', '/repo')

WRAP = ('read write lseek lseek64 open open64 openat openat64 close fstatat fstatat64'
        ' fstat fstat64 stat stat64 lstat lstat64 mmap mmap64 mincore posix_fadvise'
        ' posix_fadvise64 msync isatty ioctl gethostname').split()


class BuildError(Exception):
    pass


def _inputs():
    res = []
    for d in ('lib/bup', 'src/bup', 'src', 'config'):
        p = os.path.join(REPO, d)
        if not os.path.isdir(p):
            continue
        for n in sorted(os.listdir(p)):
            if n.endswith(('.c', '.h')):
                res.append(os.path.join(p, n))
    res.append(os.path.join(VERIF, 'sim/csim/simlibc.c'))
    return res


def _config_dir(out):
    """The directory holding a config/config.h usable for the build."""
    if os.path.exists(os.path.join(REPO, 'config/config.h')):
        return REPO
    # Not configured: configure a copy.
    tmp = os.path.join(out, 'configured')
    if not os.path.exists(os.path.join(tmp, 'config/config.h')):
        shutil.rmtree(tmp, ignore_errors=True)
        shutil.copytree(REPO, tmp, symlinks=True,
                        ignore=shutil.ignore_patterns('.git', 'test', '*.o'))
        env = dict(os.environ, BUP_PYTHON_CONFIG='/usr/bin/python3.12-config')
        subprocess.run(['./configure'], cwd=tmp, env=env, check=True,
                       stdout=subprocess.DEVNULL)
    return tmp


def helpers_so():
    base = os.environ.get('BUP_SIM_BUILD') or os.path.join(VERIF, '.build')
    os.makedirs(base, exist_ok=True)
    with open(os.path.join(base, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        h = hashlib.sha256()
        h.update(sys.version.encode())
        for p in _inputs():
            h.update(p.encode() + b'\0')
            with open(p, 'rb') as f:
                h.update(f.read())
        d = os.path.join(base, h.hexdigest()[:24])
        so = os.path.join(d, '_helpers.so')
        if os.path.exists(so):
            return so
        os.makedirs(d, exist_ok=True)
        root = _config_dir(d)
        inc = sysconfig.get_paths()['include']
        cflags = ['-fPIC', '-I' + inc, '-O2', '-fno-strict-aliasing', '-fwrapv', '-w',
                  '-U_FORTIFY_SOURCE', '-fno-builtin-read',
                  '-D_FILE_OFFSET_BITS=64', '-I' + os.path.join(root, 'src'),
                  '-D_DEFAULT_SOURCE', '-DBUP_RL_EXPECTED_XOPEN_SOURCE=600']
        objs = []
        srcs = [os.path.join(root, 'lib/bup', n) for n in sorted(os.listdir(os.path.join(root, 'lib/bup')))
                if n.endswith('.c')]
        srcs.append(os.path.join(root, 'src/bup/pyutil.c'))
        srcs.append(os.path.join(VERIF, 'sim/csim/simlibc.c'))
        procs = []
        for s in srcs:
            o = os.path.join(d, os.path.basename(s) + '.o')
            objs.append(o)
            cf = ['-fPIC', '-I' + inc, '-O2', '-w'] if s.endswith('simlibc.c') else cflags
            procs.append((s, subprocess.Popen(['gcc', *cf, '-c', s, '-o', o],
                                              stderr=subprocess.PIPE)))
        for s, p in procs:
            _, e = p.communicate()
            if p.returncode:
                raise BuildError(f'cannot compile {s}:\n{e.decode(errors="replace")}')
        wrap = ['-Wl,--wrap=' + w for w in WRAP]
        tmp = so + '.tmp'
        r = subprocess.run(['gcc', '-shared', '-o', tmp, *objs, *wrap, '-lm', '-lreadline', '-lacl'],
                           stderr=subprocess.PIPE)
        if r.returncode:
            raise BuildError('cannot link:\n' + r.stderr.decode(errors='replace'))
        os.rename(tmp, so)
        # keep the cache small
        olds = sorted((x for x in os.listdir(base) if os.path.isdir(os.path.join(base, x))),
                      key=lambda x: os.stat(os.path.join(base, x)).st_mtime)
        for x in olds[:-8]:
            shutil.rmtree(os.path.join(base, x), ignore_errors=True)
        return so


if __name__ == '__main__':
    print(helpers_so())
