/* Seam between bup's C helpers and the simulator.
 *
 * The helpers are compiled unchanged from /repo and linked with
 * -Wl,--wrap=SYMBOL for each libc function below, so each call they make into
 * the operating system arrives here and is handed to a Python callable:
 *   handler(name, args...) -> result   or raises OSError
 */
#define _GNU_SOURCE
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

static PyObject *handler;

__attribute__((visibility("default")))
void simlibc_install(PyObject *h)
{
    Py_XINCREF(h);
    Py_XDECREF(handler);
    handler = h;
}

/* Call the handler; NULL with errno set on failure. Consumes args. */
static PyObject *up(PyObject *args)
{
    PyObject *type, *val, *tb, *res;
    if (!handler) { errno = ENOSYS; Py_XDECREF(args); return NULL; }
    PyErr_Fetch(&type, &val, &tb);
    res = args ? PyObject_CallObject(handler, args) : NULL;
    Py_XDECREF(args);
    int e = 0;
    if (!res) {
        e = EIO;
        PyObject *t2, *v2, *tb2;
        PyErr_Fetch(&t2, &v2, &tb2);
        PyErr_NormalizeException(&t2, &v2, &tb2);
        if (v2) {
            PyObject *no = PyObject_GetAttrString(v2, "errno");
            if (no && PyLong_Check(no)) e = (int) PyLong_AsLong(no);
            Py_XDECREF(no);
            PyErr_Clear();
        }
        Py_XDECREF(t2); Py_XDECREF(v2); Py_XDECREF(tb2);
    }
    PyErr_Restore(type, val, tb);
    if (!res) errno = e;
    return res;
}

static long long up_ll(PyObject *args)
{
    PyObject *r = up(args);
    if (!r) return -1;
    long long v = PyLong_AsLongLong(r);
    Py_DECREF(r);
    return v;
}

#define ENTER PyGILState_STATE gs_ = PyGILState_Ensure()
#define LEAVE do { int e_ = errno; PyGILState_Release(gs_); errno = e_; } while (0)

ssize_t __wrap_read(int fd, void *buf, size_t n);
ssize_t __wrap_read(int fd, void *buf, size_t n)
{
    ENTER;
    ssize_t rc = -1;
    PyObject *r = up(Py_BuildValue("sin", "read", fd, (Py_ssize_t) n));
    if (r) {
        char *p; Py_ssize_t len;
        if (PyBytes_AsStringAndSize(r, &p, &len) == 0 && (size_t) len <= n) {
            memcpy(buf, p, len);
            rc = len;
        } else { PyErr_Clear(); errno = EIO; }
        Py_DECREF(r);
    }
    LEAVE;
    return rc;
}

ssize_t __wrap_write(int fd, const void *buf, size_t n);
ssize_t __wrap_write(int fd, const void *buf, size_t n)
{
    ENTER;
    ssize_t rc = up_ll(Py_BuildValue("siy#", "write", fd, (const char *) buf, (Py_ssize_t) n));
    LEAVE;
    return rc;
}

static off_t do_lseek(int fd, off_t off, int whence)
{
    ENTER;
    off_t rc = up_ll(Py_BuildValue("siLi", "lseek", fd, (long long) off, whence));
    LEAVE;
    return rc;
}
off_t __wrap_lseek(int fd, off_t off, int whence);
off_t __wrap_lseek(int fd, off_t off, int whence) { return do_lseek(fd, off, whence); }
off_t __wrap_lseek64(int fd, off_t off, int whence);
off_t __wrap_lseek64(int fd, off_t off, int whence) { return do_lseek(fd, off, whence); }

static int do_open(int dfd, const char *path, int flags, int mode)
{
    ENTER;
    int rc = up_ll(Py_BuildValue("siyii", "openat", dfd, path, flags, mode));
    LEAVE;
    return rc;
}
#define MODE int mode = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
int __wrap_open(const char *path, int flags, ...);
int __wrap_open(const char *path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags, mode); }
int __wrap_open64(const char *path, int flags, ...);
int __wrap_open64(const char *path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags, mode); }
int __wrap_openat(int dfd, const char *path, int flags, ...);
int __wrap_openat(int dfd, const char *path, int flags, ...) { MODE return do_open(dfd, path, flags, mode); }
int __wrap_openat64(int dfd, const char *path, int flags, ...);
int __wrap_openat64(int dfd, const char *path, int flags, ...) { MODE return do_open(dfd, path, flags, mode); }

int __wrap_close(int fd);
int __wrap_close(int fd)
{
    ENTER;
    int rc = up_ll(Py_BuildValue("si", "close", fd));
    LEAVE;
    return rc;
}

/* (mode, ino, dev, nlink, uid, gid, size, atime_ns, mtime_ns, ctime_ns, rdev) */
static int fill_stat(PyObject *r, struct stat *st)
{
    long long v[11];
    int i;
    if (!r) return -1;
    memset(st, 0, sizeof *st);
    for (i = 0; i < 11; i++) {
        PyObject *o = PySequence_GetItem(r, i);
        v[i] = o ? PyLong_AsLongLong(o) : 0;
        Py_XDECREF(o);
    }
    Py_DECREF(r);
    PyErr_Clear();
    st->st_mode = v[0]; st->st_ino = v[1]; st->st_dev = v[2]; st->st_nlink = v[3];
    st->st_uid = v[4]; st->st_gid = v[5]; st->st_size = v[6];
#define NS(f, x) do { long long q = (x) / 1000000000, m = (x) % 1000000000; \
        if (m < 0) { m += 1000000000; q--; } st->f.tv_sec = q; st->f.tv_nsec = m; } while (0)
    NS(st_atim, v[7]); NS(st_mtim, v[8]); NS(st_ctim, v[9]);
    st->st_rdev = v[10];
    st->st_blksize = 4096;
    st->st_blocks = (v[6] + 511) / 512;
    return 0;
}

static int do_fstatat(int dfd, const char *path, struct stat *st, int flags)
{
    if (!path) { errno = EFAULT; return -1; }
    ENTER;
    int rc = fill_stat(up(Py_BuildValue("siyi", "fstatat", dfd, path, flags)), st);
    LEAVE;
    return rc;
}
static int do_fstat(int fd, struct stat *st)
{
    ENTER;
    int rc = fill_stat(up(Py_BuildValue("si", "fstat", fd)), st);
    LEAVE;
    return rc;
}
int __wrap_fstatat(int dfd, const char *p, struct stat *st, int fl);
int __wrap_fstatat(int dfd, const char *p, struct stat *st, int fl) { return do_fstatat(dfd, p, st, fl); }
int __wrap_fstatat64(int dfd, const char *p, struct stat *st, int fl);
int __wrap_fstatat64(int dfd, const char *p, struct stat *st, int fl) { return do_fstatat(dfd, p, st, fl); }
int __wrap_fstat(int fd, struct stat *st);
int __wrap_fstat(int fd, struct stat *st) { return do_fstat(fd, st); }
int __wrap_fstat64(int fd, struct stat *st);
int __wrap_fstat64(int fd, struct stat *st) { return do_fstat(fd, st); }
int __wrap_stat(const char *p, struct stat *st);
int __wrap_stat(const char *p, struct stat *st) { return do_fstatat(AT_FDCWD, p, st, 0); }
int __wrap_stat64(const char *p, struct stat *st);
int __wrap_stat64(const char *p, struct stat *st) { return do_fstatat(AT_FDCWD, p, st, 0); }
int __wrap_lstat(const char *p, struct stat *st);
int __wrap_lstat(const char *p, struct stat *st) { return do_fstatat(AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
int __wrap_lstat64(const char *p, struct stat *st);
int __wrap_lstat64(const char *p, struct stat *st) { return do_fstatat(AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }

/* The splitter only maps files to ask which pages are cached. */
void *__real_mmap(void *a, size_t len, int prot, int flags, int fd, off_t off);
void *__wrap_mmap(void *a, size_t len, int prot, int flags, int fd, off_t off);
void *__wrap_mmap(void *a, size_t len, int prot, int flags, int fd, off_t off)
{
    (void) a; (void) prot; (void) flags; (void) fd; (void) off;
    return __real_mmap(NULL, len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
}
void *__wrap_mmap64(void *a, size_t len, int prot, int flags, int fd, off_t off);
void *__wrap_mmap64(void *a, size_t len, int prot, int flags, int fd, off_t off)
{ return __wrap_mmap(a, len, prot, flags, fd, off); }
int __wrap_mincore(void *a, size_t len, unsigned char *vec);
int __wrap_mincore(void *a, size_t len, unsigned char *vec)
{
    size_t i, n = (len + 4095) / 4096;
    (void) a;
    for (i = 0; i < n; i++) vec[i] = (i & 1);
    return 0;
}
int __wrap_posix_fadvise(int fd, off_t o, off_t l, int adv);
int __wrap_posix_fadvise(int fd, off_t o, off_t l, int adv) { (void) fd; (void) o; (void) l; (void) adv; return 0; }
int __wrap_posix_fadvise64(int fd, off_t o, off_t l, int adv);
int __wrap_posix_fadvise64(int fd, off_t o, off_t l, int adv) { (void) fd; (void) o; (void) l; (void) adv; return 0; }
int __wrap_msync(void *a, size_t n, int fl);
int __wrap_msync(void *a, size_t n, int fl) { (void) a; (void) n; (void) fl; return 0; }
int __wrap_isatty(int fd);
int __wrap_isatty(int fd) { (void) fd; return 0; }

int __wrap_ioctl(int fd, unsigned long req, ...);
int __wrap_ioctl(int fd, unsigned long req, ...)
{
    va_list ap;
    va_start(ap, req);
    unsigned int *arg = va_arg(ap, unsigned int *);
    va_end(ap);
    ENTER;
    long long rc = up_ll(Py_BuildValue("sikI", "ioctl", fd, req, arg ? *arg : 0u));
    LEAVE;
    if (rc < 0) return -1;
    if (arg) *arg = (unsigned int) rc;
    return 0;
}

int __wrap_gethostname(char *name, size_t len);
int __wrap_gethostname(char *name, size_t len)
{
    ENTER;
    int rc = -1;
    PyObject *r = up(Py_BuildValue("(s)", "gethostname"));
    if (r) {
        char *p; Py_ssize_t n;
        if (PyBytes_AsStringAndSize(r, &p, &n) == 0 && (size_t) n < len) {
            memcpy(name, p, n); name[n] = 0; rc = 0;
        } else { PyErr_Clear(); errno = EINVAL; }
        Py_DECREF(r);
    }
    LEAVE;
    return rc;
}
