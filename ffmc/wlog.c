/* Notes every change of the files whose path begins with $FFMC_WLOG_PATH in the file $FFMC_WLOG, in the order in
 * which they happen: what a crash can leave behind is computed from these notes (checks/c16.py). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

struct head { char op; char pad[7]; uint64_t offset, size, length; };

static int match(const char *path) {
    const char *prefix = getenv("FFMC_WLOG_PATH");
    return prefix && !strncmp(path, prefix, strlen(prefix));
}

static void note(char op, const char *path, uint64_t offset, const void *data, uint64_t size) {
    static ssize_t (*real_writev)(int, const struct iovec *, int);
    if (!real_writev) real_writev = dlsym(RTLD_NEXT, "writev");
    int fd = open(getenv("FFMC_WLOG"), O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
    if (fd < 0) abort();
    struct head head = { op, {0}, offset, size, strlen(path) };
    struct iovec parts[3] = { { &head, sizeof head }, { (void *)path, head.length }, { (void *)data, data ? size : 0 } };
    if (real_writev(fd, parts, 3) < 0) abort();
    close(fd);
}

static int name(int fd, char *path) {
    char link[64];
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t length = readlink(link, path, PATH_MAX - 1);
    if (length < 0) return 0;
    path[length] = 0;
    return match(path);
}

#define REAL(type, sym, ...) static type (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, sym)

#define PWRITE(fn, offtype) \
ssize_t fn(int fd, const void *data, size_t size, offtype offset) { \
    REAL(ssize_t, #fn, int, const void *, size_t, offtype); \
    char path[PATH_MAX]; \
    int known = getenv("FFMC_WLOG") && name(fd, path); \
    ssize_t result = real(fd, data, size, offset); \
    if (known && result > 0) note('w', path, offset, data, result); \
    return result; }
PWRITE(pwrite, off_t)
PWRITE(pwrite64, off64_t)

ssize_t write(int fd, const void *data, size_t size) {
    REAL(ssize_t, "write", int, const void *, size_t);
    char path[PATH_MAX];
    int known = getenv("FFMC_WLOG") && name(fd, path);
    ssize_t result = real(fd, data, size);
    if (known && result > 0) note('w', path, lseek(fd, 0, SEEK_CUR) - result, data, result);
    return result;
}

#define TRUNCATE(fn, offtype) \
int fn(int fd, offtype size) { \
    REAL(int, #fn, int, offtype); \
    char path[PATH_MAX]; \
    int known = getenv("FFMC_WLOG") && name(fd, path); \
    int result = real(fd, size); \
    if (known && !result) note('t', path, size, NULL, 0); \
    return result; }
TRUNCATE(ftruncate, off_t)
TRUNCATE(ftruncate64, off64_t)

#define SYNC(fn) \
int fn(int fd) { \
    REAL(int, #fn, int); \
    char path[PATH_MAX]; \
    int known = getenv("FFMC_WLOG") && name(fd, path); \
    int result = real(fd); \
    if (known && !result) note('s', path, 0, NULL, 0); \
    return result; }
SYNC(fsync)
SYNC(fdatasync)

int unlink(const char *path) {
    REAL(int, "unlink", const char *);
    int result = real(path);
    if (getenv("FFMC_WLOG") && !result && match(path)) note('u', path, 0, NULL, 0);
    return result;
}

int rename(const char *old, const char *new) {
    REAL(int, "rename", const char *, const char *);
    int result = real(old, new);
    if (getenv("FFMC_WLOG") && !result && match(new)) note('r', new, 0, old, strlen(old));
    return result;
}
