/* Preloaded into the program under test: changes the world around it and how the system accepts
 * its output. Configured by the variable RIPSHIM, a list of key=value separated by commas:
 *   t  seconds since the epoch (all clocks that tell the date start there)
 *   m  seconds by which the monotonic clocks jump whenever they are read
 *   p  process number          u  user and group number      c  number of processors
 *   r  byte that "random" data consists of
 *   h  every name resolves to 10.1.2.3
 *   f  file that is opened or examined in place of any other (none can be written)
 *   w  most bytes accepted by one write to standard output   e  percentage of interrupted writes
 *   a  percentage of writes that are refused for the moment
 *   s  seed for w, e and a
 *   x  bytes after which writes to standard output fail      y  with this errno
 *   z  1: ends the program with SIGSYS if it tries to change anything outside itself
 *      (2: and tries it straight away)
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/sched.h>
#include <linux/seccomp.h>
#include <netdb.h>
#include <sched.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/sysinfo.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/utsname.h>
#include <time.h>
#include <unistd.h>

static long long val[128];
static unsigned char given[128];
static char file[256];
static uint64_t rng, written;

/* ---- no effects ---- */
static void confine(void)
{
#if defined(__x86_64__)
    static const short forbidden[] = {
        /* files */
        SYS_creat, SYS_unlink, SYS_unlinkat, SYS_rename, SYS_renameat, SYS_renameat2, SYS_mkdir, SYS_mkdirat, SYS_rmdir,
        SYS_link, SYS_linkat, SYS_symlink, SYS_symlinkat, SYS_mknod, SYS_mknodat, SYS_chmod, SYS_fchmod, SYS_fchmodat,
        SYS_chown, SYS_fchown, SYS_lchown, SYS_fchownat, SYS_utime, SYS_utimes, SYS_futimesat, SYS_utimensat, SYS_truncate,
        SYS_ftruncate, SYS_fallocate, SYS_setxattr, SYS_lsetxattr, SYS_fsetxattr, SYS_removexattr, SYS_lremovexattr,
        SYS_fremovexattr, SYS_mount, SYS_umount2, SYS_chroot, SYS_pivot_root, SYS_openat2, SYS_flock,
        /* others */
        SYS_socket, SYS_socketpair, SYS_connect, SYS_bind, SYS_sendto, SYS_sendmsg, SYS_fork, SYS_vfork, SYS_execve,
        SYS_execveat, SYS_kill, SYS_ptrace, SYS_process_vm_writev, SYS_shmget, SYS_msgget, SYS_semget, SYS_mq_open,
        SYS_setpriority, SYS_ioprio_set, SYS_sched_setscheduler, SYS_sched_setparam, SYS_sched_setattr, SYS_tkill,
        SYS_rt_sigqueueinfo, SYS_rt_tgsigqueueinfo, SYS_setsid, SYS_setpgid, SYS_memfd_create, SYS_sendmmsg,
        /* the system */
        SYS_setuid, SYS_setgid, SYS_setreuid, SYS_setregid, SYS_setresuid, SYS_setresgid, SYS_setgroups, SYS_settimeofday,
        SYS_clock_settime, SYS_adjtimex, SYS_sethostname, SYS_setdomainname, SYS_reboot, SYS_syslog, SYS_swapon,
        SYS_swapoff, SYS_init_module, SYS_finit_module, SYS_delete_module, SYS_bpf, SYS_keyctl, SYS_add_key, SYS_acct,
        SYS_quotactl, SYS_unshare, SYS_setns, SYS_perf_event_open, SYS_io_uring_setup,
        SYS_sync, SYS_vhangup, SYS_ioperm, SYS_iopl, SYS_userfaultfd, SYS_fanotify_init,
        /* recent ones: pidfd_send_signal, mounts, fchmodat2, setxattrat, removexattrat */
        424, 428, 429, 430, 431, 432, 433, 442, 452, 463, 466,
    };
    enum { N = sizeof forbidden / sizeof *forbidden };
    /* about terminals and open files, that others share: TCSETS and its relatives, TIOCSTI and so on */
    static const unsigned ioctls[] = {
        0x5402, 0x5403, 0x5404, 0x5406, 0x5407, 0x5408, 0x5409, 0x540a, 0x540b, 0x540c, 0x540d, 0x540e, 0x5410, 0x5412,
        0x5414, 0x5416, 0x5417, 0x5418, 0x541a, 0x541c, 0x541d, 0x541e, 0x541f, 0x5420, 0x5421, 0x5422, 0x5423, 0x5425,
        0x5427, 0x5428, 0x542b, 0x542c, 0x542d, 0x5431, 0x5436, 0x5437, 0x5452, 0x40086602, 0x40049409,
    };
    static const unsigned fcntls[] = {
        F_SETFL, F_SETLK, F_SETLKW, F_SETOWN, 10 /* F_SETSIG */, 15 /* F_SETOWN_EX */, 37, 38 /* F_OFD_SETLK... */, 1024 /* F_SETLEASE */,
        1026 /* F_NOTIFY */, 1031 /* F_SETPIPE_SZ */, 1033 /* F_ADD_SEALS */, 1036, 1038 /* F_SET_RW_HINT... */,
    };
    enum { NI = sizeof ioctls / sizeof *ioctls, NF = sizeof fcntls / sizeof *fcntls };
    static const short reads[] = {SYS_read, SYS_readv, SYS_pread64, SYS_preadv, SYS_preadv2, SYS_recvfrom, SYS_recvmsg, SYS_lseek};
    static const short writes[] = {SYS_write, SYS_writev, SYS_pwrite64, SYS_pwritev, SYS_pwritev2};
    static struct sock_filter f[2 * N + 2 * NI + 2 * NF + 100];
    unsigned short n = 0;
#define NR offsetof(struct seccomp_data, nr)
#define ARG(i) (offsetof(struct seccomp_data, args) + 8 * (i))
#define LOAD(k) f[n++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, (k))
#define RET(k) f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, (k))
#define JUMP(how, k, yes, no) f[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | (how) | BPF_K, (k), (yes), (no))
    LOAD(offsetof(struct seccomp_data, arch));
    JUMP(BPF_JEQ, AUDIT_ARCH_X86_64, 1, 0);
    RET(SECCOMP_RET_KILL_PROCESS);
    LOAD(NR);
    for (int i = 0; i < N; i++) {
        JUMP(BPF_JEQ, (unsigned)forbidden[i], 0, 1);
        RET(SECCOMP_RET_KILL_PROCESS);
    }
    /* files may be opened for reading only */
    JUMP(BPF_JEQ, SYS_open, 0, 4);
    LOAD(ARG(1));
    JUMP(BPF_JSET, O_ACCMODE | O_CREAT | O_TRUNC, 0, 1);
    RET(SECCOMP_RET_KILL_PROCESS);
    RET(SECCOMP_RET_ALLOW);
    JUMP(BPF_JEQ, SYS_openat, 0, 4);
    LOAD(ARG(2));
    JUMP(BPF_JSET, O_ACCMODE | O_CREAT | O_TRUNC, 0, 1);
    RET(SECCOMP_RET_KILL_PROCESS);
    RET(SECCOMP_RET_ALLOW);
    JUMP(BPF_JEQ, SYS_ioctl, 0, 2 * NI + 2);
    LOAD(ARG(1));
    for (int i = 0; i < NI; i++) {
        JUMP(BPF_JEQ, ioctls[i], 0, 1);
        RET(SECCOMP_RET_KILL_PROCESS);
    }
    RET(SECCOMP_RET_ALLOW);
    JUMP(BPF_JEQ, SYS_fcntl, 0, 2 * NF + 2);
    LOAD(ARG(1));
    for (int i = 0; i < NF; i++) {
        JUMP(BPF_JEQ, fcntls[i], 0, 1);
        RET(SECCOMP_RET_KILL_PROCESS);
    }
    RET(SECCOMP_RET_ALLOW);
    /* standard input is left alone */
    for (int i = 0; i < (int)(sizeof reads / sizeof *reads); i++) {
        JUMP(BPF_JEQ, (unsigned)reads[i], 0, 4);
        LOAD(ARG(0));
        JUMP(BPF_JEQ, 0, 0, 1);
        RET(SECCOMP_RET_KILL_PROCESS);
        RET(SECCOMP_RET_ALLOW);
    }
    /* and only standard output and standard error (or copies of them) are written to */
    for (int i = 0; i < (int)(sizeof writes / sizeof *writes); i++) {
        JUMP(BPF_JEQ, (unsigned)writes[i], 0, 4);
        LOAD(ARG(0));
        JUMP(BPF_JEQ, 0, 0, 1);
        RET(SECCOMP_RET_KILL_PROCESS);
        RET(SECCOMP_RET_ALLOW);
    }
    /* threads, but no processes; clone3 cannot be examined, but clone is used when it does not exist */
    JUMP(BPF_JEQ, SYS_clone3, 0, 1);
    RET(SECCOMP_RET_ERRNO | ENOSYS);
    JUMP(BPF_JEQ, SYS_clone, 0, 3);
    LOAD(ARG(0));
    JUMP(BPF_JSET, CLONE_THREAD, 1, 0);
    RET(SECCOMP_RET_KILL_PROCESS);
    RET(SECCOMP_RET_ALLOW);
    struct sock_fprog prog = {n, f};
    if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) != 0 || syscall(SYS_seccomp, SECCOMP_SET_MODE_FILTER, 0, &prog) != 0)
        _exit(99);
#else
    _exit(99);
#endif
}

__attribute__((constructor)) static void init(void)
{
    const char *s = getenv("RIPSHIM");
    while (s && *s) {
        unsigned char k = (unsigned char)*s & 127;
        const char *v = s + 2, *e = strchr(s, ',');
        if (s[1] != '=')
            break;
        given[k] = 1;
        if (k == 'f') {
            size_t n = e ? (size_t)(e - v) : strlen(v);
            if (n < sizeof file)
                memcpy(file, v, n);
        } else
            val[k] = atoll(v);
        s = e ? e + 1 : NULL;
    }
    rng = (uint64_t)val['s'] * 2654435761u + 88172645463325252u;
    if (given['z'])
        confine();
    if (val['z'] == 2)
        syscall(SYS_openat, AT_FDCWD, "/dev/null", O_WRONLY, 0);
}
static uint64_t next(void)
{
    rng ^= rng << 13;
    rng ^= rng >> 7;
    rng ^= rng << 17;
    return rng >> 11;
}
#define REAL(name) ((__typeof__(&name))dlsym(RTLD_NEXT, #name))

/* ---- clocks, numbers ---- */
int clock_gettime(clockid_t id, struct timespec *ts)
{
    int r = (int)syscall(SYS_clock_gettime, id, ts);
    if (r == 0) {
        int date = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI;
        if (date && given['t']) {
            ts->tv_sec = val['t'];
        } else if (!date && given['m']) {
            /* as if the process were stopped for that long before each look at the clock */
            static long long looks;
            ts->tv_sec += val['m'] * __atomic_add_fetch(&looks, 1, __ATOMIC_RELAXED);
        }
    }
    return r;
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz)
{
    (void)tz;
    struct timespec ts;
    int r = clock_gettime(CLOCK_REALTIME, &ts);
    if (r == 0) {
        tv->tv_sec = ts.tv_sec;
        tv->tv_usec = ts.tv_nsec / 1000;
    }
    return r;
}
time_t time(time_t *t)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t)
        *t = ts.tv_sec;
    return ts.tv_sec;
}
pid_t getpid(void) { return given['p'] ? (pid_t)val['p'] : (pid_t)syscall(SYS_getpid); }
pid_t getppid(void) { return given['p'] ? (pid_t)val['p'] - 1 : (pid_t)syscall(SYS_getppid); }
uid_t getuid(void) { return given['u'] ? (uid_t)val['u'] : (uid_t)syscall(SYS_getuid); }
uid_t geteuid(void) { return given['u'] ? (uid_t)val['u'] : (uid_t)syscall(SYS_geteuid); }
gid_t getgid(void) { return given['u'] ? (gid_t)val['u'] : (gid_t)syscall(SYS_getgid); }
gid_t getegid(void) { return given['u'] ? (gid_t)val['u'] : (gid_t)syscall(SYS_getegid); }
int gethostname(char *name, size_t n)
{
    if (!given['u'])
        return REAL(gethostname)(name, n);
    snprintf(name, n, "host%lld", val['u']);
    return 0;
}
long sysconf(int name)
{
    if (given['c'] && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF))
        return (long)val['c'];
    return REAL(sysconf)(name);
}
int sched_getaffinity(pid_t pid, size_t n, cpu_set_t *set)
{
    int r = REAL(sched_getaffinity)(pid, n, set);
    if (r >= 0 && given['c']) {
        memset(set, 0, n);
        for (long long i = 0; i < val['c'] && i < (long long)(8 * n); i++)
            CPU_SET_S((size_t)i, n, set);
    }
    return r;
}
ssize_t getrandom(void *buf, size_t n, unsigned flags)
{
    if (!given['r'])
        return syscall(SYS_getrandom, buf, n, flags);
    memset(buf, (int)val['r'], n);
    return (ssize_t)n;
}
int getentropy(void *buf, size_t n)
{
    return getrandom(buf, n, 0) == (ssize_t)n ? 0 : -1;
}

int getaddrinfo(const char *node, const char *service, const struct addrinfo *hints, struct addrinfo **res)
{
    return REAL(getaddrinfo)(given['h'] && node ? "10.1.2.3" : node, service, hints, res);
}

/* ---- files ---- */
static int own(const char *p)
{
    /* the system's own affairs */
    static const char *const dirs[] = {"/proc", "/sys", "/dev", "/lib", "/usr/lib", "/etc/ld", NULL};
    if (!p || !*p)
        return 0;
    for (int i = 0; dirs[i]; i++)
        if (strncmp(p, dirs[i], strlen(dirs[i])) == 0)
            return 0;
    return 1;
}
static int wr(int flags) { return (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)); }
static int swapped(const char **p, int flags)
{
    if (!given['f'] || !own(*p))
        return 0;
    if (wr(flags)) {
        if (given['z']) /* let it try */
            return 0;
        errno = EACCES;
        return -1;
    }
    *p = file;
    return 1;
}
#define OPEN(name, real)                                                                           \
    int name(const char *p, int flags, ...)                                                        \
    {                                                                                              \
        va_list ap;                                                                                \
        va_start(ap, flags);                                                                       \
        mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;                       \
        va_end(ap);                                                                                \
        if (swapped(&p, flags) < 0)                                                                \
            return -1;                                                                             \
        return (int)syscall(SYS_openat, AT_FDCWD, p, flags, m);                                    \
    }
OPEN(open, open)
OPEN(open64, open64)
#define OPENAT(name)                                                                               \
    int name(int fd, const char *p, int flags, ...)                                                \
    {                                                                                              \
        va_list ap;                                                                                \
        va_start(ap, flags);                                                                       \
        mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;                       \
        va_end(ap);                                                                                \
        if (swapped(&p, flags) < 0)                                                                \
            return -1;                                                                             \
        return (int)syscall(SYS_openat, fd, p, flags, m);                                          \
    }
OPENAT(openat)
OPENAT(openat64)
FILE *fopen(const char *p, const char *mode)
{
    if (swapped(&p, strpbrk(mode, "wa+") ? O_WRONLY : O_RDONLY) < 0)
        return NULL;
    return REAL(fopen)(p, mode);
}
FILE *fopen64(const char *p, const char *mode) { return fopen(p, mode); }
int statx(int fd, const char *p, int flags, unsigned mask, struct statx *st)
{
    swapped(&p, O_RDONLY);
    return (int)syscall(SYS_statx, fd, p, flags, mask, st);
}
int stat(const char *p, struct stat *st)
{
    swapped(&p, O_RDONLY);
    return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, 0);
}
int stat64(const char *p, struct stat64 *st)
{
    swapped(&p, O_RDONLY);
    return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, 0);
}
int access(const char *p, int mode)
{
    swapped(&p, O_RDONLY);
    return (int)syscall(SYS_faccessat, AT_FDCWD, p, mode);
}

/* ---- standard output ---- */
static int is_stdout(int fd)
{
    struct stat a, b;
    if (fd <= 2)
        return fd == 1;
    /* a duplicate? */
    return syscall(SYS_newfstatat, fd, "", &a, AT_EMPTY_PATH) == 0 && syscall(SYS_newfstatat, 1, "", &b, AT_EMPTY_PATH) == 0
        && a.st_dev == b.st_dev && a.st_ino == b.st_ino;
}
static int refuse(void)
{
    if (given['x'] && written >= (uint64_t)val['x']) {
        errno = (int)val['y'];
        return 1;
    }
    if (given['e'] && next() % 100 < (uint64_t)val['e']) {
        errno = EINTR;
        return 1;
    }
    if (given['a'] && next() % 100 < (uint64_t)val['a']) {
        errno = EAGAIN;
        return 1;
    }
    return 0;
}
static size_t piece(size_t n)
{
    if (given['w'] && n > 1) {
        size_t most = 1 + next() % (uint64_t)val['w'];
        if (n > most)
            n = most;
    }
    if (given['x'] && n > (uint64_t)val['x'] - written)
        n = (size_t)((uint64_t)val['x'] - written);
    return n;
}
ssize_t write(int fd, const void *buf, size_t n)
{
    if (n == 0 || !is_stdout(fd))
        return syscall(SYS_write, fd, buf, n);
    if (refuse())
        return -1;
    ssize_t r = syscall(SYS_write, fd, buf, piece(n));
    if (r > 0)
        written += (uint64_t)r;
    return r;
}
ssize_t writev(int fd, const struct iovec *v, int n)
{
    if (!is_stdout(fd))
        return syscall(SYS_writev, fd, v, n);
    for (int i = 0; i < n; i++)
        if (v[i].iov_len)
            return write(1, v[i].iov_base, v[i].iov_len);
    return 0;
}
