/* fstrace OUT SPEC PREFIX PROG ARG...
 *
 * Runs PROG, logs to OUT its file system calls that concern PREFIX (a
 * directory; also relative paths) and files opened below it, and applies
 * SPEC, a comma separated list of
 *   N:kill       kill the process instead of executing call number N
 *   N:after      kill the process when the call number N is done
 *   N:err=E      fail the call number N with errno E without executing it
 *   N:len=K      let the call number N transfer at most K bytes
 *   N:torn=K     the same and kill the process when it is done
 *   N:rest=E     fail it and all later calls that transfer data with errno E
 *   *:read=K     let every read transfer at most K bytes
 *   stdin        standard input or
 *   stdout       output is of interest as well
 * Exit code: of the program, 137 if killed, 99 on failure of the tracer.
 * Log lines: N name fd length result path [-> path2]
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>

enum { NONE, PATH0, PATH1, FD, TWO0, TWO1, SYM };
struct call { int nr; const char *name; int kind; int rw; };
static struct call calls[] = {
#ifdef SYS_open
	{SYS_open, "open", PATH0, 0}, {SYS_creat, "open", PATH0, 0}, {SYS_stat, "stat", PATH0, 0}, {SYS_lstat, "stat", PATH0, 0},
	{SYS_truncate, "truncate", PATH0, 0}, {SYS_rename, "rename", TWO0, 0}, {SYS_mkdir, "mkdir", PATH0, 0},
	{SYS_rmdir, "rmdir", PATH0, 0}, {SYS_link, "link", TWO0, 0}, {SYS_unlink, "unlink", PATH0, 0},
	{SYS_readlink, "readlink", PATH0, 0}, {SYS_chmod, "chmod", PATH0, 0}, {SYS_access, "access", PATH0, 0},
	{SYS_chown, "chown", PATH0, 0}, {SYS_lchown, "chown", PATH0, 0}, {SYS_symlink, "symlink", SYM, 0},
#endif
	{SYS_openat, "open", PATH1, 0}, {SYS_openat2, "open", PATH1, 0}, {SYS_newfstatat, "stat", PATH1, 0}, {SYS_statx, "stat", PATH1, 0},
	{SYS_mkdirat, "mkdir", PATH1, 0}, {SYS_unlinkat, "unlink", PATH1, 0}, {SYS_renameat, "rename", TWO1, 0},
	{SYS_renameat2, "rename", TWO1, 0}, {SYS_linkat, "link", TWO1, 0}, {SYS_symlinkat, "symlink", SYM, 0},
	{SYS_readlinkat, "readlink", PATH1, 0}, {SYS_fchmodat, "chmod", PATH1, 0}, {452, "chmod", PATH1, 0},
	{SYS_faccessat, "access", PATH1, 0}, {SYS_faccessat2, "access", PATH1, 0}, {SYS_fchownat, "chown", PATH1, 0}, {SYS_utimensat, "utime", PATH1, 0},
	{SYS_read, "read", FD, 1}, {SYS_pread64, "read", FD, 1}, {SYS_readv, "readv", FD, 0}, {SYS_write, "write", FD, 2}, {SYS_pwrite64, "write", FD, 2},
	{SYS_writev, "writev", FD, 0}, {SYS_close, "close", FD, 0}, {SYS_fstat, "fstat", FD, 0}, {SYS_fsync, "fsync", FD, 0},
	{SYS_fdatasync, "fsync", FD, 0}, {SYS_ftruncate, "ftruncate", FD, 0}, {SYS_fallocate, "fallocate", FD, 0},
	{SYS_fchmod, "fchmod", FD, 0}, {SYS_fchown, "fchown", FD, 0}, {SYS_getdents64, "getdents", FD, 0},
	{SYS_copy_file_range, "copy", FD, 0}, {SYS_sendfile, "copy", FD, 0}, {SYS_lseek, "lseek", FD, 0}, {SYS_flock, "flock", FD, 0},
};

struct spec { int n; char what; long k; };
static struct spec specs[64];
static int nspecs;
static long maxread = -1;
static const char *prefix;
static FILE *out;

struct thr { pid_t pid; int in; struct call *c; int n; int faked; long err; int killafter; char path[5000]; long a[6]; };
static struct thr thr[256];
static int nthr;
static char *fdpath[65536];

static struct thr *get(pid_t p)
{
	for (int i = 0; i < nthr; i++)
		if (thr[i].pid == p)
			return &thr[i];
	for (int i = 0; i < nthr; i++)
		if (thr[i].pid == 0) {
			memset(&thr[i], 0, sizeof *thr);
			thr[i].pid = p;
			return &thr[i];
		}
	if (nthr == 256)
		exit(99);
	memset(&thr[nthr], 0, sizeof *thr);
	thr[nthr].pid = p;
	return &thr[nthr++];
}

static void peek(pid_t p, unsigned long addr, char *buf, size_t n)
{
	size_t i = 0;
	while (i < n - 1) {
		errno = 0;
		long w = ptrace(PTRACE_PEEKDATA, p, addr + i, 0);
		if (errno)
			break;
		for (int j = 0; j < 8 && i < n - 1; j++, i++)
			if (!(buf[i] = (w >> 8 * j) & 255))
				return;
	}
	buf[i] = 0;
}

static int ours(const char *p)
{
	size_t n = strlen(prefix);
	if (*p && *p != '/')
		return 1;
	return !strncmp(p, prefix, n) && (p[n] == 0 || p[n] == '/');
}

static char fds[65536];
static void parse(char *s)
{
	for (char *t = strtok(s, ","); t; t = strtok(NULL, ",")) {
		char w[16];
		long k = 0;
		int n;
		if (sscanf(t, "*:read=%ld", &k) == 1) {
			maxread = k;
			continue;
		}
		if (!strcmp(t, "stdin") || !strcmp(t, "stdout")) {
			fds[t[3] == 'o'] = 1;
			continue;
		}
		if (sscanf(t, "%d:%15[a-z]=%ld", &n, w, &k) < 2)
			exit(99);
		specs[nspecs].n = n;
		specs[nspecs].k = k;
		specs[nspecs++].what = w[0];
	}
}

static void clean(char *s)
{
	for (; *s; s++)
		if (*s == '\n' || *s == '\r')
			*s = '?';
}

int main(int argc, char **argv)
{
	if (argc < 5)
		return 99;
	out = fopen(argv[1], "w");
	if (!out)
		return 99;
	fcntl(fileno(out), F_SETFD, FD_CLOEXEC);
	parse(argv[2]);
	prefix = argv[3];
	pid_t root = fork();
	if (root < 0)
		return 99;
	if (!root) {
		if (ptrace(PTRACE_TRACEME, 0, 0, 0))
			_exit(99);
		raise(SIGSTOP);
		execv(argv[4], argv + 4);
		_exit(98);
	}
	int st;
	if (waitpid(root, &st, 0) != root || !WIFSTOPPED(st) ||
	    ptrace(PTRACE_SETOPTIONS, root, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_TRACECLONE | PTRACE_O_EXITKILL)) {
		kill(root, SIGKILL);
		return 99;
	}
	get(root);
	ptrace(PTRACE_SYSCALL, root, 0, 0);
	int next = 0;
	for (;;) {
		pid_t p = waitpid(-1, &st, __WALL);
		if (p < 0) {
			if (errno == EINTR)
				continue;
			return 99;
		}
		if (WIFEXITED(st) || WIFSIGNALED(st)) {
			for (int i = 0; i < nthr; i++)
				if (thr[i].pid == p)
					thr[i].pid = 0;
			if (p == root) {
				fclose(out);
				return WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
			}
			continue;
		}
		if (!WIFSTOPPED(st))
			continue;
		struct thr *t = get(p);
		int sig = WSTOPSIG(st);
		if (sig != (SIGTRAP | 0x80)) {
			if (st >> 16 || sig == SIGSTOP || sig == SIGTRAP)
				sig = 0;
			ptrace(PTRACE_SYSCALL, p, 0, sig);
			continue;
		}
		struct user_regs_struct r;
		if (ptrace(PTRACE_GETREGS, p, 0, &r))
			continue;
		if (!t->in) {
			t->in = 1;
			t->c = NULL;
			t->faked = t->killafter = 0;
			for (unsigned i = 0; i < sizeof calls / sizeof *calls; i++)
				if (calls[i].nr == (long)r.orig_rax)
					t->c = &calls[i];
			if (t->c) {
				char a[2400], b[2400];
				int yes = 0;
				t->a[0] = r.rdi, t->a[1] = r.rsi, t->a[2] = r.rdx;
				*t->path = 0;
				switch (t->c->kind) {
				case PATH0: peek(p, r.rdi, t->path, sizeof t->path); yes = ours(t->path); break;
				case PATH1:
					peek(p, r.rsi, t->path, sizeof t->path);
					yes = ours(t->path);
					if (!*t->path && r.rdi < 65536 && fds[r.rdi])
						yes = 1;
					break;
				case TWO0: case TWO1:
					peek(p, t->c->kind == TWO0 ? r.rdi : r.rsi, a, sizeof a);
					peek(p, t->c->kind == TWO0 ? r.rsi : r.r10, b, sizeof b);
					yes = ours(a) || ours(b);
					snprintf(t->path, sizeof t->path, "%s -> %s", a, b);
					break;
				case SYM:
					peek(p, r.rdi, a, sizeof a);
					peek(p, r.orig_rax == SYS_symlinkat ? r.rdx : r.rsi, b, sizeof b);
					yes = ours(b);
					snprintf(t->path, sizeof t->path, "%s -> %s", a, b);
					break;
				case FD:
					yes = r.rdi < 65536 && fds[r.rdi];
					if (yes && fdpath[r.rdi])
						snprintf(t->path, sizeof t->path, "%s", fdpath[r.rdi]);
					break;
				}
				if (!yes)
					t->c = NULL;
			}
			if (t->c) {
				clean(t->path);
				t->n = next++;
				if (t->c->rw == 1 && maxread >= 0 && (long)r.rdx > maxread) {
					r.rdx = maxread;
					ptrace(PTRACE_SETREGS, p, 0, &r);
				}
				for (int i = 0; i < nspecs; i++) {
					struct spec *s = &specs[i];
					if (s->n != t->n && !(s->what == 'r' && s->n < t->n && t->c->rw))
						continue;
					if (s->what == 'k') {
						fprintf(out, "%d %s %ld %ld killed %s\n", t->n, t->c->name, t->c->kind == FD ? t->a[0] : -1, t->c->rw ? t->a[2] : -1, t->path);
						fflush(out);
						kill(root, SIGKILL);
					} else if (s->what == 'a')
						t->killafter = 1;
					else if (s->what == 'e' || s->what == 'r') {
						t->faked = 1;
						t->err = s->k;
						/* close is executed: the descriptor is released whatever it returns */
						if (t->c->nr != SYS_close) {
							r.orig_rax = -1;
							ptrace(PTRACE_SETREGS, p, 0, &r);
						}
					} else {
						if (t->c->rw && (long)r.rdx > s->k) {
							r.rdx = s->k;
							ptrace(PTRACE_SETREGS, p, 0, &r);
						}
						t->killafter = s->what == 't';
					}
				}
			}
		} else {
			t->in = 0;
			if (t->c) {
				long res = r.rax;
				if (t->faked) {
					res = -t->err;
					r.rax = res;
					ptrace(PTRACE_SETREGS, p, 0, &r);
				}
				if (!strcmp(t->c->name, "open") && res >= 0 && res < 65536) {
					fds[res] = 1;
					free(fdpath[res]);
					fdpath[res] = strdup(t->path);
				}
				if (t->c->nr == SYS_close && t->a[0] < 65536)
					fds[t->a[0]] = 0;
				fprintf(out, "%d %s %ld %ld %ld %s\n", t->n, t->c->name, t->c->kind == FD ? t->a[0] : -1, t->c->rw ? t->a[2] : -1, res, t->path);
				if (t->killafter) {
					fflush(out);
					kill(root, SIGKILL);
				}
			}
		}
		ptrace(PTRACE_SYSCALL, p, 0, 0);
	}
}
