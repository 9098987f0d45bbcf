// Fault injector: runs a command, stops it (seccomp + ptrace) at the file
// system calls touching some paths, and kills it, fails or shortens the call
// as the control block asks. The control block is a file shared by mmap, so
// that the harness changes it while the command runs.
//
//   inject CONTROL TRACE PATH... -- command...
//
// TRACE is "-" or a file receiving one line per matching call.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <linux/audit.h>
#include <signal.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>

struct ctl {
	int32_t mode;     // 0 off, 1 error, 2 short transfer, 3 kill before, 4 kill after a torn transfer
	int32_t err;      // errno for mode 1
	int32_t mask;     // classes of calls
	int32_t skip;     // matching calls to let through first
	int32_t count;    // then how many to hit; negative: no limit
	int32_t permille; // chance to hit each of them
	uint32_t rng;
	uint32_t hits;    // written back: calls hit
	uint32_t events;  // written back: matching calls seen
	uint32_t all;     // written back: calls on the paths, whatever the class
	int32_t unit;     // granularity of torn and short transfers
	uint32_t maskseen;
};

enum { READ = 1, WRITE = 2, OPEN = 4, SEEK = 8, STAT = 16, META = 32, SYNC = 64, LOCK = 128, ACCEPT = 256 };

struct call { int nr, class, kind; const char *name; }; // kind: 0 fd, 1 path in arg0, 2 path in arg1
static struct call calls[] = {
	{SYS_read, READ, 0, "read"}, {SYS_pread64, READ, 0, "pread64"}, {SYS_readv, READ, 0, "readv"}, {SYS_preadv, READ, 0, "preadv"},
	{SYS_write, WRITE, 0, "write"}, {SYS_pwrite64, WRITE, 0, "pwrite64"}, {SYS_writev, WRITE, 0, "writev"}, {SYS_pwritev, WRITE, 0, "pwritev"},
	{SYS_open, OPEN, 1, "open"}, {SYS_openat, OPEN, 2, "openat"}, {SYS_openat2, OPEN, 2, "openat2"}, {SYS_creat, OPEN, 1, "creat"},
	{SYS_lseek, SEEK, 0, "lseek"},
	{SYS_fstat, STAT, 0, "fstat"}, {SYS_stat, STAT, 1, "stat"}, {SYS_lstat, STAT, 1, "lstat"}, {SYS_newfstatat, STAT, 2, "newfstatat"}, {SYS_statx, STAT, 2, "statx"},
	{SYS_ftruncate, META, 0, "ftruncate"}, {SYS_fallocate, META, 0, "fallocate"}, {SYS_truncate, META, 1, "truncate"},
	{SYS_rename, META, 1, "rename"}, {SYS_renameat, META, 2, "renameat"}, {SYS_renameat2, META, 2, "renameat2"},
	{SYS_unlink, META, 1, "unlink"}, {SYS_unlinkat, META, 2, "unlinkat"}, {SYS_link, META, 1, "link"}, {SYS_linkat, META, 2, "linkat"},
	{SYS_fsync, SYNC, 0, "fsync"}, {SYS_fdatasync, SYNC, 0, "fdatasync"},
	{SYS_fcntl, LOCK, 0, "fcntl"},
	{SYS_accept4, ACCEPT, 0, "accept4"}, {SYS_accept, ACCEPT, 0, "accept"},
};
#define NCALLS ((int)(sizeof calls / sizeof *calls))

static pid_t child;
static void forward(int sig) { if (child > 0) kill(child, sig); }

static char *paths[64];
static int npaths;

static int matches(const char *p) {
	for (int i = 0; i < npaths; i++) {
		size_t n = strlen(paths[i]);
		if (!strncmp(p, paths[i], n) && (p[n] == 0 || p[n] == '-' || p[n] == '.' || p[n] == '['))
			return 1;
	}
	return 0;
}

static int readstr(pid_t pid, unsigned long addr, char *buf, size_t len) {
	size_t got = 0;
	while (got < len - 1) {
		size_t k = 4096 - ((addr + got) & 4095);
		if (k > len - 1 - got) k = len - 1 - got;
		struct iovec l = {buf + got, k}, r = {(void *)(addr + got), k};
		ssize_t n = process_vm_readv(pid, &l, 1, &r, 1, 0);
		if (n <= 0) return -1;
		if (memchr(buf + got, 0, n)) return 0;
		got += n;
	}
	buf[got] = 0;
	return 0;
}

static int pathof(pid_t pid, struct call *c, struct user_regs_struct *r, char *buf, size_t len) {
	char link[64];
	if (c->kind == 0) {
		snprintf(link, sizeof link, "/proc/%d/fd/%d", pid, (int)r->rdi);
		ssize_t n = readlink(link, buf, len - 1);
		if (n < 0) return -1;
		buf[n] = 0;
		return 0;
	}
	char tmp[4096];
	if (readstr(pid, c->kind == 1 ? r->rdi : r->rsi, tmp, sizeof tmp) < 0) return -1;
	if (tmp[0] == '/') { snprintf(buf, len, "%s", tmp); return 0; }
	if (tmp[0] == 0 && c->kind == 2) {
		snprintf(link, sizeof link, "/proc/%d/fd/%d", pid, (int)r->rdi);
		ssize_t n = readlink(link, buf, len - 1);
		if (n < 0) return -1;
		buf[n] = 0;
		return 0;
	}
	snprintf(link, sizeof link, "/proc/%d/cwd", pid);
	char cwd[4096];
	ssize_t n = readlink(link, cwd, sizeof cwd - 1);
	if (n < 0) return -1;
	cwd[n] = 0;
	snprintf(buf, len, "%s/%s", cwd, !strncmp(tmp, "./", 2) ? tmp + 2 : tmp);
	return 0;
}

int main(int argc, char **argv) {
	if (argc < 5) return 125;
	int i = 3;
	for (; i < argc && strcmp(argv[i], "--"); i++)
		if (npaths < 64) paths[npaths++] = argv[i];
	if (i >= argc - 1) return 125;
	char **cmd = argv + i + 1;
	int fd = open(argv[1], O_RDWR | O_CREAT, 0644);
	if (fd < 0 || ftruncate(fd, sizeof(struct ctl)) < 0) return 125;
	volatile struct ctl *c = mmap(0, sizeof(struct ctl), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	if (c == MAP_FAILED) return 125;
	close(fd);
	FILE *trace = strcmp(argv[2], "-") ? fopen(argv[2], "w") : 0;

	child = fork();
	if (child < 0) return 125;
	if (child == 0) {
		struct sock_filter f[4 + 2 * NCALLS];
		int n = 0;
		f[n++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
		for (int k = 0; k < NCALLS; k++) {
			f[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned)calls[k].nr, 0, 1);
			f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRACE);
		}
		f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
		struct sock_fprog prog = {n, f};
		if (ptrace(PTRACE_TRACEME, 0, 0, 0) < 0) _exit(126);
		raise(SIGSTOP);
		if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) < 0) _exit(126);
		if (prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &prog) < 0) _exit(126);
		execv(cmd[0], cmd);
		_exit(126);
	}
	struct sigaction sa = {0};
	sa.sa_handler = forward;
	sigaction(SIGINT, &sa, 0);
	sigaction(SIGTERM, &sa, 0);
	sigaction(SIGHUP, &sa, 0);

	int st;
	if (waitpid(child, &st, 0) < 0 || !WIFSTOPPED(st)) return 126;
	if (ptrace(PTRACE_SETOPTIONS, child, 0, PTRACE_O_EXITKILL | PTRACE_O_TRACECLONE | PTRACE_O_TRACEFORK | PTRACE_O_TRACEVFORK | PTRACE_O_TRACESECCOMP | PTRACE_O_TRACESYSGOOD) < 0) return 126;
	ptrace(PTRACE_CONT, child, 0, 0);
	for (;;) {
		pid_t pid = waitpid(-1, &st, __WALL);
		if (pid < 0) {
			if (errno == EINTR) continue;
			return 126;
		}
		if (WIFEXITED(st) || WIFSIGNALED(st)) {
			if (pid != child) continue;
			if (trace) fclose(trace);
			if (WIFEXITED(st)) return WEXITSTATUS(st);
			signal(WTERMSIG(st), SIG_DFL);
			if (WTERMSIG(st) == SIGKILL) return 137;
			raise(WTERMSIG(st));
			return 128 + WTERMSIG(st);
		}
		if (!WIFSTOPPED(st)) continue;
		int sig = WSTOPSIG(st), event = st >> 16;
		if (sig == (SIGTRAP | 0x80)) { // exit of a torn transfer
			kill(child, SIGKILL);
			continue;
		}
		if (event == PTRACE_EVENT_SECCOMP) {
			struct user_regs_struct r;
			int how = PTRACE_CONT;
			if (ptrace(PTRACE_GETREGS, pid, 0, &r) == 0) {
				struct call *k = 0;
				for (int j = 0; j < NCALLS; j++)
					if (calls[j].nr == (int)r.orig_rax) k = &calls[j];
				char p[4200];
				if (k && pathof(pid, k, &r, p, sizeof p) == 0 && matches(p)) {
					c->all++;
					c->maskseen |= k->class;
					if (trace) {
						const char *b = strrchr(p, '/');
						fprintf(trace, "%s %s %llu %llu\n", k->name, b ? b + 1 : p, (unsigned long long)r.rdx, (unsigned long long)r.r10);
						fflush(trace);
					}
					if (c->mode && (c->mask & k->class)) {
						unsigned e = c->events++;
						int hit = e >= (unsigned)c->skip && (c->count < 0 || c->hits < (unsigned)c->count);
						if (hit && c->permille < 1000) {
							c->rng = c->rng * 1664525u + 1013904223u;
							hit = (int)((c->rng >> 8) % 1000) < c->permille;
						}
						if (hit) {
							int unit = c->unit > 0 ? c->unit : 1;
							switch (c->mode) {
							case 1:
								c->hits++;
								r.orig_rax = -1;
								r.rax = -(long)c->err;
								ptrace(PTRACE_SETREGS, pid, 0, &r);
								break;
							case 2:
								if (k->kind == 0 && (k->class & (READ | WRITE)) && strchr(k->name, 'v') == 0 && r.rdx > (unsigned)unit) {
									c->hits++;
									c->rng = c->rng * 1664525u + 1013904223u;
									r.rdx = unit + (c->rng >> 8) % (r.rdx - unit);
									ptrace(PTRACE_SETREGS, pid, 0, &r);
								}
								break;
							case 3:
								c->hits++;
								kill(child, SIGKILL);
								continue;
							case 4:
								c->hits++;
								if ((k->class & WRITE) && strchr(k->name, 'v') == 0 && r.rdx > (unsigned)unit) {
									c->rng = c->rng * 1664525u + 1013904223u;
									unsigned n = (r.rdx - 1) / unit;
									r.rdx = unit * (1 + (c->rng >> 8) % n);
									ptrace(PTRACE_SETREGS, pid, 0, &r);
								}
								how = PTRACE_SYSCALL;
								break;
							}
						}
					}
				}
			}
			ptrace(how, pid, 0, 0);
			continue;
		}
		if (event) { ptrace(PTRACE_CONT, pid, 0, 0); continue; }
		if (sig == SIGSTOP && pid != child) sig = 0; // start of a thread
		if (sig == SIGTRAP) sig = 0;
		ptrace(PTRACE_CONT, pid, 0, sig);
	}
}
