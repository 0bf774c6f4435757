/* Stand-in for emacsclient: only records its arguments and answers as told.
 * FAKE_LOG:  file to append a record to (one write(2) per run)
 * FAKE_PLAN: comma separated outcomes, the k-th run takes the k-th one, the last
 *            one is repeated: o ok, prints org-protocol; n prints nil; e prints nothing;
 *            r reads its standard input till the end, then as o;
 *            x prints "not org-protocol"; 1 exit 1; 9 exit 9; k killed by signal
 *            An argument that contains "/out=" tells the outcome of its run instead.
 * FAKE_GATE: if set, a file name prefix: the run creates PREFIX.started.PID and
 *            waits until PREFIX.go exists (used to overlap runs).
 * FAKE_PLACE: file to append the working directory and the environment to,
 *            each string ends with a NUL, the record with another one.
 * FAKE_SLEEP: K:N the K-th run waits N ms before it ends. */
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <unistd.h>

int main(int argc, char **argv)
{
	const char *log = getenv("FAKE_LOG");
	const char *plan = getenv("FAKE_PLAN");
	long run = 0;
	if (!plan || !*plan)
		plan = "o";
	if (log) {
		size_t size = 64;
		for (int i = 1; i < argc; i++)
			size += strlen(argv[i]) + 24;
		char *buf = malloc(size), *p = buf;
		p += sprintf(p, "R%d\n", argc - 1);
		for (int i = 1; i < argc; i++) {
			size_t n = strlen(argv[i]);
			p += sprintf(p, "%zu:", n);
			memcpy(p, argv[i], n);
			p += n;
			*p++ = '\n';
		}
		int fd = open(log, O_RDWR | O_CREAT | O_APPEND, 0644);
		int cnt = -1;
		char name[4096];
		snprintf(name, sizeof name, "%s.n", log);
		cnt = open(name, O_RDWR | O_CREAT, 0644);
		if (fd < 0 || cnt < 0)
			return 99;
		flock(cnt, LOCK_EX);
		char num[32] = "";
		ssize_t k = read(cnt, num, sizeof num - 1);
		if (k > 0)
			run = atol(num);
		lseek(cnt, 0, SEEK_SET);
		int m = snprintf(num, sizeof num, "%ld\n", run + 1);
		if (write(cnt, num, m) != m || write(fd, buf, p - buf) != p - buf)
			return 99;
		flock(cnt, LOCK_UN);
		close(fd);
		close(cnt);
	}
	const char *place = getenv("FAKE_PLACE");
	if (place) {
		extern char **environ;
		char cwd[8192] = "?";
		FILE *f = fopen(place, "a");
		if (!f || !getcwd(cwd, sizeof cwd))
			return 99;
		fprintf(f, "%s%c", cwd, 0);
		for (char **e = environ; *e; e++)
			if (**e)
				fprintf(f, "%s%c", *e, 0);
		fputc(0, f);
		fclose(f);
	}
	const char *gate = getenv("FAKE_GATE");
	if (gate && *gate) {
		char name[4096];
		struct stat st;
		snprintf(name, sizeof name, "%s.started.%d", gate, (int)getpid());
		close(open(name, O_CREAT | O_WRONLY, 0644));
		snprintf(name, sizeof name, "%s.go", gate);
		for (int i = 0; i < 20000 && stat(name, &st) != 0; i++)
			usleep(1000);
	}
	const char *o = plan;
	for (long i = 0; i < run; i++) {
		const char *c = strchr(o, ',');
		if (!c)
			break;
		o = c + 1;
	}
	for (int i = 1; i < argc; i++) {
		const char *own = strstr(argv[i], "/out=");
		if (own)
			o = own + strlen("/out=");
	}
	fputs("fake diagnostics\n" + (*o == 'q' ? 0 : strlen("fake diagnostics\n")), stderr);
	if (*o == 'r') {
		char buf[4096];
		while (read(0, buf, sizeof buf) > 0)
			;
	}
	const char *sl = getenv("FAKE_SLEEP");
	long which, ms;
	if (sl && sscanf(sl, "%ld:%ld", &which, &ms) == 2 && which == run)
		for (; ms > 0; ms -= 100)
			usleep(ms < 100 ? ms * 1000 : 100000);
	switch (*o) {
	case 'n': puts("nil"); return 0;
	case 'e': return 0;
	case 'x': puts("not org-protocol"); return 0;
	case '1': puts("failed"); fputs("fake failure\n", stderr); return 1;
	case '9': fputs("can't find socket\n", stderr); return 9;
	case 'k': raise(SIGKILL); return 98;
	}
	puts("org-protocol");
	return 0;
}
