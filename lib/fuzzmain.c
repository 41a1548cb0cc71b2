// Driver for coverage-guided fuzzing: one input holds several files, separated by lines "%%%X" (X: t i f m a p c);
// they are written to a scratch directory of this process and analysed with all checks.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/stat.h>
#include <fcntl.h>

int selint_main(int, char **);

static char dir[64];
static const char *names[] = { "t0.te", "i0.if", "f0.fc", "modules.conf", "access_vectors", "obj_perm_sets.spt", "x.conf", "t1.te", "i1.if" };
static char path[9][128];
static const char *kinds = "tifmapcui";

static void cleanup(void)
{
	for (int i = 0; i < 9; i++)
		unlink(path[i]);
	rmdir(dir);
}

int main(int argc, char **argv)
{
	static char buf[1 << 17];
	int fd = argc > 1 ? open(argv[1], O_RDONLY) : 0;
	ssize_t n = 0, r;
	while (n < (ssize_t)sizeof(buf) - 1 && (r = read(fd, buf + n, sizeof(buf) - 1 - n)) > 0)
		n += r;
	snprintf(dir, sizeof(dir), "/dev/shm/selint-fuzz-%d", (int)getpid());
	mkdir(dir, 0700);
	for (int i = 0; i < 9; i++)
		snprintf(path[i], sizeof(path[i]), "%s/%s", dir, names[i]);
	atexit(cleanup);
	char *a[40];
	int na = 0, conf = 0;
	a[na++] = "selint";
	a[na++] = "-s";
	a[na++] = "-S";
	int present[9] = { 0 };
	ssize_t pos = 0;
	int k = 0;
	while (pos <= n) {
		char *m = pos < n ? memmem(buf + pos, n - pos, "\n%%%", 4) : NULL;
		ssize_t end = m ? m - buf : n;
		FILE *f = fopen(path[k], "a");
		if (f) {
			fwrite(buf + pos, 1, end - pos, f);
			fclose(f);
		}
		present[k] = 1;
		if (!m)
			break;
		pos = end + 4;
		if (pos < n) {
			const char *q = memchr(kinds, buf[pos], 8);
			k = q ? q - kinds : 8;
			pos++;
			if (pos < n && buf[pos] == '\n')
				pos++;
		}
	}
	static const char *on[] = { "C-001", "C-006", "C-007", "S-010" };
	for (int i = 0; i < 4; i++) {
		a[na++] = "-e";
		a[na++] = (char *)on[i];
	}
	if (present[6]) {
		a[na++] = "-c";
		a[na++] = path[6];
	}
	for (int i = 0; i < 9; i++)
		if (present[i] && i != 6)
			a[na++] = path[i];
	a[na] = NULL;
	freopen("/dev/null", "w", stdout);
	int rc = selint_main(na, a);
	if (rc != 0 && rc != 64 && rc != 65 && rc != 70 && rc != 78)
		abort();
	return 0;
}
