// Counts executed branches (every basic block of selint's own code) and the deepest use of the stack; reported at exit.
// With STEP_LIMIT the process ends with status 98 once it took more steps.
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <string.h>
#include <fcntl.h>

static unsigned long long steps, limit = ~0ull;
static char *low, *high;

__attribute__((no_sanitize_coverage)) static void report(void)
{
	const char *p = getenv("STEP_LOG");
	char buf[128];
	if (!p)
		return;
	int fd = open(p, O_WRONLY | O_CREAT | O_TRUNC, 0600);
	int n = snprintf(buf, sizeof(buf), "steps=%llu stack=%ld\n", steps, low ? (long)(high - low) : 0);
	if (write(fd, buf, n) != n)
		_exit(97);
	close(fd);
}

__attribute__((constructor, no_sanitize_coverage)) static void start(void)
{
	const char *l = getenv("STEP_LIMIT");
	if (l)
		limit = strtoull(l, NULL, 10);
	high = __builtin_frame_address(0);
	atexit(report);
}

__attribute__((no_sanitize_coverage)) void __sanitizer_cov_trace_pc(void)
{
	char *f = __builtin_frame_address(0);
	if (!low || f < low)
		low = f;
	if (++steps > limit) {
		report();
		_exit(98);
	}
}
