/* Linked into a build with -Wl,--wrap: records every heap block and stream that selint's own code acquires and
 * reports to $LEAK_LOG, when the process exits, what it did not release, with the place of the call. */
#define _GNU_SOURCE
#undef _FORTIFY_SOURCE
#include <dirent.h>
#include <fts.h>
#include <malloc.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <unistd.h>
#include <fcntl.h>

void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
void *__real_reallocarray(void *, size_t, size_t);
char *__real_strdup(const char *); char *__real_strndup(const char *, size_t);
ssize_t __real_getline(char **, size_t *, FILE *); ssize_t __real_getdelim(char **, size_t *, int, FILE *); ssize_t __real___getdelim(char **, size_t *, int, FILE *);
int __real_vasprintf(char **, const char *, va_list);
FILE *__real_fopen(const char *, const char *); FILE *__real_fopen64(const char *, const char *); int __real_fclose(FILE *);
FTS *__real_fts_open(char *const *, int, int (*)(const FTSENT **, const FTSENT **)); int __real_fts_close(FTS *);

struct rec { void *p; void *at; size_t size; char kind; };
static struct rec *tab;
static size_t cap, used;          /* open addressing; tombstone: p == (void *) 1 */
static size_t live, live_bytes, peak_bytes, blocks, streams, peak_streams, opened;

static size_t hash(void *p) { uint64_t x = (uintptr_t) p; x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 29; return (size_t) x; }

static void put(void *p, void *at, size_t size, char kind);

static void grow(void)
{
	struct rec *o = tab;
	size_t oc = cap;
	cap = cap ? cap * 2 : 1 << 12;
	tab = __real_calloc(cap, sizeof(*tab));
	used = 0;
	for (size_t i = 0; i < oc; i++) {
		if (o[i].p && o[i].p != (void *) 1) {
			size_t h = hash(o[i].p) & (cap - 1);
			while (tab[h].p) h = (h + 1) & (cap - 1);
			tab[h] = o[i];
			used++;
		}
	}
	__real_free(o);
}

static struct rec *find(void *p)
{
	if (!cap) return NULL;
	size_t h = hash(p) & (cap - 1);
	while (tab[h].p) {
		if (tab[h].p == p) return &tab[h];
		h = (h + 1) & (cap - 1);
	}
	return NULL;
}

static void put(void *p, void *at, size_t size, char kind)
{
	if (!p) return;
	struct rec *r = find(p);
	if (!r) {
		if (used * 2 >= cap) grow();
		size_t h = hash(p) & (cap - 1);
		while (tab[h].p) h = (h + 1) & (cap - 1);
		r = &tab[h];
		used++;
	} else if (r->kind == 'm') {
		live--;
		live_bytes -= r->size;
	}
	*r = (struct rec) { p, at, size, kind };
	if (kind == 'm') {
		blocks++;
		live++;
		live_bytes += size;
		if (live_bytes > peak_bytes) peak_bytes = live_bytes;
	} else {
		opened++;
		if (++streams > peak_streams) peak_streams = streams;
	}
}

static void drop(void *p)
{
	struct rec *r = p ? find(p) : NULL;
	if (!r) return;
	if (r->kind == 'm') { live--; live_bytes -= r->size; } else { streams--; }
	r->p = (void *) 1;
}

#define AT __builtin_return_address(0)
#define M(p) do { void *q_ = (p); if (q_) put(q_, AT, malloc_usable_size(q_), 'm'); } while (0)

void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); M(p); return p; }
void *__wrap_calloc(size_t n, size_t m) { void *p = __real_calloc(n, m); M(p); return p; }
void *__wrap_realloc(void *o, size_t n) { void *p = __real_realloc(o, n); if (p || n == 0) drop(o); M(p); return p; }
void *__wrap_reallocarray(void *o, size_t n, size_t m) { void *p = __real_reallocarray(o, n, m); if (p) drop(o); M(p); return p; }
void __wrap_free(void *p) { drop(p); __real_free(p); }
char *__wrap_strdup(const char *s) { char *p = __real_strdup(s); M(p); return p; }
char *__wrap_strndup(const char *s, size_t n) { char *p = __real_strndup(s, n); M(p); return p; }
#define GL(name, call) ssize_t r = call; if (*l != o) { drop(o); } if (*l) { drop(*l); M(*l); } return r;
ssize_t __wrap_getline(char **l, size_t *n, FILE *f) { char *o = *l; GL(getline, __real_getline(l, n, f)) }
ssize_t __wrap_getdelim(char **l, size_t *n, int d, FILE *f) { char *o = *l; GL(getdelim, __real_getdelim(l, n, d, f)) }
ssize_t __wrap___getdelim(char **l, size_t *n, int d, FILE *f) { char *o = *l; GL(getdelim, __real___getdelim(l, n, d, f)) }
int __wrap_vasprintf(char **s, const char *f, va_list a) { int r = __real_vasprintf(s, f, a); if (r >= 0) M(*s); return r; }
int __wrap___vasprintf_chk(char **s, int fl, const char *f, va_list a) { int r = __real_vasprintf(s, f, a); if (r >= 0) M(*s); return r; }
int __wrap_asprintf(char **s, const char *f, ...) { va_list a; va_start(a, f); int r = __real_vasprintf(s, f, a); va_end(a); if (r >= 0) M(*s); return r; }
int __wrap___asprintf_chk(char **s, int fl, const char *f, ...) { va_list a; va_start(a, f); int r = __real_vasprintf(s, f, a); va_end(a); if (r >= 0) M(*s); return r; }
FILE *__wrap_fopen(const char *p, const char *m) { FILE *f = __real_fopen(p, m); if (f) put(f, AT, 0, 'f'); return f; }
FILE *__wrap_fopen64(const char *p, const char *m) { FILE *f = __real_fopen64(p, m); if (f) put(f, AT, 0, 'f'); return f; }
int __wrap_fclose(FILE *f) { drop(f); return __real_fclose(f); }
FTS *__wrap_fts_open(char *const *p, int o, int (*c)(const FTSENT **, const FTSENT **)) { FTS *f = __real_fts_open(p, o, c); if (f) put(f, AT, 0, 't'); return f; }
int __wrap_fts_close(FTS *f) { drop(f); return __real_fts_close(f); }

extern char __executable_start;

__attribute__((destructor)) static void report(void)
{
	const char *log = getenv("LEAK_LOG");
	if (!log) return;
	int fd = open(log, O_WRONLY | O_APPEND | O_CREAT, 0600);
	if (fd < 0) return;
	dprintf(fd, "stats blocks=%zu live=%zu peak=%zu opened=%zu streams=%zu peak_streams=%zu\n", blocks, live, peak_bytes, opened, streams, peak_streams);
	int n = 0;
	for (size_t i = 0; i < cap && n < 20; i++) {
		if (tab[i].p && tab[i].p != (void *) 1) {
			dprintf(fd, "left %c %#lx %zu\n", tab[i].kind, (unsigned long) ((char *) tab[i].at - &__executable_start), tab[i].size);
			n++;
		}
	}
	DIR *d = opendir("/proc/self/fd");
	if (d) {
		struct dirent *e;
		while ((e = readdir(d))) {
			int k = atoi(e->d_name);
			if (e->d_name[0] == '.' || k <= 2 || k == fd || k == dirfd(d)) continue;
			char b[64], t[400];
			snprintf(b, sizeof(b), "/proc/self/fd/%d", k);
			ssize_t l = readlink(b, t, sizeof(t) - 1);
			t[l < 0 ? 0 : l] = 0;
			dprintf(fd, "fd %d %s\n", k, t);
		}
		closedir(d);
	}
	close(fd);
}
