// The fts functions live in the C library, which MemorySanitizer does not instrument: what they hand out is initialised.
#include <sys/types.h>
#include <sys/stat.h>
#include <fts.h>
#include <string.h>
#include <sanitizer/msan_interface.h>

FTSENT *__real_fts_read(FTS *);
FTSENT *__wrap_fts_read(FTS *f)
{
	FTSENT *e = __real_fts_read(f);
	if (e) {
		__msan_unpoison(e, sizeof(*e));
		__msan_unpoison_string(e->fts_path);
		__msan_unpoison_string(e->fts_accpath);
		__msan_unpoison(e->fts_name, e->fts_namelen + 1);
		if (e->fts_statp)
			__msan_unpoison(e->fts_statp, sizeof(*e->fts_statp));
		if (e->fts_parent) {
			__msan_unpoison(e->fts_parent, sizeof(*e->fts_parent));
			__msan_unpoison(e->fts_parent->fts_name, e->fts_parent->fts_namelen + 1);
		}
	}
	return e;
}
