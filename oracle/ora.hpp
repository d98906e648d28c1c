#include <malloc.h>
// Test bed shared by the groups: hooked allocation and system calls, failures, images.
#pragma once
#include "img.hpp"
#include <errno.h>
#include <fcntl.h>
#include <dirent.h>
#include <stdarg.h>
#include <stdio.h>
#include <sys/stat.h>
#include <sys/sysmacros.h>
#include <sys/types.h>
#include <unistd.h>
extern "C" {
#include "squash.h"
#include "squash/hash.h"
#include "squash/stack.h"
}

// ---- failures of the environment, counted down by the tests (calls of the library only) ----
static std::set<void *> ora_live;
static long ora_fail = -1;	// allocation number ora_fail fails (counting from 0)
static long ora_nalloc = 0;
static bool ora_hit = false;	// a failure was injected
static long ora_io_fail = -1, ora_nio = 0;
static int ora_in_lib_fds = 0;

static bool ora_oom() { if (ora_fail >= 0 && ora_nalloc++ == ora_fail) { ora_hit = true; errno = ENOMEM; return true; } return false; }
static bool ora_ioerr() { if (ora_io_fail >= 0 && ora_nio++ == ora_io_fail) { ora_hit = true; errno = EIO; return true; } return false; }

static void failed(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
static std::string context;
static void failed(const char *fmt, ...)
{
	va_list ap;
	printf("FAILING INPUT: %s\n  ", context.c_str());
	va_start(ap, fmt);
	vprintf(fmt, ap);
	va_end(ap);
	printf("\n");
	fflush(stdout);
	_exit(1);
}
#define CHECK(c, ...) do { if (!(c)) failed(__VA_ARGS__); } while (0)

extern "C" {
void *ora_malloc(size_t n) { if (ora_oom()) return NULL; void *p = malloc(n); memset(p, 0xdb, n); ora_live.insert(p); return p; }
void *ora_calloc(size_t a, size_t b) { if (ora_oom()) return NULL; void *p = calloc(a, b); ora_live.insert(p); return p; }
void *ora_realloc(void *q, size_t n)
{
	if (ora_oom()) return NULL;
	if (q && !ora_live.count(q)) failed("realloc of a block that is not allocated");
	size_t had = q ? malloc_usable_size(q) : 0;
	void *p = realloc(q, n);
	if (p && n > had) memset((char *)p + had, 0xdb, n - had);
	if (q) ora_live.erase(q);
	if (p) ora_live.insert(p);
	return p;
}
void ora_free(void *p)
{
	if (p && !ora_live.erase(p)) failed("free of a block that is not allocated (double free)");
	free(p);
}
char *ora_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)ora_malloc(n); if (p) memcpy(p, s, n); return p; }
int ora_dup(int fd) { if (ora_ioerr()) { errno = EMFILE; return -1; } int r = dup(fd); if (r >= 0) ora_in_lib_fds++; return r; }
int ora_close(int fd) { int r = close(fd); if (r == 0) ora_in_lib_fds--; return r; }
static std::set<FILE *> ora_files;
FILE *ora_fopen(const char *p, const char *m) { if (ora_ioerr()) return NULL; FILE *f = fopen(p, m); if (f) ora_files.insert(f); return f; }
size_t ora_fwrite(const void *p, size_t a, size_t b, FILE *f) { if (ora_ioerr()) { fwrite(p, 1, a * b / 2, f); return 0; } return fwrite(p, a, b, f); }
int ora_fclose(FILE *f) { if (!ora_files.erase(f)) failed("fclose of a stream that is not open"); bool e = ora_ioerr(); fclose(f); return e ? -1 : 0; }
}

// ---- random numbers ----
static uint64_t rng = 88172645463325252ull;
static uint32_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return (uint32_t)(rng >> 16); }
static uint32_t below(uint32_t n) { return n ? rnd() % n : 0; }

// ---- one mounted image, in an allocation of exactly its size so that any access beyond it is caught ----
struct Mount {
	Image &im;
	sqfs fs;
	uint8_t *mem;
	size_t off;
	explicit Mount(Image &i, size_t o = 0) : im(i), off(o)
	{
		mem = (uint8_t *)malloc(off + im.bytes.size());
		memset(mem, 0x3c, off);
		memcpy(mem + off, im.bytes.data(), im.bytes.size());
		memset(&fs, 0, sizeof fs);
		sqfs_err e = sqfs_open_image(&fs, mem, off);
		CHECK(e == SQFS_OK, "valid image refused: error %d", e);
		fs.root_alias = fs.root_alias2 = NULL;
	}
	~Mount() { sqfs_destroy(&fs); free(mem); }
	sqfs_inode get(const Node *n)
	{
		sqfs_inode i;
		sqfs_err e = sqfs_inode_get(&fs, &i, n->id);
		CHECK(e == SQFS_OK, "inode %u of a valid image cannot be read: %d", n->ino, e);
		return i;
	}
};

static std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
static std::string fmt(const char *f, ...)
{
	char b[4000];
	va_list ap;
	va_start(ap, f);
	vsnprintf(b, sizeof b, f, ap);
	va_end(ap);
	return b;
}
