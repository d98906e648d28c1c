// The interception layer of sample/, with every system call it makes replaced by a stand-in that records what it was
// given: nothing outside this process is touched. The overlay directory is a set of names.
extern "C" {
#include "enclose_io_common.h"
extern char *mkdir_workdir;
}
static const char *PFX = "/__enclose_io_memfs__";
struct Sys { std::string f, path; const void *p, *q, *z; long a, b, c; };
static std::vector<Sys> sysc;
static long sysr; static int syserr; static void *sysp;
static std::string WD;				// the overlay directory
static std::map<std::string, int> ov;		// what is in it: 1 directory, 2 file
static std::string norm(const std::string &s) { std::string r; for (size_t i = 0; i < s.size(); i++) if (!(s[i] == '/' && (i + 1 == s.size() || s[i + 1] == '/'))) r += s[i]; return r; }
static bool in_ov(const char *p, std::string *rest = nullptr) { std::string s = p; if (WD.empty() || s.compare(0, WD.size(), WD)) return false; if (rest) *rest = norm(s.substr(WD.size())); return true; }
static Sys *rec(const char *f, const char *path) { Sys s; s.f = f; s.path = path ? path : "(none)"; s.p = s.q = s.z = 0; s.a = s.b = s.c = 0; sysc.push_back(s); errno = syserr; return &sysc.back(); }
static int ov_get(const std::string &r) { if (r.empty()) return 1; auto i = ov.find(r); return i == ov.end() ? 0 : i->second; }
static std::string up(const std::string &r) { return r.substr(0, r.rfind('/')); }
extern "C" {
int sys_stat(const char *p, struct stat *b)
{
	std::string r;
	if (in_ov(p, &r)) {
		int k = ov_get(r);
		if (!k) { errno = ENOENT; return -1; }
		memset(b, 0, sizeof *b);
		b->st_mode = k == 1 ? S_IFDIR | 0700 : S_IFREG | 0600; b->st_ino = 777;
		return 0;
	}
	rec("stat", p)->p = b;
	return sysr;
}
int sys_lstat(const char *p, struct stat *b) { rec("lstat", p)->p = b; return sysr; }
ssize_t sys_readlink(const char *p, char *b, size_t n) { Sys *s = rec("readlink", p); s->p = b; s->a = n; return sysr; }
DIR *sys_opendir(const char *p) { rec("opendir", p); return (DIR *)sysp; }
int sys_scandir(const char *p, void *l, void *f, void *c) { Sys *s = rec("scandir", p); s->p = l; s->q = f; s->z = c; return sysr; }
int sys_access(const char *p, int m) { rec("access", p)->a = m; return sysr; }
int sys_open(const char *p, int fl, ...)
{
	va_list ap; va_start(ap, fl); int m = fl & O_CREAT ? va_arg(ap, int) : 0; va_end(ap);
	Sys *s = rec("open", p); s->a = fl; s->b = m;
	std::string r;
	if (in_ov(p, &r) && fl & O_CREAT) { if (ov_get(up(r)) != 1) { errno = ENOENT; return -1; } if (!ov_get(r)) ov[r] = 2; }
	return sysr;
}
int sys_openat(int d, const char *p, int fl, ...)
{
	va_list ap; va_start(ap, fl); int m = fl & O_CREAT ? va_arg(ap, int) : 0; va_end(ap);
	Sys *s = rec("openat", p); s->a = fl; s->b = m; s->c = d;
	return sysr;
}
int sys_chdir(const char *p) { rec("chdir", p); std::string r; if (in_ov(p, &r)) return ov_get(r) == 1 ? 0 : (errno = ENOTDIR, -1); return sysr; }
char *sys_getcwd(char *b, size_t n) { Sys *s = rec("getcwd", nullptr); s->p = b; s->a = n; return (char *)sysp; }
int sys_mkdir(const char *p, mode_t m)
{
	std::string r;
	if (WD.empty() && !strncmp(p, "/tmp/", 5)) { WD = p; if (m != 0700) failed("the overlay directory is made with mode %o", m); return 0; }
	if (!in_ov(p, &r)) { rec("mkdir", p)->a = m; return sysr; }
	if (ov_get(r)) { errno = EEXIST; return -1; }
	if (ov_get(up(r)) != 1) { errno = ENOENT; return -1; }
	ov[r] = 1;
	return 0;
}
int sys_execv(const char *p, char *const *a) { rec("execv", p)->p = a; return sysr; }
void *sys_dlopen(const char *p, int m) { rec("dlopen", p)->a = m; return sysp; }
int sys_atexit(void (*)(void)) { return 0; }
int sys_nftw(const char *, void *, int, int) { return 0; }
int sys_unlink(const char *) { return 0; }
int sys_rmdir(const char *) { return 0; }
int sys_setenv(const char *, const char *, int) { return 0; }
ssize_t sys_read(int d, void *b, size_t n) { Sys *s = rec("read", nullptr); s->p = b; s->a = n; s->c = d; return sysr; }
ssize_t sys_pread(int d, void *b, size_t n, off_t o) { Sys *s = rec("pread", nullptr); s->p = b; s->a = n; s->b = o; s->c = d; return sysr; }
ssize_t sys_readv(int d, const struct iovec *v, int n) { Sys *s = rec("readv", nullptr); s->p = v; s->a = n; s->c = d; return sysr; }
off_t sys_lseek(int d, off_t o, int w) { Sys *s = rec("lseek", nullptr); s->a = o; s->b = w; s->c = d; return sysr; }
int sys_fstat(int d, struct stat *b) { Sys *s = rec("fstat", nullptr); s->p = b; s->c = d; return sysr; }
int sys_close(int d) { rec("close", nullptr)->c = d; return sysr; }
DIR *sys_fdopendir(int d) { rec("fdopendir", nullptr)->c = d; return (DIR *)sysp; }
int sys_closedir(DIR *d) { rec("closedir", nullptr)->p = d; return sysr; }
void *sys_readdir(DIR *d) { rec("readdir", nullptr)->p = d; return sysp; }
long sys_telldir(DIR *d) { rec("telldir", nullptr)->p = d; return sysr; }
void sys_seekdir(DIR *d, long l) { Sys *s = rec("seekdir", nullptr); s->p = d; s->a = l; }
void sys_rewinddir(DIR *d) { rec("rewinddir", nullptr)->p = d; }
int sys_dirfd(DIR *d) { rec("dirfd", nullptr)->p = d; return sysr; }
}

struct Bed {
	Image im; Mount *m; sqfs *fs;
	std::vector<std::string> dirs, all;
	std::string cwd;
	void walk(Node *d, const std::string &p, int depth)
	{
		for (auto &e : d->kids) {
			all.push_back(p + "/" + e.name);
			if (e.n->t == 'd') { dirs.push_back(p + "/" + e.name); walk(e.n, p + "/" + e.name, depth + 1); }
		}
	}
	Bed()
	{
		im.root = im.mk('d');
		Node *top = im.dir(im.root, "__enclose_io_memfs__");
		const char *nm[] = {"a", "b", "lib", "x.so", "f1", "f2"};
		for (int i = 0; i < 3; i++) {
			Node *d = im.dir(top, nm[i]);
			im.file(d, "f1", below(3) ? 1 + below(9000) : 300000); im.file(d, "f2", below(5000), true);
			if (i) { Node *e = im.dir(d, "deep"); im.file(e, "f1", 100 + below(1000), true); im.dir(e, "er"); }
			if (below(2)) im.link(d, "l", "f1");
			if (below(2)) im.link(d, "u", "..");
			im.link(d, "dang", below(2) ? "nowhere" : "/no/where");
		}
		im.file(top, "x.so", 5000);
		im.dir(im.root, "__enclose_io_memfs__more");
		im.build();
		m = new Mount(im); fs = &m->fs;
		enclose_io_fs = fs; enclose_io_cwd[0] = 0; mkdir_workdir = NULL; WD = ""; ov.clear(); sysc.clear();
		walk(im.root, "", 0);
	}
	~Bed() { delete m; ora_live.erase(mkdir_workdir); mkdir_workdir = NULL; enclose_io_cwd[0] = 0; }
	std::string slashes(const std::string &s) { std::string r; for (char c : s) { r += c; if (c == '/' && r.size() > 1 && below(6) == 0) r += '/'; } return r; }
	std::string path(bool wild = true)
	{
		std::string s;
		switch (below(12)) {
		case 0: s = below(2) ? "/etc/hosts" : "/"; break;
		case 1: s = "/__enclose_io_memf/x"; break;
		case 2: s = std::string(PFX) + (below(2) ? "" : "/"); break;
		case 10: if (below(3)) { s = slashes(all[below(all.size())]); break; }
			s = cwd.empty() || below(2) ? std::string(PFX) + "/a/" : "";
			{ size_t n = 1900 + below(170); while (s.size() + (s[0] == '/' ? 0 : cwd.size()) < n) s += below(3) ? std::string(1 + below(250), 'w') + "/" : s.empty() ? "./" : below(2) ? "/" : "./"; }
			return s;
		case 3: s = "//" + std::string(PFX + 1) + "/a/f1"; break;
		case 4: s = std::string(PFX) + "more"; break;
		case 5: s = std::string(PFX) + "/nope/f1"; break;
		case 6: { const char *n[] = {"f1", "dang", "l", "u", "f2", "."}; s = n[below(6)]; break; }
		case 7: s = below(2) ? "deep/f1" : "deep"; break;
		case 8: s = below(2) ? "../b/f1" : "n/" + std::string(wild && below(3) == 0 ? 1 + below(2500) : 3, 'q'); break;
		default: s = slashes(all[below(all.size())]);
		}
		if (below(6) == 0 && s.size()) s += "/";
		return s;
	}
	bool rel(const std::string &p) const { return !cwd.empty() && (p.empty() || p[0] != '/'); }
	bool virt(const std::string &p) const { return rel(p) || !p.compare(0, 21, PFX); }
	std::string full(const std::string &p) const { return rel(p) ? (cwd + p).substr(0, 2048) : p; }
	// the overlay's name for a path of the image, if it has one there
	std::string over(const std::string &x) const { return WD.empty() || x.size() <= 21 || x[21] != '/' ? "" : WD + x.substr(21); }
	bool has(const std::string &x) const { return !over(x).empty() && ov_get(norm(x.substr(21))); }
	void one(const char *f, const std::string &p) const
	{
		CHECK(sysc.size() == 1, "%zu system calls", sysc.size());
		CHECK(sysc[0].f == f && sysc[0].path == p, "the system was asked %s(%s), expected %s(%s)", sysc[0].f.c_str(), sysc[0].path.c_str(), f, p.c_str());
	}
	void none() const { CHECK(sysc.empty(), "the system was asked %s(%s)", sysc[0].f.c_str(), sysc[0].path.c_str()); }
};
static void go() { sysc.clear(); sysr = (int)rnd(); syserr = 1 + below(100); sysp = below(2) ? (void *)&sysr : NULL; }
static int sel1(const struct SQUASH_DIRENT *) { return 1; }
static void chdir_some(Bed &B)
{
	std::string d = B.dirs[below(B.dirs.size())];
	if (below(3) == 0) { go(); sysr = 0; if (enclose_io_chdir("/tmp") == 0) B.cwd = ""; return; }
	go();
	context = "chdir " + d;
	if (B.has(d) && ov_get(norm(d.substr(21))) != 1) return;
	CHECK(enclose_io_chdir(d.c_str()) == 0, "failed");
	B.cwd = d + "/";
}

static void g_C16()
{
	for (const char *e : {"TMPDIR", "TMP", "TEMP", "TEMPDIR"}) unsetenv(e);
	for (int round = 0; more(round, 30); round++) {
		Bed B;
		for (int k = 0; k < 300; k++) {
			if (below(12) == 0) chdir_some(B);
			int op = below(20);
			std::string p = B.path(), x = B.full(p), o = B.over(x);
			bool v = B.virt(p), ovl = v && B.has(x);
			std::string what = v ? ovl ? o : x : p;
			std::string before = p;
			char *cp = strdup(p.c_str());
			struct stat st, s2; memset(&st, 0, sizeof st); memset(&s2, 0, sizeof s2);
			context = fmt("operation %d on '%s' (%zu bytes) in '%s', overlay %s", op, p.substr(0, 300).c_str(), p.size(), B.cwd.c_str(), WD.empty() ? "not made" : ovl ? "has it" : "does not have it");
			go();
			if (x.size() >= 2048 - 60 && v) {
				/* close to the limit of paths: whatever it comes to, inside its buffers */
				struct SQUASH_DIRENT **nl = NULL; char b[40]; DIR *d; int f = -1;
				switch (below(9)) {
				case 0: enclose_io_stat(cp, &st); break;
				case 1: enclose_io_lstat(cp, &st); break;
				case 2: enclose_io_readlink(cp, b, sizeof b); break;
				case 3: enclose_io_access(cp, 0); break;
				case 4: f = enclose_io_open(2, cp, O_RDONLY); break;
				case 5: f = enclose_io_open(3, cp, O_RDWR | O_CREAT, 0600); break;
				case 6: enclose_io_mkdir(cp, 0700); break;
				case 7: d = enclose_io_opendir(cp); if (d && (void *)d != sysp) enclose_io_closedir(d); break;
				case 8: f = enclose_io_openat(3, AT_FDCWD, cp, O_RDONLY); break;
				}
				if (f >= 0 && SQUASH_VALID_VFD(f)) squash_close(f);
				CHECK(p == cp, "the caller's path was changed");
				free(cp); (void)nl;
				continue;
			}
			long r, w;
			switch (op) {
			case 0: r = enclose_io_stat(cp, &st);
				if (!v) { B.one("stat", p); CHECK(sysc[0].p == &st && r == sysr && errno == syserr, "result %ld", r); break; }
				B.none();
				if (ovl) { CHECK(r == 0 && st.st_ino == 777, "result %ld", r); break; }
				w = squash_stat(B.fs, x.c_str(), &s2);
				CHECK(r == w && !memcmp(&st, &s2, sizeof st), "result %ld, the image's is %ld", r, w);
				break;
			case 1: r = enclose_io_lstat(cp, &st);
				if (!v || ovl) { B.one("lstat", what); CHECK(sysc[0].p == &st && r == sysr && errno == syserr, "result %ld", r); break; }
				B.none();
				w = squash_lstat(B.fs, x.c_str(), &s2);
				CHECK(r == w && !memcmp(&st, &s2, sizeof st), "result %ld, the image's is %ld", r, w);
				break;
			case 2: { char b[64] = "", c[64] = ""; size_t n = 1 + below(40);
				r = enclose_io_readlink(cp, b, n);
				if (!v || ovl) { B.one("readlink", what); CHECK(sysc[0].p == b && sysc[0].a == (long)n && r == sysr && errno == syserr, "result %ld", r); break; }
				B.none();
				w = squash_readlink(B.fs, x.c_str(), c, n);
				CHECK(r == w && (r < 0 || !memcmp(b, c, r)), "result %ld, the image's is %ld", r, w);
				break; }
			case 3: { DIR *d = enclose_io_opendir(cp);
				if (!v || ovl) { B.one("opendir", what); CHECK(d == (DIR *)sysp, "another result"); break; }
				B.none();
				SQUASH_DIR *e = squash_opendir(B.fs, x.c_str());
				CHECK(!d == !e, "%s, the image's %s", d ? "opened" : "failed", e ? "opens" : "fails");
				if (!d) break;
				int fa = enclose_io_dirfd(d);
				CHECK(SQUASH_VALID_VFD(fa), "dirfd is %d", fa);
				for (;;) {
					struct SQUASH_DIRENT *a = enclose_io_readdir(d), *b = squash_readdir(e);
					CHECK(!a == !b && (!a || (!strcmp(a->d_name, b->d_name) && a->d_ino == b->d_ino)), "another entry");
					CHECK(enclose_io_telldir(d) == squash_telldir(e), "another place");
					if (!a) break;
				}
				enclose_io_rewinddir(d); CHECK(enclose_io_telldir(d) == 0, "rewound to %ld", enclose_io_telldir(d));
				enclose_io_seekdir(d, 1); CHECK(enclose_io_telldir(d) == 1, "seeked to %ld", enclose_io_telldir(d));
				B.none();
				CHECK(enclose_io_closedir(d) == 0 && squash_closedir(e) == 0, "close failed");
				CHECK(!SQUASH_VALID_VFD(fa), "it stays open");
				break; }
			case 4: { struct SQUASH_DIRENT **nl = NULL, **n2 = NULL;
				r = enclose_io_scandir(cp, &nl, below(2) ? sel1 : NULL, NULL);
				if (!v || ovl) { B.one("scandir", what); CHECK(sysc[0].p == &nl && r == sysr, "result %ld", r); break; }
				B.none();
				w = squash_scandir(B.fs, x.c_str(), &n2, NULL, NULL);
				CHECK(r == w, "result %ld, the image's is %ld", r, w);
				for (int i = 0; i < r; i++) { CHECK(!strcmp(nl[i]->d_name, n2[i]->d_name), "another entry"); ora_free(nl[i]); ora_free(n2[i]); }
				if (r >= 0) { ora_free(nl); ora_free(n2); }
				break; }
			case 5: { int mode = below(8);
				r = enclose_io_access(cp, mode);
				if (!v || ovl) { B.one("access", what); CHECK(sysc[0].a == mode && r == sysr && errno == syserr, "mode %ld, result %ld", sysc[0].a, r); break; }
				B.none();
				w = squash_stat(B.fs, x.c_str(), &s2);
				CHECK(r == w, "result %ld, the image's is %ld", r, w);
				break; }
			case 6: case 7: case 8: { int fl = rnd() & ~(O_CREAT | 020000000), at = below(2);
				if (op == 7) { int dfd = below(2) ? AT_FDCWD : 5; bool mode = below(2);
					r = mode ? enclose_io_openat(4, dfd, cp, fl, 0640) : enclose_io_openat(3, dfd, cp, fl);
					if (dfd != AT_FDCWD && p[0] != '/') { B.one("openat", p); CHECK(sysc[0].a == fl && sysc[0].c == dfd && r == sysr, "result %ld", r); break; }
					if (!v) { B.one("openat", p); CHECK(sysc[0].a == fl && sysc[0].c == dfd && r == sysr, "result %ld", r); break; }
				} else r = at ? enclose_io_open(3, cp, fl, 0600) : enclose_io_open(2, cp, fl);
				if (!v || ovl) { B.one("open", what); CHECK(sysc[0].a == fl && r == sysr, "result %ld", r); break; }
				B.none();
				w = squash_open(B.fs, x.c_str());
				CHECK((r < 0) == (w < 0), "result %ld, the image's is %ld", r, w);
				if (r < 0) break;
				{
					CHECK(enclose_io_fstat(r, &st) == 0 && squash_fstat(w, &s2) == 0 && !memcmp(&st, &s2, sizeof st), "fstat differs");
					std::vector<char> a(4000), b(4000), c(4000);
					for (int i = 0; i < 12 && S_ISREG(st.st_mode); i++) {
						long n = below(3000), off = below(3) ? below(6000) : 0; int wh = below(3);
						context += fmt(" %d", i);
						switch (below(4)) {
						case 0: { squash_lseek(w, squash_lseek(r, 0, SQUASH_SEEK_CUR), SQUASH_SEEK_SET);
							long g = enclose_io_read(r, a.data(), n), e = squash_read(w, b.data(), n);
							CHECK(g == e && (g <= 0 || !memcmp(a.data(), b.data(), g)), "read of %ld is %ld, the image's is %ld", n, g, e);
							break; }
						case 1: { off_t pos = squash_lseek(r, 0, SQUASH_SEEK_CUR); off = below(8) ? off : -1 - off;
							long g = enclose_io_pread(r, a.data(), n, off);
							CHECK(squash_lseek(r, 0, SQUASH_SEEK_CUR) == pos, "pread at %ld moved the position from %ld to %ld", off, (long)pos, (long)squash_lseek(r, 0, SQUASH_SEEK_CUR));
							if (off < 0) { CHECK(g == -1 && errno == EINVAL, "pread at %ld is %ld", off, g); break; }
							long e = off >= st.st_size ? 0 : std::min<long>(n, st.st_size - off);
							CHECK(g == e, "pread of %ld at %ld of %ld is %ld", n, off, (long)st.st_size, g);
							squash_lseek(r, off, SQUASH_SEEK_SET); CHECK(squash_read(r, b.data(), n) == e && !memcmp(a.data(), b.data(), e), "pread delivers other bytes"); squash_lseek(r, pos, SQUASH_SEEK_SET);
							break; }
						case 2: { off_t pos = squash_lseek(r, 0, SQUASH_SEEK_CUR); struct iovec iv[4]; long q[4], tot = 0;
							int cnt = 1 + below(4);
							for (int j = 0; j < cnt; j++) { q[j] = below(3) ? below(900) : 0; iv[j].iov_base = a.data() + tot; iv[j].iov_len = q[j]; tot += q[j]; }
							long g = enclose_io_readv(r, iv, cnt), e = pos >= st.st_size ? 0 : std::min<long>(tot, st.st_size - pos);
							CHECK(g == e, "readv of %ld at %ld of %ld is %ld", tot, (long)pos, (long)st.st_size, g);
							CHECK(squash_lseek(r, 0, SQUASH_SEEK_CUR) == pos + g, "readv leaves the position at %ld", (long)squash_lseek(r, 0, SQUASH_SEEK_CUR));
							squash_lseek(r, pos, SQUASH_SEEK_SET); CHECK(squash_read(r, b.data(), tot) == g && !memcmp(a.data(), b.data(), g), "readv delivers other bytes");
							break; }
						case 3: { off_t pos = squash_lseek(r, 0, SQUASH_SEEK_CUR);
							long g = enclose_io_lseek(r, off, wh), e = wh == SEEK_SET ? off : wh == SEEK_CUR ? pos + off : st.st_size;
							CHECK(g == e, "lseek(%ld, %d) is %ld", off, wh, g);
							break; }
						}
					}
					B.none();
					CHECK(enclose_io_close(r) == 0 && squash_close(w) == 0, "close failed");
					CHECK(!SQUASH_VALID_VFD((int)r), "it stays open");
				}
				break; }
			case 9: case 10: { if (p.find("..") != std::string::npos) break;
				int fl = O_CREAT | (below(2) ? O_RDWR : O_WRONLY) | (below(2) ? O_TRUNC : 0), mode = below(512);
				if (v && squash_stat(B.fs, x.c_str(), &s2) == 0 && S_ISDIR(s2.st_mode)) break;
				size_t ls = x.rfind('/');
				r = op == 9 ? enclose_io_open(3, cp, fl, mode) : enclose_io_openat(4, AT_FDCWD, cp, fl, mode);
				CHECK(p == cp, "the caller's path was changed to '%s'", cp);
				if (v && ls == 0) break;
				if (!v) { B.one(op == 9 ? "open" : "openat", p); CHECK(sysc[0].a == fl && sysc[0].b == mode && r == sysr, "flags %lx, mode %lo, result %ld", sysc[0].a, sysc[0].b, r); break; }
				if (B.over(x).empty()) { CHECK(r == -1, "result %ld", r); B.none(); break; }
				B.one("open", B.over(x));
				CHECK(sysc[0].a == fl && sysc[0].b == mode, "flags %lx, mode %lo", sysc[0].a, sysc[0].b);
				(void)ls;
				break; }
			case 11: case 12: { if (p.find("..") != std::string::npos) break;
				int mode = below(512);
				std::string t = x; while (t.size() > 1 && t.back() == '/') t.pop_back();
				bool img = v && squash_stat(B.fs, x.c_str(), &s2) == 0, valid = t.size() > 21 && t[21] == '/';
				bool par = v && valid && (ov_get(norm(up(norm(t)).substr(21))) == 1 || (squash_stat(B.fs, up(norm(t)).c_str(), &s2) == 0 && S_ISDIR(s2.st_mode))), had = v && B.has(t);
				r = enclose_io_mkdir(cp, mode);
				if (!v) { B.one("mkdir", p); CHECK(sysc[0].a == mode && r == sysr && errno == syserr, "result %ld", r); break; }
				B.none();
				if (img) CHECK(r == -1 && errno == EEXIST, "result %ld, errno %d for a name of the image", r, errno);
				else if (valid && par && !had) CHECK(r == 0 && ov_get(norm(t.substr(21))) == 1, "result %ld, errno %d", r, errno);
				else CHECK(r == -1, "made");
				break; }
			case 13: CHECK(!!enclose_io_if(cp) == v, "is %d", enclose_io_if(cp)); CHECK(!!enclose_io_is_path(cp) == !p.compare(0, 21, PFX), "is_path is %d", enclose_io_is_path(cp)); B.none(); break;
			case 14: { char *av[] = {(char *)"zero", (char *)"one", (char *)"two", NULL};
				if (v) break;
				r = enclose_io_execv(cp, av); B.one("execv", p); CHECK(sysc[0].p == av && r == sysr, "result %ld", r); break; }
			case 15: { if (v) break;
				int mode = below(100); void *h = enclose_io_dlopen(cp, mode); B.one("dlopen", p); CHECK(sysc[0].a == mode && h == sysp, "mode %ld", sysc[0].a); break; }
			case 16: { int d = below(3) == 0 ? -1 : below(2) ? 100000 + below(1000) : (int)squash_global_fdtable.nr + below(3); char b[4]; struct iovec iv = {b, 4};
				long a1 = rnd(), a2 = rnd();
				sysr = below(2) ? sysr : (long)rnd() << 20;
				context = fmt("descriptor %d of the system", d);
				auto C = [&](const char *f, long got, long want) { CHECK(sysc.size() == 1 && sysc[0].f == f && sysc[0].c == d && got == want, "%s is %ld (%zu system calls), expected %ld", f, got, sysc.size(), want); sysc.clear(); };
				C("read", enclose_io_read(d, b, a1), sysr); C("pread", enclose_io_pread(d, b, a1, a2), sysr); C("readv", enclose_io_readv(d, &iv, 1), sysr);
				C("lseek", enclose_io_lseek(d, a1, 1), sysr); C("fstat", enclose_io_fstat(d, &st), (int)sysr); C("close", enclose_io_close(d), (int)sysr);
				DIR *e = enclose_io_fdopendir(d); CHECK(sysc.size() == 1 && e == (DIR *)sysp, "fdopendir"); sysc.clear();
				e = (DIR *)b;
				CHECK(enclose_io_closedir(e) == (int)sysr && enclose_io_readdir(e) == sysp && enclose_io_telldir(e) == sysr && enclose_io_dirfd(e) == (int)sysr, "a stream of the system");
				enclose_io_seekdir(e, 5); enclose_io_rewinddir(e);
				CHECK(sysc.size() == 6 && sysc[4].a == 5, "%zu system calls", sysc.size());
				break; }
			case 17: { if (!v || ovl) break;
				int f = squash_open(B.fs, x.c_str());
				if (f < 0) break;
				size_t live = ora_live.size();
				ora_fail = below(4) ? -1 : below(4); ora_nalloc = 0; ora_hit = false;
				DIR *d = enclose_io_fdopendir(f);
				bool hit = ora_hit; ora_fail = -1; ora_hit = false;
				w = squash_stat(B.fs, x.c_str(), &s2);
				CHECK(SQUASH_VALID_VFD(f), "the descriptor is gone");
				if (d) { CHECK(w == 0 && S_ISDIR(s2.st_mode), "a stream of what is no directory");
					CHECK(enclose_io_dirfd(d) == f, "dirfd is %d", enclose_io_dirfd(d));
					SQUASH_DIR *e = squash_opendir(B.fs, x.c_str());
					for (;;) { struct SQUASH_DIRENT *a = enclose_io_readdir(d), *b = squash_readdir(e); CHECK(!a == !b && (!a || !strcmp(a->d_name, b->d_name)), "another entry"); if (!a) break; }
					squash_closedir(e);
					CHECK(enclose_io_closedir(d) == 0 && !SQUASH_VALID_VFD(f), "close failed");
				} else { CHECK(hit || !S_ISDIR(s2.st_mode), "no stream of a directory, errno %d", errno); CHECK(ora_live.size() <= live + 6, "blocks leaked"); CHECK(squash_close(f) == 0, "close failed"); }
				B.none();
				break; }
			}
			free(cp);
		}
	}
}

static void g_C17()
{
	for (const char *e : {"TMPDIR", "TMP", "TEMP", "TEMPDIR"}) unsetenv(e);
	for (int round = 0; more(round, 60); round++) {
		Bed B;
		std::string hist;
		for (int k = 0; k < 120; k++) {
			std::string p = B.path(), x = B.full(p);
			if (below(8) == 0) { p = std::string(PFX) + "/a"; while (p.size() < 2040 + below(12)) p += '/'; x = p; }
			if (below(9) == 0) { p = B.cwd.empty() ? "b" : ""; while (p.size() + B.cwd.size() < 2030 + below(30)) p += below(2) ? "./" : "/"; if (B.cwd.size() && p[0] == '/') p[0] = '.'; x = B.full(p); }
			bool v = B.virt(p);
			struct stat st;
			switch (below(5)) {
			case 4: {
				if (p.find("..") != std::string::npos || x.size() > 1900 || !v || (squash_stat(B.fs, x.c_str(), &st) == 0 && S_ISDIR(st.st_mode))) break;
				go(); context = fmt("creating '%s' in '%s', after%s", p.c_str(), B.cwd.c_str(), hist.c_str());
				int f = enclose_io_open(3, p.c_str(), O_CREAT | O_WRONLY, 0600);
				if (f >= 0 && SQUASH_VALID_VFD(f) && f != (int)sysr) squash_close(f);
				if (B.has(x)) hist += " +" + p.substr(0, 40);
				break; }
			case 0: { go(); context = fmt("mkdir in '%s', after%s", B.cwd.c_str(), hist.c_str()); if (p.find("..") == std::string::npos && x.size() < 2000) enclose_io_mkdir(p.c_str(), 0700); break; }
			case 1: case 2: {
				bool over = v && x.size() < 2048 && B.has(x), ok;
				go(); sysr = below(2) ? 0 : -1;
				context = fmt("chdir('%s', %zu bytes) in '%s', after%s", p.substr(0, 60).c_str(), p.size(), B.cwd.c_str(), hist.size() > 300 ? hist.substr(hist.size() - 300).c_str() : hist.c_str());
				char *cp = strdup(p.c_str());
				std::string was = enclose_io_cwd;
				int r = enclose_io_chdir(cp), e = errno;
				CHECK(p == cp, "the caller's path was changed");
				free(cp);
				hist += " " + p.substr(0, 40);
				if (!v) {
					B.one("chdir", p); CHECK(r == (int)sysr, "result %d, expected %ld", r, sysr);
					if (r == 0) B.cwd = "";
				} else {
					if (over) ok = ov_get(norm(x.substr(21))) == 1; else ok = x.size() < 2048 && squash_stat(B.fs, x.c_str(), &st) == 0 && S_ISDIR(st.st_mode);
					if (x.size() < 2048 && over && WD.size() + x.size() > 2040) ok = r == 0;
					CHECK((r == 0) == ok, "result %d", r);
					if (x.size() >= 2048) CHECK(e == ENAMETOOLONG, "errno %d", e);
					if (r == 0) { B.cwd = x; while (B.cwd.back() == '/') B.cwd.pop_back(); B.cwd += '/'; }
				}
				CHECK(B.cwd == enclose_io_cwd, "the working directory is '%s', expected '%s'", enclose_io_cwd, B.cwd.c_str());
				break; }
			case 3: {
				go();
				size_t n = below(3) ? below(80) : B.cwd.size() + below(4) - 1; if ((long)n < 0) n = 0;
				if (B.cwd.size() && B.cwd.size() > 0 && below(2)) n = B.cwd.size() + below(3) - 1;
				char *b = below(5) ? (char *)malloc(n ? n : 1) : NULL;
				context = fmt("getcwd(%s, %zu) in '%s'", b ? "buffer" : "NULL", n, B.cwd.c_str());
				bool wd = b && below(4) == 0; if (wd) { free(b); b = (char *)malloc(n = 4096); context += " (getwd)"; }
				char *r = wd ? enclose_io_getwd(b) : enclose_io_getcwd(b, n);
				if (B.cwd.empty()) { CHECK(sysc.size() == 1 && sysc[0].f == "getcwd" && sysc[0].p == b && sysc[0].a == (long)n && r == sysp, "not the system's"); free(b); break; }
				B.none();
				std::string want = B.cwd.substr(0, B.cwd.size() - 1);
				if (b && n < want.size() + 1) CHECK(!r && errno == ERANGE, "result %s", r ? r : "NULL");
				else { CHECK(r && r == (b ? b : r) && want == r, "result '%s'", r ? r : "NULL"); if (!b) ora_free(r); }
				free(b);
				break; }
			}
		}
	}
}
