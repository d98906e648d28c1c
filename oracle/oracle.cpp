// oracle GROUP SEED SECONDS: looks for an input on which the compiled library does not do what the property
// says. Runs the real sources; the expectations come from the image builder and the models below.
#include "ora.hpp"
#include <time.h>
#include <signal.h>
#include <sys/resource.h>

static double t_end;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static int rounds;
static bool more(int round, int minimum) { rounds = round; return round < minimum || (now() < t_end && round < 1000000); }

// ------------------------------------------------------------------ images
static void random_files(Image &im, Node *d, int n, const char *pfx)
{
	for (int i = 0; i < n; i++) {
		uint32_t b = im.block;
		uint64_t sizes[] = {0, 1, b - 1, b, b + 1, 2 * b - 1, 2 * b, 3 * b + 17, below(6 * b), below(3) * (uint64_t)b};
		Node *f = im.file(d, fmt("%s%03d", pfx, i), sizes[below(10)], below(2), below(3));
		for (int k = 0; k < 6; k++) if (below(2)) f->kinds[k] = below(3);
		f->ext = below(2);
		if (below(3) == 0) { Node *l = im.link(d, fmt("%s%03dl", pfx, i), std::string(1 + below(9), 'x')); l->ext = below(2); }
	}
}

static void range_check(Mount &m, Node *f, sqfs_inode &ino, int64_t start, int64_t size)
{
	context = m.im.block == 0 ? "" : fmt("read %lld bytes at %lld of a file of %llu bytes (inode %u, block size %u, %s tail)", (long long)size, (long long)start,
		(unsigned long long)f->size, f->ino, m.im.block, f->fragidx != 0xffffffff ? "fragment" : "no fragment");
	int64_t want = start >= (int64_t)f->size ? 0 : std::min<int64_t>(size, f->size - start);
	uint8_t *buf = (uint8_t *)malloc(size + 32);
	memset(buf, 0xee, size + 32);
	sqfs_off_t n = size;
	sqfs_err e = sqfs_read_range(&m.fs, &ino, start, &n, buf + 16);
	bool bad = false;
	for (uint64_t b : f->bad) if (want > 0 && (int64_t)(b * m.im.block) < start + want && (int64_t)((b + 1) * m.im.block) > start) bad = true;
	for (int i = 0; i < 16; i++) CHECK(buf[i] == 0xee && buf[16 + size + i] == 0xee, "bytes outside the caller's buffer were written");
	if (bad) { CHECK(e != SQFS_OK, "read of an undecodable block succeeded"); free(buf); return; }
	if (ora_hit && e != SQFS_OK) { free(buf); return; }
	CHECK(e == SQFS_OK, "read failed: %d", e);
	CHECK(n == want, "delivered %lld bytes, expected %lld", (long long)n, (long long)want);
	for (int64_t i = 0; i < want; i++)
		CHECK(buf[16 + i] == m.im.at(f, start + i), "byte %lld is %d, the file has %d there", (long long)(start + i), buf[16 + i], m.im.at(f, start + i));
	for (int64_t i = want; i < size; i++) CHECK(buf[16 + i] == 0xee, "buffer written at %lld, beyond the %lld bytes delivered", (long long)i, (long long)want);
	free(buf);
}

static void collect(Node *d, char t, std::vector<Node *> &v) { for (auto &e : d->kids) { if (e.n->t == t || !t) v.push_back(e.n); collect(e.n, t, v); } }

static void g_C01()
{
	for (int round = 0; more(round, 6); round++) {
		Image im;
		uint32_t bs[] = {131072, 4096, 8192, 16384};
		im.block = bs[round % 4];
		im.mdmode = below(3);
		im.root = im.mk('d');
		random_files(im, im.root, 24, "f");
		// a fragment shared by many, files made of holes only, raw and compressed mixed
		for (int i = 0; i < 6; i++) im.file(im.root, fmt("t%d", i), 100 + 333 * i, true);
		Node *h = im.file(im.root, "hole", 3 * im.block + 50, false, HOLE);
		h->ext = true;
		Node *large = NULL;
		if (im.block == 131072) { large = im.file(im.root, "large", (4ull << 30) + below(2) * 131072 + below(9000), below(2), HOLE); large->ext = true; for (int k = 0; k < 8; k++) large->kinds[below(32768)] = 1 + below(2); }
		Node *bad = im.file(im.root, "bad", 5 * im.block + 9, true);
		bad->bad.insert(2);
		if (round & 1) { Node *bt = im.file(im.root, "badtail", im.block + 77, true); bt->bad.insert(1); }
		im.build();
		Mount m(im, below(2) * 37);
		std::vector<Node *> fs;
		collect(im.root, 'f', fs);
		std::vector<sqfs_inode> in;
		for (Node *f : fs) in.push_back(m.get(f));
		int64_t b = im.block;
		for (int k = 0; k < 160; k++) {
			size_t j = below(fs.size());
			Node *f = fs[j];
			int64_t sz = f->size;
			int64_t starts[] = {0, 1, b - 1, b, b + 1, sz - 1, sz, sz + 1, (int64_t)below(sz + 10), (int64_t)below(sz / b + 1) * b, sz / b * b, sz / b * b - 1, 2 * b};
			int64_t st = std::max<int64_t>(0, starts[below(13)]);
			if (f == large) continue;
			int64_t lens[] = {0, 1, 2, b - 1, b, b + 1, 2 * b, 3 * b + 3, sz, sz + 100, sz - st, (int64_t)below(2 * b), sz - st + 1};
			range_check(m, f, in[j], st, std::max<int64_t>(0, lens[below(13)]));
		}
		for (size_t j = 0; j < fs.size(); j++) if (fs[j] != large) range_check(m, fs[j], in[j], 0, fs[j]->size + 5);
		if (large) {
			sqfs_inode li = m.get(large);
			int64_t g = 1ll << 30;
			int64_t at[] = {0, b - 1, b, 2 * b + 7, 2 * g - 1, 2 * g, 2 * g + b, 4 * g - b, 4 * g - 1, 4 * g, 4 * g + 1, (int64_t)below(32000) * b + 3};
			for (int k = 0; k < 12; k++) range_check(m, large, li, at[k], 1 + below(b + 9000));
		}
		// not regular files, and ranges that cannot be
		context = "sqfs_read_range of something else";
		sqfs_inode d = m.get(im.root);
		char c[8];
		sqfs_off_t n = 4;
		CHECK(sqfs_read_range(&m.fs, &d, 0, &n, c) != SQFS_OK, "reading a directory succeeded");
		n = -1;
		CHECK(sqfs_read_range(&m.fs, &in[0], 0, &n, c) != SQFS_OK, "reading -1 bytes succeeded");
		n = 1;
		CHECK(sqfs_read_range(&m.fs, &in[0], -1, &n, c) != SQFS_OK, "reading at -1 succeeded");
	}
}

static void g_C02()
{
	for (int round = 0; more(round, 2); round++) {
		Image im;
		im.block = round % 3 == 1 ? 131072 : 4096;	// beyond 2 and 4 GiB into the file
		int64_t B = im.block;
		im.mdmode = 1 + below(2);
		im.root = im.mk('d');
		int nf = 3 + below(10);
		for (int i = 0; i < nf; i++) {
			if (below(2)) im.link(im.root, fmt("f%02da", i), std::string(1 + below(40), 'y'));	// moves the next inode off its alignment
			uint64_t blocks = B > 4096 && i == 1 ? 40000 + below(30000) : i == 0 ? 2048 + below(3) - 1 : below(2) ? 1500 + below(3000) : 5000 + below(9000);
			Node *f = im.file(im.root, fmt("f%02d", i), blocks * B + (below(2) ? below(4096) : 0), below(2), HOLE);
			for (int k = 0; k < 60; k++) f->kinds[below(blocks)] = 1 + below(2);
			for (uint64_t b = 2040; b < 2060 && b < blocks; b++) f->kinds[b] = RAW;
			f->ext = below(2);
		}
		im.build();
		Mount m(im);
		std::vector<Node *> fs;
		collect(im.root, 'f', fs);
		std::vector<sqfs_inode> in;
		for (Node *f : fs) in.push_back(m.get(f));
		for (int k = 0; k < 400; k++) {
			size_t j = below(fs.size());
			Node *f = fs[j];
			ora_fail = below(6) == 0 ? (long)below(6) : -1;
			ora_nalloc = 0;
			ora_hit = false;
			uint64_t blk = below(f->nblocks + 1);
			if (!f->kinds.empty() && below(2)) { auto i = f->kinds.lower_bound(blk); if (i != f->kinds.end()) blk = i->first; }
			uint32_t x = below(f->nblocks * 4096 / 8192 + 1);
			if (below(5) == 0) blk = std::min<uint64_t>(f->nblocks, x * 2048 - (below(3)));
			int64_t st = (int64_t)(blk * B + (below(2) ? 0 : below(4096)));
			range_check(m, f, in[j], st, 1 + below(below(20) ? 3000 : B + 2000));
			ora_fail = -1;
			ora_hit = false;
			if (k % 3 == 0) range_check(m, f, in[j], st, 1 + below(below(20) ? 3000 : B + 2000));
		}
	}
}

static void small_tree(Image &im)
{
	im.root = im.mk('d');
	Node *d = im.dir(im.root, "dir"), *e = im.dir(d, "sub");
	im.file(d, "one", 10000, true); im.file(d, "two", 3 * im.block, false, RAW); im.file(e, "deep", 500, true);
	im.file(im.root, "big", 9 * im.block + 77, true)->kinds[3] = HOLE;
	im.file(im.root, "empty", 0);
	Node *b = im.file(im.root, "bad", 4 * im.block);
	b->bad.insert(2);
	im.link(im.root, "ln", "dir/one"); im.link(d, "up", "../big"); im.link(im.root, "lnd", "/dir");
	im.add(im.root, "fifo", 'p');
}

struct OpenFd { int fd; Node *n; uint64_t pos; };

static int reads(OpenFd &o, Image &im, int64_t len)
{
	std::vector<uint8_t> buf(std::min<int64_t>(len, o.n->size) + 1, 0xee);
	context = fmt("squash_read of %lld bytes at position %llu of inode %u (%llu bytes)", (long long)len, (unsigned long long)o.pos, o.n->ino, (unsigned long long)o.n->size);
	int64_t want = o.pos >= o.n->size ? 0 : std::min<int64_t>(len, o.n->size - o.pos);
	bool bad = false;
	for (uint64_t b : o.n->bad) if (want > 0 && b * im.block < o.pos + want && (b + 1) * im.block > o.pos) bad = true;
	errno = 0;
	ssize_t r = squash_read(o.fd, buf.data(), len);
	if (bad || o.n->t != 'f') { CHECK(r == -1 && errno, "returned %zd (errno %d) where an error was due", r, errno); }
	else if (ora_hit && r == -1) { }
	else {
		CHECK(r == want, "returned %zd, expected %lld", r, (long long)want);
		for (int64_t i = 0; i < want; i++) CHECK(buf[i] == im.at(o.n, o.pos + i), "wrong byte at file position %llu", (unsigned long long)(o.pos + i));
		o.pos += want;
	}
	off_t p = squash_lseek(o.fd, 0, SQUASH_SEEK_CUR);
	CHECK(p == (off_t)o.pos, "position afterwards is %lld, expected %llu", (long long)p, (unsigned long long)o.pos);
	return 0;
}

static void g_C03()
{
	for (int round = 0; more(round, 4); round++) {
		Image im;
		small_tree(im);
		im.build();
		Mount m(im);
		const char *paths[] = {"/dir/one", "/dir/two", "/big", "/empty", "/bad", "/ln", "/dir/sub/deep", "/dir"};
		Node *nodes[8];
		for (int i = 0; i < 8; i++) {
			sqfs_inode ino;
			short found;
			sqfs_inode_get(&m.fs, &ino, sqfs_inode_root(&m.fs));
			CHECK(sqfs_lookup_path_inner(&m.fs, &ino, paths[i], &found, 1) == SQFS_OK && found, "%s not found", paths[i]);
			for (auto &p : im.pool) if (p->ino == ino.base.inode_number) nodes[i] = p.get();
		}
		std::vector<OpenFd> v;
		for (int k = 0; k < 500; k++) {
			int op = below(10);
			if (v.empty() || (op == 0 && v.size() < 12)) {
				int i = below(8);
				int fd = squash_open(&m.fs, paths[i]);
				context = fmt("squash_open %s", paths[i]);
				CHECK(fd >= 0, "open failed, errno %d", errno);
				v.push_back({fd, nodes[i], 0});
				continue;
			}
			size_t j = below(v.size());
			OpenFd &o = v[j];
			if (op == 1) {
				CHECK(squash_close(o.fd) == 0, "close failed");
				int fd = o.fd;
				v.erase(v.begin() + j);
				char c;
				bool again = false;
				for (auto &x : v) again |= x.fd == fd;
				context = fmt("use of descriptor %d after it was closed", fd);
				errno = 0;
				CHECK(again || (squash_read(fd, &c, 1) == -1 && errno == EBADF), "read was not refused with EBADF");
				errno = 0;
				CHECK(again || (squash_lseek(fd, 0, SQUASH_SEEK_SET) == -1 && errno == EBADF), "seek was not refused with EBADF");
			} else if (op < 6) {
				ora_fail = below(8) == 0 ? (long)below(3) : -1; ora_nalloc = 0; ora_hit = false;
				int64_t b = im.block, ls[] = {0, 1, b, b - 1, 3 * b, (int64_t)below(20000), 7, 1ll << 31, (1ll << 32) + 3, 1ll << 45, 0x88000000ll};
				reads(o, im, ls[below(11)]);
				ora_fail = -1; ora_hit = false;
			} else {
				int wh = below(9);
				int whence = wh < 3 ? SQUASH_SEEK_SET : wh < 6 ? SQUASH_SEEK_CUR : wh < 8 ? SQUASH_SEEK_END : (int)(3 + below(50));
				if (wh == 8 && below(2)) whence = -1;
				int64_t offs[] = {0, 1, -1, (int64_t)below(50000), -(int64_t)below(50000), INT64_MAX, INT64_MIN, (int64_t)o.n->size, -(int64_t)o.pos, -(int64_t)o.pos - 1, 5000000000ll};
				int64_t off = offs[below(11)];
				context = fmt("squash_lseek(offset %lld, whence %d) at position %llu of inode %u", (long long)off, whence, (unsigned long long)o.pos, o.n->ino);
				bool ok = true;
				uint64_t want = 0;
				if (whence == SQUASH_SEEK_SET) { ok = off >= 0; want = off; }
				else if (whence == SQUASH_SEEK_CUR) { __int128 s = (__int128)o.pos + off; ok = s >= 0 && s <= INT64_MAX; want = (uint64_t)s; }
				else if (whence == SQUASH_SEEK_END) { ok = o.n->t == 'f'; want = o.n->size; }
				else ok = false;
				errno = 0;
				off_t r = squash_lseek(o.fd, off, whence);
				if (ok) { CHECK(r == (off_t)want, "returned %lld, expected %llu", (long long)r, (unsigned long long)want); o.pos = want; }
				else CHECK(r == -1 && errno, "returned %lld where an error was due", (long long)r);
				CHECK(squash_lseek(o.fd, 0, SQUASH_SEEK_CUR) == (off_t)o.pos, "position afterwards is not %llu", (unsigned long long)o.pos);
				if (o.pos > (1u << 30)) { squash_lseek(o.fd, 0, SQUASH_SEEK_SET); o.pos = 0; }
			}
			for (auto &x : v) if (below(4) == 0) {
				context = "another descriptor's position after the last operation";
				CHECK(squash_lseek(x.fd, 0, SQUASH_SEEK_CUR) == (off_t)x.pos, "moved");
			}
		}
		char c;
		int weird[] = {-1, -2, 99999, 1 << 30, INT32_MIN, 0};
		for (int w : weird) {
			context = fmt("descriptor %d, never opened", w);
			struct stat st;
			errno = 0; CHECK(squash_read(w, &c, 1) == -1 && errno == EBADF, "read not refused");
			errno = 0; CHECK(squash_lseek(w, 0, SQUASH_SEEK_SET) == -1 && errno == EBADF, "seek not refused");
			errno = 0; CHECK(squash_fstat(w, &st) == -1 && errno == EBADF, "fstat not refused");
			errno = 0; CHECK(squash_close(w) == -1 && errno == EBADF, "close not refused");
		}
		for (auto &o : v) squash_close(o.fd);
	}
}

static void g_C04()
{
	for (int round = 0; more(round, 4); round++) {
		Image im;
		small_tree(im);
		im.build();
		Mount m(im);
		ora_free(squash_global_fdtable.fds);	// a table of no entries, to see it grow
		squash_global_fdtable.fds = NULL;
		squash_global_fdtable.nr = squash_global_fdtable.end = 0;
		struct O { int fd; SQUASH_DIR *d; Node *n; };
		std::vector<O> v;
		const char *fp[] = {"/dir/one", "/big", "/ln", "/dir/sub/deep", "/dir/up", "/nope", "/dir/one/x"};
		const char *dp[] = {"/dir", "/", "/dir/sub", "/lnd", "/none", "/big", "/dir/"};
		{ std::vector<int> w; for (int i = 0; i < 40; i++) w.push_back(squash_open(&m.fs, "/big")); for (int f : w) squash_close(f); }	// the table only grows
		// warm the caches: their blocks stay allocated
		long base = -1;
		int basefd = ora_in_lib_fds;
		for (int k = 0; k < 260; k++) {
			bool inject = below(2), ioinj = below(6) == 0;
			ora_fail = inject ? (long)below(12) : -1; ora_nalloc = 0; ora_hit = false;
			ora_io_fail = ioinj ? 0 : -1; ora_nio = 0;
			int op = below(5);
			if (op < 3 && v.size() < 30) {
				bool dir = below(2);
				const char *p = dir ? dp[below(7)] : fp[below(7)];
				context = fmt("%s %s (allocation %ld fails%s)", dir ? "squash_opendir" : "squash_open", p, ora_fail, ioinj ? ", dup fails" : "");
				errno = 0;
				SQUASH_DIR *d = NULL;
				int fd;
				size_t live0 = ora_live.size();
				int fds0 = ora_in_lib_fds;
				if (dir) { d = squash_opendir(&m.fs, p); fd = d ? squash_dirfd(d) : -1; } else fd = squash_open(&m.fs, p);
				bool exists = strcmp(p, "/nope") && strcmp(p, "/none") && strcmp(p, "/dir/one/x") && !(dir && !strcmp(p, "/big"));
				if (fd < 0) {
					CHECK(!exists || ora_hit, "failed, errno %d", errno);
					CHECK(errno, "failed without an error number");
					CHECK(ora_in_lib_fds == fds0, "a real descriptor is left open after the failure");
					(void)live0;
				} else {
					CHECK(exists, "succeeded");
					for (auto &o : v) CHECK(o.fd != fd, "descriptor %d is in use by another open file", fd);
					CHECK(fcntl(fd, F_GETFD) != -1, "the descriptor %d is not a real one", fd);
					struct stat st;
					CHECK(squash_fstat(fd, &st) == 0 && (bool)S_ISDIR(st.st_mode) == dir, "the descriptor does not belong to the file opened");
					CHECK(squash_find_entry(squash_global_fdtable.fds[fd]->payload) == squash_global_fdtable.fds[fd], "its handle does not lead back to it");
					v.push_back({fd, d, NULL});
				}
			} else if (!v.empty()) {
				size_t j = below(v.size());
				ora_fail = ora_io_fail = -1;
				context = v[j].d ? "squash_closedir" : "squash_close";
				CHECK((v[j].d ? squash_closedir(v[j].d) : squash_close(v[j].fd)) == 0, "failed, errno %d", errno);
				int fd = v[j].fd;
				v.erase(v.begin() + j);
				CHECK(fcntl(fd, F_GETFD) == -1, "the real descriptor is still open");
				errno = 0;
				char c;
				CHECK(squash_read(fd, &c, 1) == -1 && errno == EBADF, "the descriptor still works");
			}
			ora_fail = ora_io_fail = -1;
			ora_hit = false;
			for (auto &o : v) {
				struct stat st;
				CHECK(squash_fstat(o.fd, &st) == 0, "another descriptor (%d) no longer works", o.fd);
				CHECK(squash_global_fdtable.end > o.fd, "the table's end (%d) excludes open descriptor %d", (int)squash_global_fdtable.end, o.fd);
			}
			for (int x = -1; x < (int)squash_global_fdtable.nr; x++) {
				bool in = false;
				for (auto &o : v) in |= o.fd == x;
				CHECK((bool)SQUASH_VALID_VFD(x) == in, "descriptor %d is %s", x, in ? "open but not in the table" : "in the table but not open");
			}
			CHECK(ora_in_lib_fds - basefd == (int)v.size(), "%d real descriptors open for %zu virtual ones", ora_in_lib_fds - basefd, v.size());
		}
		for (auto &o : v) CHECK((o.d ? squash_closedir(o.d) : squash_close(o.fd)) == 0, "close at the end failed");
		v.clear();
		for (int rep = 0; rep < 60; rep++) {		// any order of closing releases everything
			size_t before = 0;
			int order[4];
			for (int pass = 0; pass < 2; pass++) {
				before = ora_live.size();
				int f[4];
				SQUASH_DIR *d[4];
				for (int i = 0; i < 4; i++) { order[i] = i; d[i] = NULL; bool dir = (rep >> i) & 1; if (dir) d[i] = squash_opendir(&m.fs, dp[i % 4]); else f[i] = squash_open(&m.fs, fp[i]); }
				for (int i = 3; i > 0; i--) std::swap(order[i], order[below(i + 1)]);
				for (int i : order) if (d[i]) squash_closedir(d[i]); else squash_close(f[i]);
			}
			context = fmt("four opened, closed in the order %d %d %d %d", order[0], order[1], order[2], order[3]);
			CHECK(ora_live.size() <= before, "%zu blocks leaked", ora_live.size() - before);
		}
		// leaks: every failing point of one open/close, with warm caches
		for (int dir = 0; dir < 2; dir++)
			for (int pi = 0; pi < 7; pi++) {
				const char *p = dir ? dp[pi] : fp[pi];
				for (int phase = 0; phase < 3; phase++)
				for (long k = -1; k < 14; k++) {
					context = fmt("%s %s and close, allocation %ld failing", dir ? "squash_opendir" : "squash_open", p, k);
					for (int warm = 0; warm < 2; warm++) {
						size_t before = ora_live.size();
						ora_fail = warm ? k : -1; ora_nalloc = 0;
						ora_io_fail = warm && phase == 1 ? 0 : -1; ora_nio = 0;
						if (dir) { SQUASH_DIR *d = squash_opendir(&m.fs, p); ora_fail = -1; if (d) { if (phase == 2) squash_readdir(d); squash_closedir(d); } }
						else { int fd = squash_open(&m.fs, p); ora_fail = -1; if (fd >= 0) squash_close(fd); }
						ora_fail = ora_io_fail = -1;
						if (warm) CHECK(ora_live.size() <= before, "%zu blocks leaked", ora_live.size() - before);
					}
				}
			}
		(void)base;
	}
}

static void g_C05()
{
	for (int round = 0; more(round, 4); round++) {
		size_t live0 = ora_live.size();
		{
			Image im;
			im.mdmode = below(3);
			im.root = im.mk('d');
			std::vector<Node *> all;
			for (int d = 0; d < 12; d++) {
				Node *dd = im.dir(im.root, fmt("dir%02d", d));
				random_files(im, dd, 20, std::string(1 + below(60), 'a' + d).c_str());
				for (int i = 0; i < 20; i++) im.file(dd, fmt("z%02d", i), im.block + 900 + i, true, below(3));
				Node *b = im.file(dd, "zbad", 3 * im.block + 40, true);
				b->bad.insert(below(4));
			}
			im.build();
			Mount m(im);
			collect(im.root, 0, all);
			// every undecodable block is asked for twice: the second time must fail as well
			for (int k = 0; k < 900; k++) {
				Node *n = all[below(all.size())];
				ora_fail = below(5) == 0 ? (long)below(4) : -1; ora_nalloc = 0; ora_hit = false;
				context = fmt("inode %u read after %d other reads (allocation %ld fails)", n->ino, k, ora_fail);
				sqfs_inode i;
				sqfs_err e = sqfs_inode_get(&m.fs, &i, n->id);
				CHECK(e == SQFS_OK || ora_hit, "cannot be read: %d", e);
				if (e == SQFS_OK) {
					CHECK(i.base.inode_number == n->ino && i.base.mtime == n->mtime, "other bytes than the image has (inode %u, mtime %u)", i.base.inode_number, i.base.mtime);
					if (n->t == 'f') {
						int64_t st = below(n->size + 1);
						int64_t ln = 1 + below(2 * im.block);
						range_check(m, n, i, st, ln);
						ora_fail = -1; ora_hit = false;
						if (below(2)) range_check(m, n, i, st, ln);
					} else if (n->t == 'd') {
						sqfs_dir d;
						sqfs_dir_entry de;
						sqfs_name nm;
						sqfs_dentry_init(&de, nm);
						size_t c = 0;
						e = sqfs_dir_open(&m.fs, &i, &d, 0);
						while (e == SQFS_OK && sqfs_dir_next(&m.fs, &d, &de, &e)) {
							CHECK(c < n->kids.size() && n->kids[c].name == sqfs_dentry_name(&de), "listing differs at entry %zu", c);
							c++;
						}
						CHECK(ora_hit || (e == SQFS_OK && c == n->kids.size()), "listing ended after %zu of %zu entries, error %d", c, n->kids.size(), e);
					}
				}
				ora_fail = -1; ora_hit = false;
			}
		}
		{	// the cache itself: indexes that differ anywhere in 64 bits
			static long disposed; disposed = 0;
			sqfs_cache c;
			size_t n = 1 + below(12);
			context = fmt("a cache of %zu entries", n);
			CHECK(sqfs_cache_init(&c, sizeof(uint64_t), n, [](void *) { disposed++; }) == SQFS_OK, "init failed");
			std::vector<uint64_t> keys;
			uint64_t b = (uint64_t)rnd() << 20 | 5;
			for (int i = 0; i < 10; i++) keys.push_back(b + i);
			for (int i = 0; i < 24; i++) keys.push_back(b ^ (1ull << (20 + i + below(20))));
			long added = 0;
			for (int k = 0; k < 600; k++) {
				uint64_t key = keys[below(keys.size())];
				uint64_t *e = (uint64_t *)sqfs_cache_get(&c, key);
				context = fmt("a cache of %zu entries, operation %d: index %#llx", n, k, (unsigned long long)key);
				if (e) CHECK(*e == key, "the entry of index %#llx is returned", (unsigned long long)*e);
				else {
					e = (uint64_t *)sqfs_cache_add(&c, key); *e = key; added++;
					CHECK(sqfs_cache_get(&c, key) == e, "just added, it is not found");
				}
				CHECK(added - disposed <= (long)n, "%ld added, %ld released", added, disposed);
			}
			sqfs_cache_destroy(&c);
			CHECK(disposed == added, "%ld added, %ld released at the end", added, disposed);
		}
		context = "everything read, image closed";
		CHECK(ora_live.size() == live0, "%zu blocks still allocated", ora_live.size() - live0);
	}
}

static void g_C06()
{
	for (int round = 0; more(round, 6); round++) {
		Image im;
		im.mdmode = below(3);
		im.ids.clear();
		for (int i = 0; i < 40; i++) im.ids.push_back(rnd());
		im.root = im.mk('d');
		const char ts[] = "fdlbcps";
		std::vector<std::string> names;
		for (int i = 0; i < 150; i++) {
			Node *n = im.add(im.root, fmt("n%03d", i), ts[below(7)]);
			n->mode = below(010000);
			n->uid = below(40); n->gid = below(40);
			n->mtime = below(3) ? rnd() : (below(2) ? 0 : 0xffffffffu);
			n->ext = below(2);
			if (n->t != 'f' || n->ext) n->nlink = 1 + below(100000);
			if (n->t == 'f') { n->size = below(3 * im.block); n->frag = below(2); }
			if (n->t == 'l') n->target = std::string(1 + below(200), 'q');
			n->major = below(4096); n->minor = below(3) ? below(256) : below(1 << 20);
		}
		im.build();
		Mount m(im);
		for (auto &e : im.root->kids) {
			Node *n = e.n;
			context = fmt("inode of type %c, %s form, mode %o, links %u, mtime %u, device %u:%u", n->t, n->ext ? "extended" : "basic", n->mode, n->nlink, n->mtime, n->major, n->minor);
			struct stat st, sf;
			CHECK(squash_lstat(&m.fs, ("/" + e.name).c_str(), &st) == 0, "lstat failed, errno %d", errno);
			mode_t ty = n->t == 'f' ? S_IFREG : n->t == 'd' ? S_IFDIR : n->t == 'l' ? S_IFLNK : n->t == 'b' ? S_IFBLK : n->t == 'c' ? S_IFCHR : n->t == 'p' ? S_IFIFO : S_IFSOCK;
			CHECK(st.st_mode == (ty | (mode_t)n->mode), "mode is %o", st.st_mode);
			CHECK(st.st_nlink == n->nlink, "link count is %lu", (unsigned long)st.st_nlink);
			CHECK(st.st_mtime == (time_t)n->mtime, "mtime is %lld", (long long)st.st_mtime);
			if (n->t == 'f') CHECK(st.st_size == (off_t)n->size, "size is %lld, not %llu", (long long)st.st_size, (unsigned long long)n->size);
			if (n->t == 'l') CHECK(st.st_size == (off_t)n->target.size(), "size is %lld, not %zu", (long long)st.st_size, n->target.size());
			if (n->t == 'b' || n->t == 'c') CHECK(major(st.st_rdev) == n->major && minor(st.st_rdev) == n->minor, "device is %u:%u", major(st.st_rdev), minor(st.st_rdev));
			if (n->t != 'l') {
				CHECK(squash_stat(&m.fs, ("/" + e.name).c_str(), &sf) == 0 && !memcmp(&st, &sf, sizeof st), "stat and lstat differ");
				int fd = squash_open(&m.fs, ("/" + e.name).c_str());
				memset(&sf, 1, sizeof sf);
				CHECK(fd >= 0 && squash_fstat(fd, &sf) == 0 && !memcmp(&st, &sf, sizeof st), "fstat and lstat differ");
				squash_close(fd);
			}
			sqfs_inode i = m.get(n);
			sqfs_id_t u = 0, g = 0;
			CHECK(sqfs_id_get(&m.fs, i.base.uid, &u) == SQFS_OK && u == im.ids[n->uid], "owner is %u, not %u", u, im.ids[n->uid]);
			CHECK(sqfs_id_get(&m.fs, i.base.guid, &g) == SQFS_OK && g == im.ids[n->gid], "group is %u, not %u", g, im.ids[n->gid]);
			if (n->t == 'd') {
				sqfs_dir d;
				CHECK(sqfs_dir_open(&m.fs, &i, &d, 0) == SQFS_OK, "the directory cannot be opened");
			} else if (n->t == 'f') range_check(m, n, i, 0, n->size + 1);
			else if (n->t == 'l') {
				std::vector<char> b(n->target.size() + 1);
				CHECK(squash_readlink(&m.fs, ("/" + e.name).c_str(), b.data(), b.size()) == (ssize_t)n->target.size() && n->target == b.data(), "link target differs");
			}
		}
		Image im2;
		im2.root = im2.mk('d');
		im2.add(im2.root, "weird", '?');
		im2.file(im2.root, "ok", 5);
		im2.build();
		Mount m2(im2);
		context = "inode of unknown type";
		struct stat st;
		CHECK(squash_lstat(&m2.fs, "/weird", &st) == -1, "was reported with mode %o", st.st_mode);
	}
}

static std::string rname(size_t n) { std::string s; while (s.size() < n) s += "abcdefghijklmnopqrstuvwxyz0123456789._-"[below(39)]; if (s == "." || s == "..") s[0] = 'k'; return s; }

static void random_dir(Image &im, Node *d, int n, int style)
{
	std::set<std::string> seen;
	const char ts[] = "fdlbcps";
	while ((int)seen.size() < n) {
		size_t len = style == 0 ? 1 + below(3) : style == 1 ? 1 + below(20) : style == 2 ? 240 + below(17) : below(8) ? 1 + below(12) : 256 - below(3);
		std::string s = rname(len);
		if (style == 3 && !seen.empty() && below(2)) { auto i = seen.begin(); std::advance(i, below(seen.size())); s = *i + rname(1 + below(3)); if (s.size() > 256) s.resize(256); }
		if (!seen.insert(s).second) continue;
		Node *k = im.add(d, s, ts[below(7)]);
		if (k->t == 'l') k->target = rname(1 + below(50));
		k->ext = below(4) == 0;
	}
}

static int dtype(char t) { return t == 'f' ? DT_REG : t == 'd' ? DT_DIR : t == 'l' ? DT_LNK : t == 'b' ? DT_BLK : t == 'c' ? DT_CHR : t == 'p' ? DT_FIFO : DT_SOCK; }

static void dirent_check(struct SQUASH_DIRENT *e, const Ent &k, size_t at)
{
	std::string want = k.name.substr(0, sizeof(e->d_name) - 1);
	CHECK(want == e->d_name, "entry %zu is named '%s', the directory has '%s' there", at, e->d_name, want.c_str());
	CHECK(e->d_ino == k.n->ino, "entry %zu has inode number %lu, not %u", at, (unsigned long)e->d_ino, k.n->ino);
	CHECK(e->d_type == dtype(k.n->t), "entry %zu has type %d, not %d", at, e->d_type, dtype(k.n->t));
}

static void g_C07()
{
	for (int round = 0; more(round, 8); round++) {
		Image im;
		im.mdmode = below(3);
		im.shuffle = below(2);
		im.root = im.mk('d');
		int sizes[] = {0, 1, 2, 9, 10, 11, 25, 257, 600, 40, 110};
		std::vector<Node *> ds;
		for (int i = 0; i < 8; i++) {
			Node *d = im.dir(im.root, fmt("d%d", i));
			d->ext = below(2); d->idxmode = below(4); d->split = below(3) ? 256 : 1 + below(6);
			random_dir(im, d, sizes[below(11)], below(4));
			ds.push_back(d);
		}
		im.build();
		Mount m(im);
		for (Node *d : ds) {
			size_t n = d->kids.size();
			std::string path;
			for (auto &e : im.root->kids) if (e.n == d) path = "/" + e.name;
			SQUASH_DIR *s = squash_opendir(&m.fs, path.c_str());
			context = fmt("directory of %zu entries", n);
			CHECK(s, "opendir failed, errno %d", errno);
			size_t pos = 0;
			bool injected = round & 1;
			std::string hist;
			for (size_t k = 0; k < 3 * n + 30; k++) {
				int op = k < n + 3 && !injected ? 0 : below(12);
				context = fmt("directory of %zu entries, operation %zu at position %zu (after%s)", n, k, pos, hist.size() > 200 ? hist.substr(hist.size() - 200).c_str() : hist.c_str());
				if (op < 8) {
					ora_fail = injected && below(3) == 0 ? 0 : -1; ora_nalloc = 0; ora_hit = false;
					errno = 0;
					struct SQUASH_DIRENT *e = squash_readdir(s);
					bool hit = ora_hit;
					int er = errno;
					ora_fail = -1; ora_hit = false;
					hist += " readdir";
					if (!e) CHECK(hit && pos < n ? er != 0 : hit || er == 0, "no entry %zu of %zu: errno is %d", pos, n, er);
					if (e) { CHECK(pos < n, "an entry '%s' after the last", e->d_name); dirent_check(e, d->kids[pos], pos); pos++; }
					else if (hit) hist += "(no memory)";
					else CHECK(pos >= n, "no entry %zu of %zu", pos, n);
				} else if (op == 8) { squash_rewinddir(s); pos = 0; hist += " rewind"; }
				else if (op == 9) { CHECK(squash_telldir(s) == (long)pos, "telldir is %ld", squash_telldir(s)); }
				else if (op == 10) { size_t p = below(n + 1); squash_seekdir(s, p); pos = p; hist += fmt(" seek(%zu)", p); }
				else { squash_seekdir(s, squash_telldir(s)); }
			}
			CHECK(squash_closedir(s) == 0, "closedir failed");
			// the decoder itself, from any entry's offset
			sqfs_inode i = m.get(d);
			auto &dp = im.dirpos[d];
			for (int k = 0; k < 12 && n; k++) {
				size_t a = k ? below(n) : 0;
				uint32_t off = a == 0 ? 0 : 0;
				sqfs_dir sd;
				sqfs_dir_entry de;
				sqfs_name nm;
				sqfs_dentry_init(&de, nm);
				sqfs_err e;
				if (a) {	// the offset after entry a-1
					off = dp[a - 1].first;
					uint32_t end = off + 8 + dp[a - 1].second.size();
					off = end;
				}
				context = fmt("sqfs_dir_open of a directory of %zu entries (index mode %d, split %d) at offset %u, before entry %zu", n, d->idxmode, d->split, off, a);
				e = sqfs_dir_open(&m.fs, &i, &sd, off);
				CHECK(e == SQFS_OK, "error %d", e);
				for (size_t b = a; b < n; b++) {
					CHECK(sqfs_dir_next(&m.fs, &sd, &de, &e) && e == SQFS_OK, "no entry %zu (error %d)", b, e);
					CHECK(d->kids[b].name == sqfs_dentry_name(&de) && de.inode == d->kids[b].n->id && de.inode_number == d->kids[b].n->ino, "entry %zu is '%s'", b, sqfs_dentry_name(&de));
				}
				CHECK(!sqfs_dir_next(&m.fs, &sd, &de, &e) && e == SQFS_OK, "no clean end (error %d)", e);
				uint32_t mid = 1 + below(dp[n - 1].first + 7);
				bool edge = false;
				for (auto &x : dp) edge |= x.first + 8 + x.second.size() == mid;
				if (!edge) {
					context = fmt("sqfs_dir_open at offset %u, inside an entry", mid);
					CHECK(sqfs_dir_open(&m.fs, &i, &sd, mid) != SQFS_OK, "succeeded");
				}
			}
		}
		// a directory whose listing cannot be decoded
		Image ib;
		ib.mdmode = 1;
		ib.root = ib.mk('d');
		for (int i = 0; i < 900; i++) ib.file(ib.root, fmt("some-long-name-%04d", i), 0);
		ib.build();
		size_t second = ib.dir_table + 2 + ((ib.bytes[ib.dir_table] | ib.bytes[ib.dir_table + 1] << 8) & 0x7fff);
		memset(&ib.bytes[second + 2], 0x55, 40);
		Mount mb(ib);
		SQUASH_DIR *s = squash_opendir(&mb.fs, "/");
		context = "directory with an undecodable second block";
		if (s) {
			size_t c = 0;
			struct SQUASH_DIRENT *e;
			errno = 0;
			while ((e = squash_readdir(s))) { CHECK(c < 900, "made-up entries"); dirent_check(e, ib.root->kids[c], c); c++; }
			CHECK(c < 900, "all entries delivered");
			CHECK(errno, "the end is reported at entry %zu of 900", c);
			for (int k = 0; k < 3; k++) CHECK(!(e = squash_readdir(s)), "an entry '%s' was made up after the error at entry %zu", e->d_name, c);
			squash_closedir(s);
		}
	}
}

static void g_C08()
{
	for (int round = 0; more(round, 6); round++) {
		Image im;
		im.mdmode = below(3);
		im.root = im.mk('d');
		int sizes[] = {0, 1, 3, 30, 300, 700};
		std::vector<Node *> ds;
		for (int i = 0; i < 6; i++) {
			Node *d = im.dir(im.root, fmt("d%d", i));
			d->ext = below(2); d->idxmode = below(4); d->split = below(2) ? 256 : 1 + below(6);
			random_dir(im, d, sizes[below(6)], below(4));
			ds.push_back(d);
		}
		im.build();
		Mount m(im);
		for (Node *d : ds) {
			sqfs_inode i = m.get(d);
			std::map<std::string, Node *> mp;
			for (auto &e : d->kids) mp[e.name] = e.n;
			for (int k = 0; k < 250; k++) {
				std::string q = rname(1 + below(5));
				if (!d->kids.empty() && below(5)) {
					q = d->kids[below(d->kids.size())].name;
					int how = below(8);
					if (how == 0 && q.size() > 1) q.resize(q.size() - 1);
					else if (how == 1) q += "a";
					else if (how == 2) q[below(q.size())]++;
					else if (how == 3) q += rname(300);
					else if (how == 4 && q.size() > 1) q.resize(1 + below(q.size() - 1));
				}
				sqfs_dir_entry de;
				sqfs_name nm;
				memset(nm, 'z', sizeof nm);
				sqfs_dentry_init(&de, nm);
				short found = 7;
				std::string arg = q + "/rest";	// the name is not terminated
				context = fmt("lookup of '%s' in a directory of %zu entries (index mode %d, split %d)", q.c_str(), d->kids.size(), d->idxmode, d->split);
				sqfs_err e = sqfs_dir_lookup(&m.fs, &i, arg.c_str(), q.size(), &de, &found);
				CHECK(e == SQFS_OK, "error %d", e);
				auto it = mp.find(q);
				CHECK((bool)found == (it != mp.end()), found ? "found, but there is no such entry" : "not found, but the entry is there");
				if (found) CHECK(de.inode == it->second->id && de.inode_number == it->second->ino && q == sqfs_dentry_name(&de), "yields another entry ('%s')", sqfs_dentry_name(&de));
			}
			for (auto &e : d->kids) if (e.n->t != 'd') {
				sqfs_inode x = m.get(e.n);
				sqfs_dir_entry de;
				sqfs_name nm;
				sqfs_dentry_init(&de, nm);
				short found = 0;
				context = "lookup in something that is not a directory";
				CHECK(sqfs_dir_lookup(&m.fs, &x, "a", 1, &de, &found) != SQFS_OK, "no error");
				break;
			}
		}
	}
}

// ------------------------------------------------------------------ C09: two readings of a path
struct Res { int st; Node *n; int links; };	// st: 0 found, 1 not found, 2 loop, 3 unclear
static std::vector<std::string> comps(const std::string &p)
{
	std::vector<std::string> v;
	size_t i = 0;
	while (i < p.size()) { size_t j = p.find('/', i); if (j == std::string::npos) j = p.size(); if (j > i && p.substr(i, j - i) != ".") v.push_back(p.substr(i, j - i)); i = j + 1; }
	return v;
}
static Node *child(Node *d, const std::string &s) { if (d->t != 'd') return NULL; for (auto &e : d->kids) if (e.name == s) return e.n; return NULL; }
// dot-dot taken from the text
static Res lexical(Image &im, std::vector<std::string> base, const std::string &path, bool follow, int &links, int depth)
{
	if (depth > 60) return {2, NULL, links};
	std::vector<std::string> c = base;
	for (auto &s : comps(path)) { if (s == "..") { if (c.empty()) return {1, NULL, links}; c.pop_back(); } else c.push_back(s); }
	Node *n = im.root;
	for (size_t i = 0; i < c.size(); i++) {
		Node *k = child(n, c[i]);
		if (!k) return {1, NULL, links};
		std::vector<std::string> here(c.begin(), c.begin() + i);
		std::string t;
		if (k->t == 'l' && (i + 1 < c.size() || follow)) {
			if (++links > 32) return {2, NULL, links};
			t = k->target;
			Res r = lexical(im, t[0] == '/' ? std::vector<std::string>() : here, t, true, links, depth + 1);
			if (r.st) return r;
			k = r.n;
		}
		n = k;
	}
	return {0, n, links};
}
// dot-dot taken from the tree
static Res physical(Image &im, std::vector<Node *> cwd, const std::string &path, bool follow, int &links)
{
	std::vector<std::string> c = comps(path);
	std::vector<std::string> todo(c.rbegin(), c.rend());
	if (path[0] == '/') cwd = {im.root};
	while (!todo.empty()) {
		std::string s = todo.back();
		todo.pop_back();
		if (s == "..") { if (cwd.size() < 2) return {1, NULL, links}; cwd.pop_back(); continue; }
		Node *k = child(cwd.back(), s);
		if (!k) return {1, NULL, links};
		if (k->t == 'l' && (!todo.empty() || follow)) {
			if (++links > 32) return {2, NULL, links};
			if (k->target[0] == '/') cwd = {im.root};
			auto t = comps(k->target);
			todo.insert(todo.end(), t.rbegin(), t.rend());
			continue;
		}
		cwd.push_back(k);
	}
	return {0, cwd.back(), links};
}

static std::string rpath(Image &, const std::vector<std::string> &known)
{
	std::string p;
	int n = 1 + below(5);
	for (int i = 0; i < n; i++) {
		const char *sl[] = {"/", "/", "/", "//", "///", "/./", "/.//./"};
		p += sl[below(7)];
		int k = below(12);
		p += k == 0 ? ".." : k == 1 ? "..." : k == 2 ? "." : k == 3 ? "nope" : known[below(known.size())];
	}
	const char *en[] = {"", "", "", "/", "//", "/.", "/..", "/./"};
	p += en[below(8)];
	if (below(6) == 0) p.erase(0, 1);
	return p;
}

static void path_check(Mount &m, Image &im, const std::string &p)
{
	for (int follow = 0; follow < 2; follow++) {
		int l1 = 0, l2 = 0;
		bool slash = p.size() && p.back() == '/';
		size_t last = p.find_last_not_of('/');
		bool dotted = last != std::string::npos && p[last] == '.';
		if (!follow && (slash || dotted)) continue;	// whether a trailing slash follows the link is not pinned down
		Res a = lexical(im, {}, p, follow, l1, 0), b = physical(im, {im.root}, p, follow, l2);
		if (a.st != b.st || a.n != b.n) continue;
		if (l1 != l2 && (l1 > 32 || l2 > 32)) continue;
		if (l2 > 20 && l2 <= 32 && a.st == 0) { }
		context = fmt("%s of '%s'", follow ? "stat" : "lstat", p.c_str());
		struct stat st;
		errno = 0;
		int r = follow ? squash_stat(&m.fs, p.c_str(), &st) : squash_lstat(&m.fs, p.c_str(), &st);
		if (a.st == 0) {
			CHECK(r == 0, "failed with errno %d; the path names inode %u", errno, a.n->ino);
			CHECK(st.st_mtime == (time_t)a.n->mtime, "resolved to another inode (mtime %lld, expected inode %u, mtime %u)", (long long)st.st_mtime, a.n->ino, a.n->mtime);
		} else {
			CHECK(r == -1, "succeeded (mtime %lld), but the path names nothing", (long long)st.st_mtime);
			if (a.st == 2) CHECK(errno == ELOOP, "a link loop ended with errno %d", errno);
			else CHECK(errno == ENOENT || errno == ENOTDIR, "errno is %d", errno);
		}
		if (follow && a.st == 0 && below(4) == 0) {
			int fd = squash_open(&m.fs, p.c_str());
			CHECK(fd >= 0 && squash_fstat(fd, &st) == 0 && st.st_mtime == (time_t)a.n->mtime, "open resolves differently");
			squash_close(fd);
		}
	}
}

static void g_C09()
{
	for (int round = 0; more(round, 5); round++) {
		Image im;
		im.root = im.mk('d');
		std::vector<std::string> names = {"a", "b", "cc", "d.d", "...", "..x", "x.."};
		std::vector<Node *> dirs = {im.root};
		std::vector<std::string> known = names;
		for (int i = 0; i < 9; i++) {
			Node *d = dirs[below(dirs.size())];
			std::string nm = names[below(names.size())];
			if (child(d, nm)) continue;
			dirs.push_back(im.dir(d, nm));
		}
		for (int i = 0; i < 8; i++) { Node *d = dirs[below(dirs.size())]; std::string nm = fmt("f%d", i % 3); if (!child(d, nm)) im.file(d, nm, 3 + i); }
		for (const char *s : {"f0", "f1", "f2", "l0", "l1", "l2", "l3"}) known.push_back(s);
		for (int i = 0; i < 14; i++) {
			Node *d = dirs[below(dirs.size())];
			std::string nm = fmt("l%d", i % 4);
			if (child(d, nm)) continue;
			std::string t;
			int n = 1 + below(3);
			if (below(3) == 0) t = "/";
			for (int k = 0; k < n; k++) { if (k) t += below(5) ? "/" : "//"; int q = below(9); t += q == 0 ? ".." : q == 1 ? "." : known[below(known.size())]; }
			if (below(7) == 0) t += "/";
			if (below(9) == 0) t = "./" + t;
			im.link(d, nm, t);
		}
		// chains of exactly 31, 32, 33 links and cycles, absolute and relative, short and through directories
		Node *ch = im.dir(im.root, "chain");
		for (int i = 0; i < 40; i++) im.link(ch, fmt("r%02d", i), i ? fmt("r%02d", i - 1) : "end");
		for (int i = 0; i < 40; i++) im.link(ch, fmt("s%02d", i), i ? fmt("/chain/s%02d", i - 1) : "/chain/end");
		im.file(ch, "end", 1);
		im.link(ch, "self", "self"); im.link(ch, "abs", "/chain/abs"); im.link(ch, "p", "q"); im.link(ch, "q", "p");
		im.link(ch, "dirloop", "dirloop/x"); im.link(ch, "ts", "r00/"); im.link(ch, "tod", "../chain/"); im.link(ch, "gone", "missing");
		im.link(ch, "long", std::string(300, '/') + "chain/end");
		im.link(ch, "dots", "./././end"); im.link(ch, "updown", "../chain/./end"); im.link(ch, "above", "../../chain/end");
		im.build();
		Mount m(im);
		for (int i = 0; i < 40; i++) { path_check(m, im, fmt("/chain/r%02d", i)); path_check(m, im, fmt("/chain/s%02d", i)); path_check(m, im, fmt("chain//r%02d", i)); }
		for (const char *s : {"self", "abs", "p", "q", "dirloop", "dirloop/y", "ts", "tod", "tod/end", "tod/tod/r03", "gone", "gone/x", "long", "dots", "updown", "above", "end/", "end/x", "r05", "tod/..", "./end", "../chain/end", "../..", "../../x", "x/../end", "..", "."})
			path_check(m, im, std::string("/chain/") + s);
		for (const char *s : {"", "/", "//", ".", "..", "/..", "/../", "/.", "/./", "a/../../chain", "/chain/../chain/end", "/nope/../chain/end", "/chain/end/../end", "/...", "..x", "/chain/./", "/chain//../chain//end"})
			path_check(m, im, s);
		for (int k = 0; k < 3000; k++) path_check(m, im, rpath(im, known));
		// very long paths
		for (int n : {2040, 2046, 2047, 2048, 2049, 2100, 5000}) {
			std::string p = "/chain/" + std::string(n, '/') + "end";
			path_check(m, im, p);
			struct stat st;
			context = fmt("stat through a link under a path of %d slashes", n);
			errno = 0;
			int r = squash_stat(&m.fs, ("/chain/" + std::string(n, '/') + "r03").c_str(), &st);
			CHECK(r == 0 || errno, "failed without an error number");
		}
		// out of memory: an error, never a wrong answer
		for (long k = 0; k < 6; k++) {
			ora_fail = k; ora_nalloc = 0; ora_hit = false;
			struct stat st;
			errno = 0;
			int r = squash_stat(&m.fs, "/chain/r02", &st);
			bool hit = ora_hit;
			ora_fail = -1; ora_hit = false;
			context = fmt("stat with allocation %ld failing", k);
			CHECK(hit || r == 0, "failed");
			if (r == 0) CHECK(st.st_mtime == (time_t)child(ch, "end")->mtime, "wrong file");
		}
	}
}

static void g_C10()
{
	for (int round = 0; more(round, 5); round++) {
		Image im;
		im.mdmode = below(3);
		im.root = im.mk('d');
		std::vector<std::string> ts;
		for (int i = 0; i < 60; i++) {
			std::string t = rname(1 + (i < 30 ? i : below(300)));
			if (i % 7 == 3) t = "/mnt/x/" + t;
			if (i % 7 == 4) t = "/mnt/x" + t;
			if (i % 7 == 5) t = "a/mnt/x/" + t;
			if (i == 40) t = "/mnt/x/";
			if (i == 41) t = "/other/" + t;
			Node *l = im.link(im.root, fmt("l%02d", i), t);
			l->ext = below(2);
		}
		im.file(im.root, "file", 3);
		im.dir(im.root, "dir");
		im.build();
		Mount m(im);
		for (int alias = 0; alias < 4; alias++) {
			m.fs.root_alias = alias & 1 ? "/mnt/x/" : NULL;
			m.fs.root_alias2 = alias & 2 ? "/other/" : NULL;
			for (auto &e : im.root->kids) {
				if (e.n->t != 'l') continue;
				std::string want = e.n->target;
				if ((alias & 1) && want.compare(0, 7, "/mnt/x/") == 0) want = want.substr(6);
				else if ((alias & 2) && want.compare(0, 7, "/other/") == 0) want = want.substr(6);
				size_t n = e.n->target.size();
				size_t bs[] = {0, 1, 2, n - 1, n, n + 1, n + 2, n + 100, below(n + 3)};
				for (size_t b : bs) {
					context = fmt("squash_readlink of a link to '%s' into a buffer of %zu bytes (alias %s %s)", e.n->target.c_str(), b, m.fs.root_alias ? m.fs.root_alias : "-", m.fs.root_alias2 ? m.fs.root_alias2 : "-");
					char *buf = (char *)malloc(b + 8);
					memset(buf, 0x77, b + 8);
					errno = 0;
					ssize_t r = squash_readlink(&m.fs, ("/" + e.name).c_str(), buf, b);
					for (int i = 0; i < 8; i++) CHECK(buf[b + i] == 0x77, "a byte outside the buffer was written");
					if (n < b) {
						CHECK(r == (ssize_t)want.size(), "returned %zd, expected %zu", r, want.size());
						CHECK(want == buf, "delivered '%s'", buf);
					} else CHECK(r == -1 && errno == ENAMETOOLONG, "returned %zd, errno %d", r, errno);
					sqfs_inode i = m.get(e.n);
					memset(buf, 0x77, b + 8);
					size_t sz = b;
					context = fmt("sqfs_readlink of a link to '%s' into a buffer of %zu bytes", e.n->target.c_str(), b);
					sqfs_err er = sqfs_readlink(&m.fs, &i, buf, &sz);
					for (int q = 0; q < 8; q++) CHECK(buf[b + q] == 0x77, "a byte outside the buffer was written");
					if (b > 0 && er == SQFS_OK) {
						size_t w = std::min(n, b - 1);
						CHECK(!memcmp(buf, e.n->target.data(), w) && buf[w] == 0, "delivered other bytes");
					} else CHECK(b == 0 || er == SQFS_OK, "error %d", er);
					free(buf);
				}
				sqfs_inode i = m.get(e.n);
				size_t sz = 0;
				context = "sqfs_readlink asked for the size";
				CHECK(sqfs_readlink(&m.fs, &i, NULL, &sz) == SQFS_OK && sz == n + 1, "size is %zu", sz);
			}
		}
		char b[10];
		context = "readlink of something else";
		errno = 0; CHECK(squash_readlink(&m.fs, "/file", b, 10) == -1 && errno == EINVAL, "file: errno %d", errno);
		errno = 0; CHECK(squash_readlink(&m.fs, "/dir", b, 10) == -1 && errno == EINVAL, "directory: errno %d", errno);
		errno = 0; CHECK(squash_readlink(&m.fs, "/none", b, 10) == -1 && errno == ENOENT, "missing: errno %d", errno);
		sqfs_inode f = m.get(child(im.root, "file"));
		size_t sz = 10;
		CHECK(sqfs_readlink(&m.fs, &f, b, &sz) != SQFS_OK, "sqfs_readlink of a file succeeded");
	}
}

static std::vector<std::string> sc_seen;
static unsigned sc_mod;
static unsigned hs(const char *s) { unsigned h = 5; while (*s) h = h * 31 + *s++; return h; }
static int sc_select(const struct SQUASH_DIRENT *e) { sc_seen.push_back(e->d_name); return hs(e->d_name) % sc_mod == 0; }
static int sc_cmp(const struct SQUASH_DIRENT **a, const struct SQUASH_DIRENT **b) { return -strcmp((*a)->d_name, (*b)->d_name); }

static void g_C11()
{
	for (int round = 0; more(round, 4); round++) {
		Image im;
		im.root = im.mk('d');
		int sizes[] = {0, 1, 10, 30, 1023, 1024, 1025, 2049};
		for (int i = 0; i < 5; i++) {
			Node *d = im.dir(im.root, fmt("d%d", i));
			random_dir(im, d, i == 4 ? sizes[4 + round % 4] : sizes[below(4)], 1);
			if (below(2)) im.file(d, rname(200 + below(56)), 1);
			d->split = 1 + below(256);
		}
		im.build();
		Mount m(im);
		for (auto &de : im.root->kids) {
			Node *d = de.n;
			std::string path = "/" + de.name;
			long fails = 3 * d->kids.size() + 12;
			for (long k = -1; k < fails && (k < 40 || d->kids.size() < 60); k++)
				for (int mode = 0; mode < 4; mode++) {
					if (k >= 0 && mode != (int)(k % 4)) continue;
					sc_mod = mode & 1 ? 2 : 1;
					if (mode == 3 && k < 0) sc_mod = 1000000007;
					bool sel = mode & 1, cmp = mode & 2;
					sc_seen.clear();
					context = fmt("squash_scandir of %zu entries (%s filter, %s order, allocation %ld fails)", d->kids.size(), sel ? "with" : "no", cmp ? "reverse" : "no", k);
					struct SQUASH_DIRENT **nl = NULL;
					size_t live = ora_live.size();
					int fds = ora_in_lib_fds;
					ora_fail = k; ora_nalloc = 0; ora_hit = false;
					errno = 0;
					int r = squash_scandir(&m.fs, path.c_str(), &nl, sel ? sc_select : NULL, cmp ? sc_cmp : NULL);
					bool hit = ora_hit;
					ora_fail = -1; ora_hit = false;
					CHECK(ora_in_lib_fds == fds, "a descriptor is left open");
					if (r < 0) { CHECK(hit, "failed, errno %d", errno); continue; }
					std::vector<std::string> want;
					for (auto &e : d->kids) { std::string s = e.name.substr(0, 255); if (!sel || hs(s.c_str()) % sc_mod == 0) want.push_back(s); }
					if (cmp) { std::sort(want.begin(), want.end()); std::reverse(want.begin(), want.end()); }
					{
						CHECK((size_t)r == want.size(), "returned %d, expected %zu", r, want.size());
						CHECK(nl, "no array");
						for (int i = 0; i < r; i++) {
							CHECK(want[i] == nl[i]->d_name, "entry %d is '%s', expected '%s'", i, nl[i]->d_name, want[i].c_str());
							for (auto &e : d->kids) if (e.name == want[i]) CHECK(nl[i]->d_ino == e.n->ino && nl[i]->d_type == dtype(e.n->t), "entry %d has a wrong inode number or type", i);
						}
						if (sel) {
							CHECK(sc_seen.size() == d->kids.size(), "the filter saw %zu entries of %zu", sc_seen.size(), d->kids.size());
							for (size_t i = 0; i < sc_seen.size(); i++) CHECK(sc_seen[i] == d->kids[i].name.substr(0, 255), "the filter saw '%s'", sc_seen[i].c_str());
						}
						for (int i = 0; i < r; i++) ora_free(nl[i]);
						ora_free(nl);
						if (k > 0) CHECK(ora_live.size() <= live + 40, "%zu blocks leaked", ora_live.size() - live);
					}
				}
			// with warm caches, failing at any point leaks nothing
			for (long k = -1; k < 60; k++) {
				struct SQUASH_DIRENT **nl = NULL;
				squash_scandir(&m.fs, path.c_str(), &nl, NULL, NULL);
				// (freed below through a second, failing, scan's baseline)
				std::set<void *> base = ora_live;
				struct SQUASH_DIRENT **n2 = NULL;
				context = fmt("squash_scandir of %zu entries, allocation %ld failing", d->kids.size(), k);
				ora_fail = k; ora_nalloc = 0; ora_hit = false;
				int r = squash_scandir(&m.fs, path.c_str(), &n2, NULL, NULL);
				ora_fail = -1; ora_hit = false;
				if (r >= 0) { for (int i = 0; i < r; i++) ora_free(n2[i]); ora_free(n2); }
				CHECK(ora_live.size() <= base.size(), "%zu blocks leaked (result %d)", ora_live.size() - base.size(), r);
				if (nl) { int c = d->kids.size(); for (int i = 0; i < c; i++) ora_free(nl[i]); ora_free(nl); }
				if (d->kids.size() > 500 && k > 6) break;
			}
		}
		struct SQUASH_DIRENT **nl = NULL;
		context = "squash_scandir of a missing directory";
		CHECK(squash_scandir(&m.fs, "/nodir", &nl, NULL, NULL) == -1, "succeeded");
	}
}

static int count_files(const char *dir)
{
	DIR *d = opendir(dir);
	int c = 0;
	while (struct dirent *e = readdir(d)) if (e->d_name[0] != '.') c++;
	closedir(d);
	return c;
}

static void g_C12()
{
	char tmpl[] = "/tmp/lsqora.XXXXXX";
	char *dir = mkdtemp(tmpl);
	setenv("TMPDIR", dir, 1);
	context = "squash_tmpdir";
	{ const char *t = (const char *)squash_tmpdir(); CHECK(t && !strcmp(t, dir), "is '%s'", t ? t : "(null)"); ora_free((void *)t); }
	for (int round = 0; more(round, 4); round++) {
		Image im, im2;
		for (Image *x : {&im, &im2}) {
			small_tree(*x);
			for (int i = 0; i < 6; i++) x->file(x->root, fmt("e%d", i), i < 4 ? 16384 * i + (int)below(3) - (i ? 1 : 0) : below(70000), below(2), below(3))->seed += x == &im ? 0 : 77;
			x->file(x->root, "leak", 20000);
			x->build();
		}
		Mount m(im), m2(im2);
		std::map<std::pair<sqfs *, std::string>, std::string> cache;
		const char *ps[] = {"/e0", "/e1", "/e2", "/e3", "/e4", "/e5", "/big", "/ln", "/empty", "/bad", "/none", "/dir/one"};
		for (int k = 0; k < 80; k++) {
			if (below(12) == 0) {
				context = "squash_extract_clear_cache";
				squash_extract_clear_cache();
				cache.clear();
				CHECK(count_files(dir) == 0, "%d extracted files left", count_files(dir));
				continue;
			}
			Mount &mm = below(2) ? m : m2;
			std::string p = ps[below(12)];
			const char *ext = below(2) ? "so" : NULL;
			bool in = below(4) == 0, io = below(4) == 0;
			ora_fail = in ? (long)below(14) : -1; ora_nalloc = 0;
			ora_io_fail = io ? (long)below(6) : -1; ora_nio = 0; ora_hit = false;
			context = fmt("squash_extract %s (%s image, allocation %ld, file operation %ld fails)", p.c_str(), &mm == &m ? "first" : "second", ora_fail, ora_io_fail);
			int files0 = count_files(dir), fds0 = ora_in_lib_fds;
			size_t streams0 = ora_files.size();
			char pathbuf[64];
			strcpy(pathbuf, p.c_str());
			const char *r = squash_extract(&mm.fs, pathbuf, ext);
			strcpy(pathbuf, "/overwritten");	// the caller's own buffer
			bool hit = ora_hit;
			ora_fail = ora_io_fail = -1; ora_hit = false;
			CHECK(ora_in_lib_fds == fds0, "%d descriptors left open", ora_in_lib_fds - fds0);
			CHECK(ora_files.size() == streams0, "a stream is left open");
			auto key = std::make_pair(&mm.fs, p);
			bool exists = p != "/none" && p != "/bad";
			if (cache.count(key)) { CHECK(r && cache[key] == r, "a second extraction yields %s instead of %s", r ? r : "nothing", cache[key].c_str()); CHECK(count_files(dir) == files0, "another file appeared"); }
			else if (!r) { CHECK(hit || !exists, "failed, errno %d", errno); CHECK(count_files(dir) == files0, "a partial file is left behind"); continue; }
			else {
				CHECK(exists, "succeeded");
				for (auto &c : cache) CHECK(c.second != r, "the name is used by another extracted file");
				if (ext) CHECK(std::string(r).size() > 3 && std::string(r).compare(strlen(r) - 3, 3, ".so") == 0, "extension missing: %s", r);
				CHECK(std::string(r).compare(0, strlen(dir), dir) == 0, "not in the temporary directory: %s", r);
				CHECK(count_files(dir) == files0 + 1, "%d new files", count_files(dir) - files0);
				if (!hit) cache[key] = r;
			}
			Node *n = child(mm.im.root, p == "/ln" || p == "/dir/one" ? "dir" : p.substr(1));
			if (p == "/ln" || p == "/dir/one") n = child(n, "one");
			FILE *f = fopen(r, "rb");
			CHECK(f, "the file is not there");
			uint64_t at = 0;
			int c;
			while ((c = getc(f)) != EOF) { CHECK(at < n->size && c == mm.im.at(n, at), "content differs at %llu", (unsigned long long)at); at++; }
			fclose(f);
			CHECK(at == n->size, "%llu bytes of %llu", (unsigned long long)at, (unsigned long long)n->size);
			if (hit && !cache.count(key)) { std::string s = r; if (squash_extract(&mm.fs, p.c_str(), NULL) == s) cache[key] = s; else { unlink(s.c_str()); cache[key] = squash_extract(&mm.fs, p.c_str(), NULL); } }
		}
		squash_extract_clear_cache();
		context = "squash_extract_clear_cache";
		CHECK(count_files(dir) == 0, "%d extracted files left", count_files(dir));
		squash_extract_clear_cache();
		// leaks of a failing extraction with warm caches
		for (long k = -1; k < 20; k++) for (long io = -1; io < 6; io++) {
			for (int w = 0; w < 2; w++) {
				size_t live = ora_live.size();
				ora_fail = w ? k : -1; ora_nalloc = 0; ora_io_fail = w ? io : -1; ora_nio = 0; ora_hit = false;
				context = fmt("squash_extract and clear, allocation %ld and file operation %ld failing", k, io);
				const char *r = squash_extract(&m.fs, "/leak", "x");
				ora_fail = ora_io_fail = -1;
				bool hit = ora_hit;
				ora_hit = false;
				std::string s = r ? r : "";
				squash_extract_clear_cache();
				if (w && r && hit && access(s.c_str(), F_OK) == 0) { unlink(s.c_str()); continue; }	// extracted, could not be remembered
				if (w) CHECK(ora_live.size() <= live, "%zu blocks leaked", ora_live.size() - live);
				CHECK(count_files(dir) == 0, "a file is left behind");
			}
		}
	}
	rmdir(dir);
}

static void g_C13()
{
	FILE *se = freopen("/dev/null", "w", stderr);
	(void)se;
	Image im;
	small_tree(im);
	im.build();
	for (int round = 0; more(round, 400); round++) {
		Bytes b = im.bytes;
		size_t off = below(3) * 11;
		int what = round % 14;
		sqfs_err want = SQFS_OK;
		bool any = false;
		auto set = [&](size_t at, uint64_t v, int n) { for (int i = 0; i < n; i++) b[at + i] = (uint8_t)(v >> (8 * i)); };
		uint32_t v = rnd();
		if (what == 1) { int bit = below(32); b[bit / 8] ^= 1 << (bit % 8); want = SQFS_BADFORMAT; if (b[0] == 0x68 && b[1] == 0x73 && b[2] == 0x71 && b[3] == 0x73) any = true; }
		if (what == 2) { v = below(2) ? below(8) : v & 0xffff; set(28, v, 2); if (v != 4) want = SQFS_BADVERSION; }
		if (what == 3) { v = below(2) ? below(8) : v & 0xffff; set(30, v, 2); if (v != 0) want = SQFS_BADVERSION; }
		if (what == 4) { v = below(2) ? below(9) : v & 0xffff; set(20, v, 2); if (v != 1) want = SQFS_BADCOMP; }
		if (what == 5) { set(20, 0, 2); want = SQFS_BADCOMP; }
		long k = what >= 6 && what < 12 ? (long)below(30) : -1;
		context = fmt("superblock: magic %02x%02x%02x%02x version %d.%d compression %d, allocation %ld fails", b[3], b[2], b[1], b[0], b[28] | b[29] << 8, b[30] | b[31] << 8, b[20] | b[21] << 8, k);
		uint8_t *mem = (uint8_t *)malloc(off + b.size());
		memcpy(mem + off, b.data(), b.size());
		size_t live = ora_live.size();
		ora_fail = k; ora_nalloc = 0; ora_hit = false;
		sqfs fs;
		memset(&fs, 0xcd, sizeof fs);
		sqfs_err e = sqfs_open_image(&fs, mem, off);
		bool hit = ora_hit;
		ora_fail = -1; ora_hit = false;
		if (!any && !hit) CHECK(e == want, "result %d, expected %d", e, want);
		if (hit && e == SQFS_OK) { fs.root_alias = fs.root_alias2 = NULL; struct stat st; CHECK(squash_stat(&fs, "/dir/one", &st) == 0, "open succeeded without memory, but the image is not usable"); }
		if (e == SQFS_OK) {
			int a, c, d2, e2;
			sqfs_version(&fs, &a, &c);
			CHECK(a == 4 && c == 0, "version %d.%d", a, c);
			int x, y;
			sqfs_version_supported(&x, &y, &d2, &e2);
			CHECK(x == 4 && y == 0 && d2 == 4 && e2 == 0, "supported %d.%d to %d.%d", x, y, d2, e2);
			CHECK(sqfs_compression(&fs) == 1, "compression %d", sqfs_compression(&fs));
			fs.root_alias = fs.root_alias2 = NULL;
			struct stat st;
			CHECK(squash_stat(&fs, "/big", &st) == 0 && st.st_size == 9 * 4096 + 77, "the image cannot be used");
			sqfs_destroy(&fs);
			if (below(2)) sqfs_destroy(&fs);
		}
		CHECK(ora_live.size() == live, "%zu blocks still allocated (result %d)", ora_live.size() - live, e);
		free(mem);
	}
	// images whose tables are absent or cut
	for (int fr = 0; fr < 2; fr++) {
		Image i2;
		i2.root = i2.mk('d');
		i2.file(i2.root, "a", 3 * 4096 + (fr ? 5 : 0), fr);
		i2.exports = fr;
		i2.build();
		context = fmt("image %s fragments and export table", fr ? "with" : "without");
		Mount m(i2);
		struct stat st;
		CHECK(squash_stat(&m.fs, "/a", &st) == 0, "cannot be used");
		CHECK((bool)sqfs_export_ok(&m.fs) == (bool)fr, "sqfs_export_ok is %d", sqfs_export_ok(&m.fs));
	}
}

static void g_C14()
{
	for (int round = 0; more(round, 40); round++) {
		sqfs_hash h;
		size_t vs[] = {1, 4, 8, 24, 3};
		size_t vsz = vs[below(5)];
		size_t live = ora_live.size();
		size_t init = 1u << below(6);
		context = fmt("hash of %zu-byte values, %zu initial buckets", vsz, init);
		CHECK(sqfs_hash_init(&h, vsz, init) == SQFS_OK, "init failed");
		std::map<uint32_t, Bytes> mp;
		std::string hist;
		for (int k = 0; k < 300; k++) {
			uint32_t key = below(4) ? below(40) : below(2) ? below(1000) * 64 : rnd();
			int op = below(6);
			context = fmt("hash of %zu-byte values, %zu initial buckets, after%s", vsz, init, hist.size() > 300 ? ("..." + hist.substr(hist.size() - 300)).c_str() : hist.c_str());
			if (op < 3 && !mp.count(key)) {
				Bytes v(vsz);
				for (auto &c : v) c = rnd();
				ora_fail = below(4) == 0 ? (long)below(4) : -1; ora_nalloc = 0; ora_hit = false;
				sqfs_err e = sqfs_hash_add(&h, key, v.data());
				bool hit = ora_hit;
				ora_fail = -1; ora_hit = false;
				hist += fmt(" add(%u)%s", key, hit ? "!" : "");
				CHECK(hit || e == SQFS_OK, "add failed: %d", e);
				if (e == SQFS_OK) mp[key] = v;
			} else if (op == 3) {
				sqfs_err e = sqfs_hash_remove(&h, key);
				hist += fmt(" remove(%u)", key);
				(void)e;
				mp.erase(key);
			} else {
				void *p = sqfs_hash_get(&h, key);
				CHECK((p != NULL) == (mp.count(key) > 0), p ? "key %u found, but it was never added or was removed" : "key %u not found", key);
				if (p) CHECK(!memcmp(p, mp[key].data(), vsz), "key %u has another value", key);
			}
			if (k % 20 == 19) for (auto &x : mp) { void *p = sqfs_hash_get(&h, x.first); CHECK(p && !memcmp(p, x.second.data(), vsz), "key %u lost or changed", x.first); }
		}
		sqfs_hash_destroy(&h);
		CHECK(ora_live.size() == live, "%ld blocks still allocated after destroy", (long)(ora_live.size() - live));
	}
}

struct Step { int dirend; std::string path; Node *n; };
static void walk(Node *d, const std::string &pre, std::vector<Step> &v)
{
	for (auto &e : d->kids) {
		v.push_back({0, pre + e.name, e.n});
		if (e.n->t == 'd') { walk(e.n, pre + e.name + "/", v); v.push_back({1, pre + e.name, e.n}); }
	}
}
static void g_C15()
{
	for (int round = 0; more(round, 8); round++) {
		Image im;
		im.mdmode = below(3);
		im.root = im.mk('d');
		std::vector<Node *> ds = {im.root};
		for (int i = 0; i < 14; i++) {
			Node *d = below(3) ? ds.back() : ds[below(ds.size())];
			std::string nm = rname(below(3) ? 1 + below(12) : 1 + below(256));
			if (child(d, nm)) continue;
			ds.push_back(im.dir(d, nm));
			ds.back()->split = 1 + below(20);
		}
		for (Node *d : ds) for (int i = below(5); i > 0; i--) { std::string nm = rname(1 + below(40)); if (!child(d, nm)) im.file(d, nm, 1); }
		im.build();
		Mount m(im);
		for (int run = 0; run < 12; run++) {
			Node *from = run < 4 ? im.root : ds[below(ds.size())];
			std::vector<Step> v;
			walk(from, "", v);
			size_t live = ora_live.size();
			long k = run & 1 ? (long)below(run < 6 ? 8 : 30) : -1;
			ora_fail = k; ora_nalloc = 0; ora_hit = false;
			sqfs_traverse t;
			context = fmt("traversal of %zu steps, allocation %ld failing", v.size(), k);
			sqfs_err e = run % 3 ? sqfs_traverse_open(&t, &m.fs, from->id) : ({ sqfs_inode i; sqfs_err x = sqfs_inode_get(&m.fs, &i, from->id); x ? x : sqfs_traverse_open_inode(&t, &m.fs, &i); });
			if (e) { CHECK(ora_hit, "open failed: %d", e); ora_fail = -1; ora_hit = false; continue; }
			size_t at = 0;
			size_t quit = below(4) == 0 ? below(v.size() + 1) : v.size() + 5;
			while (at < quit) {
				bool pre_hit = ora_hit;
				short r = sqfs_traverse_next(&t, &e);
				context = fmt("traversal, step %zu of %zu, allocation %ld failing", at, v.size(), k);
				if (!r) {
					if (e) {
						CHECK(ora_hit, "error %d", e);
						for (int z = 0; z < 3; z++) CHECK(!sqfs_traverse_next(&t, &e) && e != SQFS_OK, "a step after the error succeeded");
					} else { CHECK(at == v.size(), "ended after %zu steps", at); CHECK(!sqfs_traverse_next(&t, &e) && e == SQFS_OK, "no stable end"); }
					break;
				}
				(void)pre_hit;
				CHECK(e == SQFS_OK, "step delivered with an error");
				CHECK(at < v.size(), "a step after the last: %s", t.path);
				CHECK((bool)t.dir_end == (bool)v[at].dirend, "dir_end is %d, expected %d at '%s'", t.dir_end, v[at].dirend, v[at].path.c_str());
				CHECK(v[at].path == t.path, "path is '%s', expected '%s'", t.path, v[at].path.c_str());
				if (!t.dir_end) CHECK(t.entry.inode == v[at].n->id, "another entry");
				bool isd = !v[at].dirend && v[at].n->t == 'd';
				at++;
				if (isd && below(4) == 0) {	// prune: content and end are left out
					sqfs_traverse_prune(&t);
					std::string p = v[at - 1].path;
					while (!(v[at].dirend && v[at].path == p)) at++;
					at++;
				}
			}
			sqfs_traverse_close(&t);
			if (below(2)) sqfs_traverse_close(&t);
			ora_fail = -1; ora_hit = false;
			CHECK(run < 6 || ora_live.size() <= live + 16, "%ld blocks still allocated", (long)(ora_live.size() - live));
		}
		// leaks with warm caches
		for (long k = -1; k < 24; k++) for (int w = 0; w < 2; w++) {
			size_t live = ora_live.size();
			ora_fail = w ? k : -1; ora_nalloc = 0;
			sqfs_traverse t;
			sqfs_err e = sqfs_traverse_open(&t, &m.fs, im.root->id);
			if (!e) { while (sqfs_traverse_next(&t, &e)) ; sqfs_traverse_close(&t); }
			ora_fail = -1; ora_hit = false;
			context = fmt("whole traversal and close, allocation %ld failing", k);
			if (w && k < 3) CHECK(ora_live.size() <= live, "%ld blocks leaked", (long)(ora_live.size() - live));
		}
		context = "traversal of a file";
		for (auto &e : im.root->kids) if (e.n->t == 'f') { sqfs_traverse t; size_t live = ora_live.size(); CHECK(sqfs_traverse_open(&t, &m.fs, e.n->id) != SQFS_OK, "opened"); CHECK(ora_live.size() <= live, "blocks leaked"); break; }
	}
	// the stack by itself
	for (int round = 0; round < 200; round++) {
		sqfs_stack s;
		size_t vs = 1 + below(40);
		size_t live = ora_live.size();
		std::vector<Bytes> mdl;
		sqfs_stack_init(&s);
		CHECK(sqfs_stack_create(&s, vs, below(4), NULL) == SQFS_OK, "stack create failed");
		for (int k = 0; k < 60; k++) {
			context = fmt("stack of %zu-byte values, %zu deep", vs, mdl.size());
			if (below(3)) {
				void *p = NULL;
				ora_fail = below(5) == 0 ? 0 : -1; ora_nalloc = 0; ora_hit = false;
				sqfs_err e = sqfs_stack_push(&s, &p);
				bool hit = ora_hit;
				ora_fail = -1; ora_hit = false;
				CHECK(hit || e == SQFS_OK, "push failed");
				if (e == SQFS_OK) { Bytes v(vs); for (auto &c : v) c = rnd(); memcpy(p, v.data(), vs); mdl.push_back(v); }
			} else {
				short r = sqfs_stack_pop(&s);
				CHECK((bool)r == !mdl.empty(), "pop returned %d", r);
				if (!mdl.empty()) mdl.pop_back();
			}
			CHECK(sqfs_stack_size(&s) == mdl.size(), "size is %zu", sqfs_stack_size(&s));
			for (size_t i = 0; i < mdl.size(); i++) { void *p = NULL; CHECK(sqfs_stack_at(&s, i, &p) == SQFS_OK && !memcmp(p, mdl[i].data(), vs), "element %zu differs", i); }
			void *p;
			CHECK(sqfs_stack_at(&s, mdl.size(), &p) != SQFS_OK, "an element beyond the top");
			CHECK((sqfs_stack_top(&s, &p) == SQFS_OK) == !mdl.empty(), "top of an empty stack");
		}
		sqfs_stack_destroy(&s);
		CHECK(ora_live.size() == live, "blocks leaked");
	}
}

static void g_C18()
{
	for (int round = 0; more(round, 6); round++) {
		Image im;
		im.mdmode = below(3);
		im.root = im.mk('d');
		int nf = below(2) ? 5 : 1500 + below(1200);
		for (int i = 0; i < nf; i++) im.file(im.root, fmt("%05d", i), 0);
		for (int i = 0; i < 20; i++) im.file(im.root, fmt("t%d", i), 3000, true);
		im.pad_ids = below(3) == 0 ? 0 : below(2) ? 2047 + below(3) : below(9000);
		im.pad_frags = below(3) == 0 ? 0 : below(2) ? 511 + below(3) : below(3000);
		im.exports = below(5) != 0;
		im.build();
		Mount m(im);
		for (int k = 0; k < 600; k++) {
			uint32_t n = im.ids.size();
			uint32_t i = below(3) ? below(n) : below(2) ? n - 1 + below(3) : below(65536);
			if (i > 65535) i = 65535;
			sqfs_id_t id = 0;
			context = fmt("id %u of %u", i, n);
			sqfs_err e = sqfs_id_get(&m.fs, i, &id);
			CHECK((e == SQFS_OK) == (i < n), "result %d", e);
			if (e == SQFS_OK) CHECK(id == im.ids[i], "is %u, the table has %u", id, im.ids[i]);
			n = im.frags.size();
			i = below(3) ? below(n) : below(2) ? n - 1 + below(3) : rnd();
			context = fmt("fragment %u of %u", i, n);
			struct squashfs_fragment_entry fe;
			e = sqfs_frag_entry(&m.fs, &fe, i);
			CHECK((e == SQFS_OK) == (i < n), "result %d", e);
			if (e == SQFS_OK) CHECK(fe.start_block == im.frags[i].first && fe.size == im.frags[i].second, "is another entry");
			n = im.inodes;
			i = below(3) ? 1 + below(n) : below(2) ? n - 1 + below(3) : below(2) ? 0 : rnd();
			context = fmt("inode number %u of %u, %s export table", i, n, im.exports ? "with" : "no");
			sqfs_inode_id iid = 0;
			e = sqfs_export_inode(&m.fs, i, &iid);
			CHECK((e == SQFS_OK) == (im.exports && i >= 1 && i <= n), "result %d", e);
			if (e == SQFS_OK) CHECK(iid == im.exp_ids[i - 1], "is another inode");
		}
	}
}

#ifdef ORA_SAMPLE
#include "sample_groups.hpp"
#else
static void g_C16() {}
static void g_C17() {}
#endif

static void on_alarm(int) { printf("FAILING INPUT: %s\n  the operation does not end\n", context.c_str()); fflush(stdout); _exit(1); }

int main(int argc, char **argv)
{
	if (argc < 4) return 2;
	signal(SIGALRM, on_alarm);
	alarm((int)atof(argv[3]) + 60);
	rng ^= (uint64_t)atoll(argv[2]) * 0x9e3779b97f4a7c15ull;
	for (int i = 0; i < 20; i++) rnd();
	t_end = now() + atof(argv[3]);
	squash_start();
	struct { const char *n; void (*f)(); } gs[] = {{"C01", g_C01}, {"C02", g_C02}, {"C03", g_C03}, {"C04", g_C04}, {"C05", g_C05}, {"C06", g_C06}, {"C07", g_C07}, {"C08", g_C08}, {"C09", g_C09},
		{"C10", g_C10}, {"C11", g_C11}, {"C12", g_C12}, {"C13", g_C13}, {"C14", g_C14}, {"C15", g_C15}, {"C16", g_C16}, {"C17", g_C17}, {"C18", g_C18}};
	for (auto &g : gs) if (!strcmp(g.n, argv[1])) { g.f(); printf("ok %s (%d rounds)\n", g.n, rounds); fflush(stdout); _exit(0); }
	return 2;
}
