// Builds squashfs 4.0 images in memory, from the format alone (nothing of libsquash is used).
#pragma once
#include <zlib.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

typedef std::vector<uint8_t> Bytes;

static inline void le(Bytes &b, uint64_t v, int n) { while (n--) { b.push_back((uint8_t)v); v >>= 8; } }

static inline Bytes zip(const uint8_t *p, size_t n) {
	uLongf len = compressBound(n);
	Bytes out(len);
	if (compress2(out.data(), &len, p, n, 6) != Z_OK) abort();
	out.resize(len);
	return out;
}

struct Node;
struct Ent { std::string name; Node *n; };

enum { HOLE, RAW, ZIP };

struct Node {
	char t = 'f';		// f d l b c p s, or '?' (an inode of unknown type)
	int mode = 0644;
	uint16_t uid = 0, gid = 0;	// indexes into the id table
	uint32_t mtime = 0, nlink = 1;
	bool ext = false;
	std::vector<Ent> kids;		// directories
	uint64_t size = 0;		// files
	uint32_t seed = 1;
	std::map<uint64_t, int> kinds;	// block -> HOLE/RAW/ZIP
	int kind0 = ZIP;		// for blocks not in kinds
	bool frag = false;		// tail in a shared fragment block
	std::set<uint64_t> bad;		// blocks stored as undecodable data
	std::string target;		// links
	uint32_t major = 0, minor = 0;	// devices
	int idxmode = 0;		// index of an extended directory: 0 as mksquashfs, 1 every header, 2 some headers, 3 none
	int split = 256;		// most entries per directory header
	// filled in by the builder
	uint32_t ino = 0; uint64_t id = 0; Node *parent = nullptr;
	bool done = false;
	uint64_t start = 0; uint32_t fragidx = 0xffffffff, fragoff = 0;
	std::vector<uint32_t> hdrs;
	uint64_t nblocks = 0;
	int kind(uint64_t b) const { auto i = kinds.find(b); return i == kinds.end() ? kind0 : i->second; }
};

static inline uint32_t mix(uint32_t x) { x ^= x >> 16; x *= 0x7feb352d; x ^= x >> 15; x *= 0x846ca68b; x ^= x >> 16; return x; }

struct Meta {		// a chain of metadata blocks
	Bytes out, cur;
	std::vector<uint64_t> starts;
	int mode;	// 0 raw, 1 zip, 2 alternating
	explicit Meta(int m) : mode(m) {}
	void flush() {
		if (cur.empty()) return;
		starts.push_back(out.size());
		Bytes z;
		bool usez = false;
		if (mode == 1 || (mode == 2 && starts.size() % 2)) {
			z = zip(cur.data(), cur.size());
			usez = z.size() < cur.size();
		}
		if (usez) { le(out, z.size(), 2); out.insert(out.end(), z.begin(), z.end()); }
		else { le(out, cur.size() | 0x8000, 2); out.insert(out.end(), cur.begin(), cur.end()); }
		cur.clear();
	}
	void settle() { if (cur.size() == 8192) flush(); }
	uint64_t pos() { settle(); return ((uint64_t)out.size() << 16) | cur.size(); }
	void put(const Bytes &b) { for (uint8_t c : b) { settle(); cur.push_back(c); } }
};

struct Image {
	uint32_t block = 4096, blog = 12;
	bool shuffle = false;		// inode numbers in no order
	int mdmode = 1;			// how inode and directory tables are stored
	std::vector<uint32_t> ids{0};
	bool exports = true;
	uint32_t pad_ids = 0, pad_frags = 0;	// more table entries than used
	Node *root = nullptr;
	std::vector<std::unique_ptr<Node>> pool;
	uint32_t rnd = 12345;
	// results
	Bytes bytes;
	uint32_t inodes = 0;
	std::vector<uint32_t> inos;	// if not empty, the inode numbers to give out (a permutation of 1..)
	std::vector<std::pair<uint64_t, uint32_t>> frags;	// start, header
	std::vector<uint64_t> exp_ids;
	uint64_t inode_table = 0, dir_table = 0, frag_table = 0, id_table = 0, export_table = 0;
	std::map<Node *, std::vector<std::pair<uint32_t, std::string>>> dirpos;

	Node *mk(char t) { pool.emplace_back(new Node); Node *n = pool.back().get(); n->t = t; if (t == 'd') n->mode = 0755; n->seed = pool.size() * 977 + 13; n->mtime = 1000000000 + n->seed; return n; }
	Node *add(Node *d, const std::string &name, char t) { Node *n = mk(t); d->kids.push_back({name, n}); return n; }
	Node *file(Node *d, const std::string &name, uint64_t size, bool frag = false, int k = ZIP) { Node *n = add(d, name, 'f'); n->size = size; n->frag = frag; n->kind0 = k; return n; }
	Node *link(Node *d, const std::string &name, const std::string &to) { Node *n = add(d, name, 'l'); n->target = to; n->mode = 0777; return n; }
	Node *dir(Node *d, const std::string &name) { return add(d, name, 'd'); }

	// the bytes a file has: what the reader must deliver
	uint8_t at(const Node *n, uint64_t off) const {
		uint64_t b = off / block;
		int k = n->kind(b);
		if (b >= n->size / block && n->frag) k = ZIP;
		if (k == HOLE) return 0;
		if (k == RAW) return (uint8_t)(mix(n->seed * 2654435761u + (uint32_t)off) >> 7);
		return (uint8_t)(1 + ((off / 37 + n->seed + b * 7) % 251));
	}
	void fill(const Node *n, uint64_t off, uint64_t len, uint8_t *p) const { for (uint64_t i = 0; i < len; i++) p[i] = at(n, off + i); }

	void number(Node *n, Node *parent) {
		if (n->ino) return;
		n->ino = ++inodes;
		if (inos.size()) n->ino = inos[n->ino - 1];
		n->parent = parent ? parent : n;
		std::stable_sort(n->kids.begin(), n->kids.end(), [](const Ent &a, const Ent &b) { return a.name < b.name; });
		for (auto &e : n->kids) number(e.n, n);
	}
	Bytes fragbuf;
	bool fragbad = false;
	void endfrag() {
		if (fragbuf.empty()) return;
		Bytes z = zip(fragbuf.data(), fragbuf.size());
		uint32_t h;
		uint64_t st = bytes.size();
		if (fragbad) { z.assign(40, 0x5a); h = z.size(); bytes.insert(bytes.end(), z.begin(), z.end()); }
		else if (z.size() < fragbuf.size()) { h = z.size(); bytes.insert(bytes.end(), z.begin(), z.end()); }
		else { h = fragbuf.size() | (1 << 24); bytes.insert(bytes.end(), fragbuf.begin(), fragbuf.end()); }
		frags.push_back({st, h});
		fragbuf.clear();
		fragbad = false;
	}
	void data(Node *n) {		// blocks and tail of one file
		uint64_t full = n->size / block, tail = n->size % block;
		bool fr = n->frag && tail;
		n->nblocks = full + (tail && !fr ? 1 : 0);
		n->start = bytes.size();
		n->hdrs.resize(n->nblocks);
		Bytes buf(block);
		for (uint64_t b = 0; b < n->nblocks; b++) {
			uint64_t len = b == full ? tail : block;
			if (n->bad.count(b)) { Bytes z(60, 0xa5); bytes.insert(bytes.end(), z.begin(), z.end()); n->hdrs[b] = z.size(); continue; }
			if (n->kind(b) == HOLE) { n->hdrs[b] = 0; continue; }
			fill(n, b * block, len, buf.data());
			if (n->kind(b) == ZIP) {
				Bytes z = zip(buf.data(), len);
				if (z.size() < len) { n->hdrs[b] = z.size(); bytes.insert(bytes.end(), z.begin(), z.end()); continue; }
			}
			n->hdrs[b] = len | (1 << 24);
			bytes.insert(bytes.end(), buf.begin(), buf.begin() + len);
		}
		if (fr) {
			if (fragbuf.size() + tail > block || n->bad.count(full)) endfrag();
			n->fragidx = frags.size();
			n->fragoff = fragbuf.size();
			size_t o = fragbuf.size();
			fragbuf.resize(o + tail);
			fill(n, full * block, tail, fragbuf.data() + o);
			if (n->bad.count(full)) { fragbad = true; endfrag(); }
		}
	}
	void alldata(Node *n, std::set<Node *> &seen) {
		if (!seen.insert(n).second) return;
		if (n->t == 'f') data(n);
		for (auto &e : n->kids) alldata(e.n, seen);
	}
	static int basetype(char t) { return t == 'd' ? 1 : t == 'f' ? 2 : t == 'l' ? 3 : t == 'b' ? 4 : t == 'c' ? 5 : t == 'p' ? 6 : t == 's' ? 7 : 15; }
	uint32_t rd() { rnd = rnd * 1664525 + 1013904223; return rnd >> 8; }
	uint32_t dev(const Node *n) const { return (n->minor & 0xff) | (n->major << 8) | ((n->minor & ~0xffu) << 12); }

	void inode(Node *n, Meta &I, Meta &D) {
		if (n->done) return;
		n->done = true;
		for (auto &e : n->kids) inode(e.n, I, D);
		Bytes b;
		auto base = [&](int type) { le(b, type, 2); le(b, n->mode & 07777, 2); le(b, n->uid, 2); le(b, n->gid, 2); le(b, n->mtime, 4); le(b, n->ino, 4); };
		bool ext = n->ext;
		int bt = basetype(n->t);
		if (n->t == 'd') {
			uint64_t dpos = D.pos();
			uint32_t listing = 0;
			struct Ix { uint32_t index, start; std::string name; };
			std::vector<Ix> ix;
			auto &dp = dirpos[n];
			uint64_t lastblk = dpos >> 16;
			size_t i = 0;
			while (i < n->kids.size()) {
				size_t j = i;
				uint32_t base_ino = n->kids[i].n->ino;
				uint64_t blk = n->kids[i].n->id >> 16;
				while (j < n->kids.size() && j - i < (size_t)n->split && (n->kids[j].n->id >> 16) == blk &&
				       (int64_t)n->kids[j].n->ino - base_ino < 32768 && (int64_t)n->kids[j].n->ino - base_ino >= -32768)
					j++;
				uint64_t here = D.pos() >> 16;
				bool want = n->idxmode == 1 || (n->idxmode == 2 && rd() % 2) || (n->idxmode == 0 && here != lastblk);
				if (listing && want) ix.push_back({listing, (uint32_t)here, n->kids[i].name});
				lastblk = here;
				Bytes h;
				le(h, j - i - 1, 4); le(h, blk, 4); le(h, base_ino, 4);
				D.put(h); listing += 12;
				for (; i < j; i++) {
					Node *k = n->kids[i].n;
					Bytes e;
					le(e, k->id & 0xffff, 2); le(e, (uint16_t)(k->ino - base_ino), 2); le(e, basetype(k->t), 2); le(e, n->kids[i].name.size() - 1, 2);
					e.insert(e.end(), n->kids[i].name.begin(), n->kids[i].name.end());
					dp.push_back({listing, n->kids[i].name});
					D.put(e); listing += e.size();
				}
			}
			if (listing + 3 > 0xffff || (ix.size() && n->idxmode)) ext = true;
			n->ext = ext;
			n->size = listing + 3;
			base(ext ? bt + 7 : bt);
			if (!ext) { le(b, dpos >> 16, 4); le(b, n->nlink, 4); le(b, listing + 3, 2); le(b, dpos & 0xffff, 2); le(b, n->parent->ino, 4); }
			else {
				if (n->idxmode == 3) ix.clear();
				le(b, n->nlink, 4); le(b, listing + 3, 4); le(b, dpos >> 16, 4); le(b, n->parent->ino, 4); le(b, ix.size(), 2); le(b, dpos & 0xffff, 2); le(b, 0xffffffff, 4);
				for (auto &x : ix) { le(b, x.index, 4); le(b, x.start, 4); le(b, x.name.size() - 1, 4); b.insert(b.end(), x.name.begin(), x.name.end()); }
			}
		} else if (n->t == 'f') {
			if (n->nlink != 1 || n->size > 0xffffffffull || n->start > 0xffffffffull) ext = true;
			n->ext = ext;
			base(ext ? bt + 7 : bt);
			if (!ext) { le(b, n->start, 4); le(b, n->fragidx, 4); le(b, n->fragoff, 4); le(b, n->size, 4); }
			else { le(b, n->start, 8); le(b, n->size, 8); le(b, 0, 8); le(b, n->nlink, 4); le(b, n->fragidx, 4); le(b, n->fragoff, 4); le(b, 0xffffffff, 4); }
			for (uint32_t h : n->hdrs) le(b, h, 4);
		} else if (n->t == 'l') {
			base(ext ? bt + 7 : bt);
			le(b, n->nlink, 4); le(b, n->target.size(), 4);
			b.insert(b.end(), n->target.begin(), n->target.end());
			if (ext) le(b, 0xffffffff, 4);
		} else if (n->t == 'b' || n->t == 'c') {
			base(ext ? bt + 7 : bt);
			le(b, n->nlink, 4); le(b, dev(n), 4);
			if (ext) le(b, 0xffffffff, 4);
		} else {
			base(bt == 15 ? 15 : ext ? bt + 7 : bt);
			le(b, n->nlink, 4);
			if (ext) le(b, 0xffffffff, 4);
		}
		n->id = I.pos();
		I.put(b);
		if (exp_ids.size() < n->ino) exp_ids.resize(n->ino);
		exp_ids[n->ino - 1] = n->id;
	}
	uint64_t table(const Bytes &entries, int mode) {	// two-level table
		Meta t(mode);
		t.put(entries); t.flush();
		uint64_t at = bytes.size();
		bytes.insert(bytes.end(), t.out.begin(), t.out.end());
		uint64_t ix = bytes.size();
		for (uint64_t s : t.starts) le(bytes, at + s, 8);
		return ix;
	}
	void build() {
		for (blog = 0; (1u << blog) < block; blog++) ;
		bytes.assign(96, 0);
		if (shuffle) {
			for (uint32_t i = 1; i <= pool.size(); i++) inos.push_back(i);
			for (uint32_t i = inos.size() - 1; i > 0; i--) std::swap(inos[i], inos[rd() % (i + 1)]);
		}
		number(root, nullptr);
		std::set<Node *> seen;
		alldata(root, seen);
		endfrag();
		Meta I(mdmode), D(mdmode);
		inode(root, I, D);
		I.flush(); D.flush();
		inode_table = bytes.size();
		bytes.insert(bytes.end(), I.out.begin(), I.out.end());
		dir_table = bytes.size();
		bytes.insert(bytes.end(), D.out.begin(), D.out.end());
		for (uint32_t i = 0; i < pad_frags; i++) frags.push_back({96 + mix(i) % 5000, mix(i + 7) % block});
		Bytes e;
		for (auto &f : frags) { le(e, f.first, 8); le(e, f.second, 4); le(e, 0, 4); }
		frag_table = table(e, mdmode);
		if (exports) {
			e.clear();
			for (uint64_t i : exp_ids) le(e, i, 8);
			export_table = table(e, mdmode);
		}
		for (uint32_t i = 0; i < pad_ids; i++) ids.push_back(mix(i + 99));
		e.clear();
		for (uint32_t i : ids) le(e, i, 4);
		id_table = table(e, mdmode);
		Bytes s;
		le(s, 0x73717368, 4); le(s, inodes, 4); le(s, 0, 4); le(s, block, 4); le(s, frags.size(), 4); le(s, 1, 2); le(s, blog, 2);
		le(s, exports ? 0x80 : 0, 2); le(s, ids.size(), 2); le(s, 4, 2); le(s, 0, 2); le(s, root->id, 8); le(s, bytes.size(), 8);
		le(s, id_table, 8); le(s, ~0ull, 8); le(s, inode_table, 8); le(s, dir_table, 8); le(s, frag_table, 8); le(s, exports ? export_table : ~0ull, 8);
		memcpy(bytes.data(), s.data(), 96);
	}
};
