// Random directory trees, and their safe removal (never follows links, never leaves the given directory).
#pragma once
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <unistd.h>
#include <string>
#include <vector>
#include "vf.h"
namespace tree {
using namespace vf;
inline void remove_in(int dirfd) // everything in the directory; closes dirfd
{
	DIR *d = fdopendir(dirfd);
	if (!d) {
		close(dirfd);
		return;
	}
	std::vector<std::string> names;
	while (struct dirent *e = readdir(d))
		if (strcmp(e->d_name, ".") && strcmp(e->d_name, ".."))
			names.push_back(e->d_name);
	for (auto &n : names) {
		if (!unlinkat(::dirfd(d), n.c_str(), 0))
			continue;
		int s = openat(::dirfd(d), n.c_str(), O_RDONLY | O_DIRECTORY | O_NOFOLLOW);
		if (s >= 0)
			remove_in(s);
		unlinkat(::dirfd(d), n.c_str(), AT_REMOVEDIR);
	}
	closedir(d);
}
inline std::string fresh(const char *name) // an empty directory in the scratch area
{
	std::string p = scratch() + "/" + name;
	mkdir(p.c_str(), 0700);
	int fd = open(p.c_str(), O_RDONLY | O_DIRECTORY | O_NOFOLLOW);
	VF_CHECK(fd >= 0, "harness: %s: %s", p.c_str(), strerror(errno));
	remove_in(fd);
	return p;
}
struct Count { int64_t direct, all; unsigned entries, dirs, others; unsigned depth; };
inline std::string name(unsigned i)
{
	std::string n = std::to_string(i);
	switch (weighted({6, 1, 1, 1, 1, 1, 1})) {
	case 0: return "n" + n;
	case 1: return "." + n;
	case 2: return ".." + n;
	case 3: return n + std::string(255 - n.size(), 'L');
	case 4: return "\n\xff " + n;
	case 5: return "%s%n%" + n + "d";
	default: return i ? "..." + n : "...";
	}
}
// fills the directory open on dirfd (closes it)
inline void build(int dirfd, unsigned depth, unsigned maxdepth, Count *c, unsigned &budget, const char *outside)
{
	unsigned n = (unsigned)smallish(9);
	if (depth == 0 && chance(1, 40))
		n = 200 + (unsigned)draw(1500);
	if (depth > c->depth)
		c->depth = depth;
	std::string lastfile;
	for (unsigned i = 0; i < n; i++) {
		if (depth && budget == 0)
			break;
		if (budget)
			budget--;
		std::string m = n > 100 ? "e" + std::to_string(i) + std::string(40, 'x') : name(i);
		size_t kind = n > 100 && !chance(1, 50) ? 0 : weighted({6, 3, 1, 1, 1, 1, 1, 1, 1});
		c->entries++;
		switch (kind) {
		case 0: { // file
			int fd = openat(dirfd, m.c_str(), O_WRONLY | O_CREAT | O_EXCL, 0600);
			VF_CHECK(fd >= 0, "harness: file: %s", strerror(errno));
			int64_t sz;
			switch (weighted({4, 2, 1, 1})) {
			case 0: sz = (int64_t)draw(100); break;
			case 1: sz = (int64_t)smallish(1 << 20); break;
			case 2: sz = (int64_t)((1ull << range(20, 38)) + draw(4) - 2); break;
			default: sz = 0;
			}
			if (ftruncate(fd, sz)) {
				VF_CHECK(!ftruncate(fd, sz = 7), "harness: ftruncate");
			}
			close(fd);
			c->all += sz;
			if (!depth)
				c->direct += sz;
			lastfile = m;
			break;
		}
		case 1: // directory
			VF_CHECK(!mkdirat(dirfd, m.c_str(), 0700), "harness: mkdir: %s", strerror(errno));
			c->dirs++;
			if (depth < maxdepth) {
				int fd = openat(dirfd, m.c_str(), O_RDONLY | O_DIRECTORY);
				VF_CHECK(fd >= 0, "harness: opening a directory");
				build(fd, depth + 1, maxdepth, c, budget, outside);
			}
			break;
		case 2: symlinkat(outside, dirfd, m.c_str()); c->others++; break; // to a file elsewhere
		case 3: symlinkat(".", dirfd, m.c_str()); c->others++; break;     // a loop
		case 4: symlinkat("..", dirfd, m.c_str()); c->others++; break;
		case 5: symlinkat("nowhere", dirfd, m.c_str()); c->others++; break;
		case 6: mkfifoat(dirfd, m.c_str(), 0600); c->others++; break;
		case 7: // another name of a file
			if (!lastfile.empty() && !linkat(dirfd, lastfile.c_str(), dirfd, m.c_str(), 0)) {
				struct stat st;
				VF_CHECK(!fstatat(dirfd, m.c_str(), &st, AT_SYMLINK_NOFOLLOW), "harness: stat");
				c->all += st.st_size;
				if (!depth)
					c->direct += st.st_size;
			}
			break;
		default: // link to a directory with files
			symlinkat((std::string(outside) + ".d").c_str(), dirfd, m.c_str());
			c->others++;
		}
	}
	close(dirfd);
}
} // namespace tree
