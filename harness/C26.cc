// VF variant: asan
// VF use: sysfault
#include <fcntl.h>
#include <stdlib.h>
#include <sys/resource.h>
#include "sysfault.h"
#include "tree.h"
#include "futils/fs.h"
using namespace vf;
VF_PROPERTY("C26", "exploration", "the tree has a sub-directory and a link, special file or second level, or a system call fails");
VF_ASSUME("the tree does not change while it is being measured");

static std::string outside()
{
	static std::string o;
	if (o.empty()) {
		o = scratch() + "/outside";
		int fd = open(o.c_str(), O_WRONLY | O_CREAT, 0600);
		VF_CHECK(fd >= 0 && write(fd, "outside", 7) == 7, "harness");
		close(fd);
		mkdir((o + ".d").c_str(), 0700);
		fd = open((o + ".d/x").c_str(), O_WRONLY | O_CREAT, 0600);
		VF_CHECK(fd >= 0 && write(fd, "inside", 6) == 6, "harness");
		close(fd);
	}
	return o;
}
static std::string make(tree::Count *c, unsigned maxdepth)
{
	std::string out = outside();
	std::string p = tree::fresh("t");
	*c = tree::Count{};
	unsigned budget = 60;
	int fd = open(p.c_str(), O_RDONLY | O_DIRECTORY);
	tree::build(fd, 0, maxdepth, c, budget, out.c_str());
	note("tree: %u entries, %u directories, %u links and special files, depth %u, %lld bytes directly, %lld in all", c->entries, c->dirs, c->others, c->depth, (long long)c->direct, (long long)c->all);
	return p;
}
static std::string spelled(const std::string &p)
{
	switch (draw(5)) {
	case 0: case 1: case 2: return p;
	case 3: return p + "/";
	case 4: return p + "//";
	default: return p + "/.";
	}
}
VF_FACET(trees, 30000, 600000)
{
	tree::Count c;
	std::string p = make(&c, (unsigned)draw(5));
	if (c.dirs && (c.others || c.depth > 1))
		nontrivial();
	classify(c.entries == 0 ? "empty" : c.entries > 200 ? "large directory" : c.depth > 1 ? "several levels" : "one level");
	int fds = sys_open_fds();
	for (int rec = 0; rec < 2; rec++) {
		std::string q = spelled(p);
		int64_t r = futils_fs_dir_size(q.c_str(), rec);
		int64_t want = rec ? c.all : c.direct;
		VF_CHECK(r == want, "size of the %s is %lld, expected %lld", rec ? "tree" : "directory", (long long)r, (long long)want);
	}
	VF_CHECK(sys_open_fds() == fds, "descriptors left open");
}
// ---- failing calls
static long seen, fail_at, failed_nr;
static int fail_err;
static bool sticky, unknown_types;
static unsigned special_size; // special files have a size on some systems; 0: they have not
static unsigned special_kind;
static long listing; // bytes of a listing given at once, 0: as many as asked for
static bool hook(Sys &s, long *ret)
{
	if (s.nr == SYS_write || s.nr == SYS_writev)
		return false;
	long i = seen++;
	if (i == fail_at || (sticky && failed_nr == s.nr)) {
		failed_nr = s.nr;
		if (s.nr == SYS_close)
			sys_raw(SYS_close, s.a[0]);
		if (fail_err == ENOENT && (s.nr == SYS_getdents64 || s.nr == SYS_getdents))
			fail_err = EIO; // the C library takes it for the end of a removed directory
		*ret = -fail_err;
		return true;
	}
	if ((unknown_types || listing) && s.nr == SYS_getdents64) { // as file systems which do not give types, or give a few entries
		*ret = sys_raw(s.nr, s.a[0], s.a[1], listing && listing < (long)s.a[2] ? listing : s.a[2]);
		for (long o = 0; o < *ret && unknown_types;) {
			char *e = (char *)s.a[1] + o; // ino 8, off 8, reclen 2, type 1
			uint16_t len;
			memcpy(&len, e + 16, 2);
			e[18] = DT_UNKNOWN;
			o += len;
		}
		return true;
	}
	if (special_size && (s.nr == SYS_newfstatat || s.nr == SYS_lstat || s.nr == SYS_stat || s.nr == SYS_fstat || s.nr == SYS_statx)) {
		static const mode_t kinds[] = {S_IFIFO, S_IFCHR, S_IFBLK, S_IFSOCK};
		*ret = sys_raw(s.nr, s.a[0], s.a[1], s.a[2], s.a[3], s.a[4], s.a[5]);
		if (*ret)
			return true;
		auto other = [](unsigned m) { return !S_ISREG(m) && !S_ISDIR(m) && !S_ISLNK(m); };
		if (s.nr == SYS_statx) {
			struct statx *x = (struct statx *)s.a[4];
			if (other(x->stx_mode)) {
				x->stx_size = special_size;
				x->stx_blocks = 8;
				x->stx_mode = (uint16_t)((x->stx_mode & 07777) | kinds[special_kind & 3]);
			}
		} else {
			struct stat *x = (struct stat *)(s.nr == SYS_newfstatat ? s.a[2] : s.a[1]);
			if (other(x->st_mode)) {
				x->st_size = special_size;
				x->st_blocks = 8;
				x->st_mode = (x->st_mode & 07777) | kinds[special_kind & 3];
			}
		}
		return true;
	}
	return false;
}
static bool examines(long nr)
{
	return sys_opens(nr) || nr == SYS_getdents64 || nr == SYS_getdents || nr == SYS_lstat || nr == SYS_stat || nr == SYS_newfstatat || nr == SYS_statx;
}
VF_FACET(failing_calls, 24000, 800000)
{
	tree::Count c;
	std::string p = make(&c, (unsigned)draw(4));
	bool rec = chance(3, 4);
	unknown_types = chance(1, 3);
	listing = chance(1, 2) ? 0 : (long)range(280, 600);
	if (listing)
		note("the system lists at most %ld bytes at once", listing);
	special_size = chance(1, 2) ? 0 : 1 + (unsigned)draw(100000);
	special_kind = (unsigned)draw(3);
	if (special_size)
		note("special files have a size of %u", special_size);
	int64_t want = rec ? c.all : c.direct;
	fail_at = -1;
	failed_nr = -1;
	sticky = false;
	seen = 0;
	sys_arm(hook);
	int64_t r = futils_fs_dir_size(p.c_str(), rec);
	sys_disarm();
	VF_CHECK(r == want, "size is %lld, expected %lld", (long long)r, (long long)want);
	long calls = seen;
	int fds = sys_open_fds();
	for (int round = 0; round < 3; round++) {
		fail_at = (long)draw((uint64_t)calls - 1);
		static const int errs[] = {EIO, EACCES, ENOMEM, EMFILE, ENOENT, ELOOP, ENOTDIR, EPERM, ESTALE};
		fail_err = errs[draw(8)];
		sticky = chance(1, 5);
		failed_nr = -1;
		seen = 0;
		sys_arm(hook);
		r = futils_fs_dir_size(p.c_str(), rec);
		sys_disarm();
		note("call %ld of %ld (%s) fails with error %d%s: %lld", fail_at, calls, sys_name(failed_nr), fail_err, sticky ? ", like all later ones" : "", (long long)r);
		if (failed_nr < 0)
			continue;
		nontrivial();
		classify(sys_opens(failed_nr) ? "open failed" : failed_nr == SYS_getdents64 ? "listing failed" : examines(failed_nr) ? "examining an entry failed" : "another call failed");
		VF_CHECK(r < 0 || r == want, "with %s failing, the size is %lld instead of %lld or an error", sys_name(failed_nr), (long long)r, (long long)want);
		if (r >= 0 && want == 0 && examines(failed_nr))
			VF_CHECK(false, "with %s failing (error %d), the size is 0 instead of an error", sys_name(failed_nr), fail_err);
		if (examines(failed_nr))
			VF_CHECK(r == -fail_err || r == want, "with %s failing with error %d, the result is %lld", sys_name(failed_nr), fail_err, (long long)r);
		VF_CHECK(sys_open_fds() == fds, "with %s failing, descriptors were left open", sys_name(failed_nr));
	}
}
// what is not a directory, or not there
VF_FACET(not_directories, 3000, 30000)
{
	std::string p = tree::fresh("t");
	nontrivial();
	bool rec = chance(1, 2);
	std::string q = p + "/x";
	switch (draw(4)) {
	case 0: break;
	case 1: close(open(q.c_str(), O_WRONLY | O_CREAT, 0600)); break;
	case 2: symlink("nowhere", q.c_str()); break;
	case 3: symlink("x", q.c_str()); break;
	default: q += std::string(draw(5000), 'y'); break;
	}
	int64_t r = futils_fs_dir_size(q.c_str(), rec);
	VF_CHECK(r < 0, "the size of something which is not a directory is %lld", (long long)r);
	r = futils_fs_dir_size("", rec);
	VF_CHECK(r < 0, "the size of the empty path is %lld", (long long)r);
}
// trees deeper than paths can be long, and entries whose path does not fit
VF_FACET(long_paths, 400, 8000)
{
	std::string p = tree::fresh("t"), path = p;
	int fd = open(p.c_str(), O_RDONLY | O_DIRECTORY);
	size_t comp = 1 + draw(254);
	size_t target = 4095 - draw(60);
	int64_t size = 0;
	auto file = [&](const std::string &n, int64_t sz) {
		int f = openat(fd, n.c_str(), O_WRONLY | O_CREAT, 0600);
		VF_CHECK(f >= 0 && !ftruncate(f, sz), "harness: file");
		close(f);
	};
	while (path.size() + 1 < target && comp > 15) {
		size_t n = target - path.size() - 1;
		if (n > comp)
			n = comp;
		std::string m(n, 'd');
		if (mkdirat(fd, m.c_str(), 0700))
			break;
		int s = openat(fd, m.c_str(), O_RDONLY | O_DIRECTORY);
		VF_CHECK(s >= 0, "harness: %s", strerror(errno));
		close(fd);
		fd = s;
		path += "/" + m;
	}
	// in the deepest directory: names around what still fits, and what a cut path would name
	bool toolong = false;
	unsigned n = 1 + (unsigned)draw(4);
	for (unsigned i = 0; i < n; i++) {
		size_t len = 1 + draw(70);
		std::string m(len, 'f');
		struct stat st;
		if (!fstatat(fd, m.c_str(), &st, 0))
			continue;
		int64_t sz = (int64_t)draw(1000) + 1;
		file(m, sz);
		size += sz;
		toolong |= path.size() + 1 + len > 4095;
	}
	close(fd);
	note("deepest directory at %zu characters, %s", path.size(), toolong ? "with an entry beyond the longest path" : "all entries within the longest path");
	classify(toolong ? "an entry beyond the longest path" : "all paths fit");
	nontrivial();
	int64_t r = futils_fs_dir_size(p.c_str(), true);
	if (toolong)
		VF_CHECK(r < 0 || r == size, "an entry cannot be examined by its path, but the size is %lld (all files: %lld)", (long long)r, (long long)size);
	else
		VF_CHECK(r == size, "size is %lld, expected %lld", (long long)r, (long long)size);
	tree::fresh("t");
}
