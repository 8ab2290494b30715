// VF variant: asan
// VF use: sysfault
#include <errno.h>
#include <fcntl.h>
#include <stdlib.h>
#include <set>
#include "sysfault.h"
#include "tree.h"
#include "futils/synctools.h"
using namespace vf;
VF_PROPERTY("C27", "fault_enumeration", "a system call fails, or the object is not of the kind the call is for, or the path is unusual");
VF_ASSUME("flushes are observed at the system-call boundary: fsync or fdatasync of a descriptor of the object, or sync/syncfs, returning success");

typedef std::pair<dev_t, ino_t> Id;
static Id ids[64];
static int nids;
static bool flushed_all;
static long seen, fail_at, failed_nr, failed2_nr;
static long fail2_at;
static int fail_err[2];
static int failed_flushes;
static bool hook(Sys &s, long *ret)
{
	if (s.nr == SYS_write || s.nr == SYS_writev)
		return false;
	long i = seen++;
	if (i == fail_at || i == fail2_at) {
		int e = fail_err[i == fail_at ? 0 : 1];
		(i == fail_at ? failed_nr : failed2_nr) = s.nr;
		if (s.nr == SYS_close)
			sys_raw(SYS_close, s.a[0]);
		if (s.nr == SYS_fsync || s.nr == SYS_fdatasync)
			failed_flushes++;
		*ret = -e;
		return true;
	}
	if (s.nr == SYS_fsync || s.nr == SYS_fdatasync) {
		struct stat st;
		*ret = 0; // flushing for real would only cost time
		if (sys_raw(SYS_fstat, s.a[0], (long)&st)) {
			*ret = -EBADF;
			return true;
		}
		if (!S_ISREG(st.st_mode) && !S_ISDIR(st.st_mode) && !S_ISBLK(st.st_mode))
			*ret = -EINVAL;
		else if (nids < 64)
			ids[nids++] = {st.st_dev, st.st_ino};
		return true;
	}
	if (s.nr == SYS_sync || s.nr == SYS_syncfs) {
		flushed_all = true;
		*ret = 0;
		return true;
	}
	return false;
}
static bool flushed(const char *path)
{
	struct stat st;
	if (flushed_all)
		return true;
	if (stat(path, &st))
		return false;
	for (int i = 0; i < nids; i++)
		if (ids[i] == Id(st.st_dev, st.st_ino))
			return true;
	return false;
}
static std::string root;
static void setup()
{
	if (!root.empty())
		return; // nothing in it is ever changed
	root = tree::fresh("s");
	for (const char *d : {"/a", "/a/b", "/a/b/c", "/e", "/%s%n"})
		mkdir((root + d).c_str(), 0700);
	for (const char *f : {"/f", "/a/f", "/a/b/f", "/a/b/c/f", "/e/f", "/%s%n/f", "/%s%n/%d", "/a/%d", "/a/b/%d", "/%d"})
		close(open((root + f).c_str(), O_WRONLY | O_CREAT, 0600));
	symlink("f", (root + "/lf").c_str());
	symlink("a/b", (root + "/ld").c_str());
	symlink("../e/f", (root + "/a/lf").c_str());
	symlink("nowhere", (root + "/dang").c_str());
	VF_CHECK(!chdir(root.c_str()), "harness: chdir");
}
static const char *dirs[] = {"", "/a", "/a/b", "/a/b/c", "/e", "/ld", "/ld/c", "/%s%n"};
static const char *names[] = {"f", "f", "f", "lf", "a", "b", "dang", "missing", "%d"};
// a spelling of directory d (relative to root, "" is the root itself) followed by a slash
static std::string spell(const std::string &d)
{
	std::string p;
	switch (draw(3)) {
	case 0: p = root + d + "/"; break;
	case 1: p = "." + d + "/"; break;
	case 2: p = d.empty() ? "./" : d.substr(1) + "/"; break;
	default: p = root + "/a/.." + d + "/";
	}
	switch (draw(6)) {
	case 0: p += "/"; break;
	case 1: p += "./"; break;
	default: break;
	}
	if (chance(1, 12)) { // as long as paths may be
		static const size_t k[] = {128, 256, 512, 1024, 2048, 4096};
		size_t n = k[draw(5)] - 16 + draw(24);
		while (p.size() + 2 < n && p.size() < 4070)
			p += "./";
	}
	return p;
}
static void plan(int n_calls)
{
	nids = 0;
	flushed_all = false;
	seen = 0;
	fail_at = fail2_at = failed_nr = failed2_nr = -1;
	failed_flushes = 0;
	static const int errs[] = {EIO, ENOSPC, EDQUOT, EACCES, EMFILE, EINTR, EROFS, EINVAL, ENOSYS, ENOTSUP};
	for (auto &e : fail_err)
		e = errs[draw(9)];
	if (chance(2, 3))
		fail_at = (long)draw((uint64_t)n_calls - 1);
	if (chance(1, 4))
		fail2_at = (long)draw((uint64_t)n_calls - 1);
	if (fail2_at == fail_at)
		fail2_at = -1;
}
static void judge(const char *what, const std::string &path, int r, const std::vector<std::string> &need, int fds)
{
	note("%s(%s)%s%s: %d", what, quote(path).c_str(), failed_nr >= 0 ? ", failing " : "", failed_nr >= 0 ? sys_name(failed_nr) : "", r);
	if (failed2_nr >= 0)
		note("and %s", sys_name(failed2_nr));
	VF_CHECK(r <= 0, "returned %d", r);
	if (r == 0)
		for (auto &n : need)
			VF_CHECK(flushed(n.c_str()), "%s(%s) returned 0, but %s was not flushed%s%s", what, quote(path).c_str(), n.c_str(), failed_nr >= 0 ? "; failed: " : "", failed_nr >= 0 ? sys_name(failed_nr) : "");
	// the error is that of a call which failed
	if (r < 0 && failed_nr >= 0 && failed2_nr < 0 && !failed_flushes && failed_nr != SYS_close && !sys_opens(failed_nr))
		classify("another call failed");
	VF_CHECK(sys_open_fds() == fds, "%s: descriptors left open", what);
}
VF_FACET(files, 60000, 1200000)
{
	setup();
	std::string d = dirs[draw(7)], n = names[draw(8)];
	std::string path = spell(d) + n, real = root + d + "/" + n;
	bool exists = !access(real.c_str(), F_OK);
	plan(3);
	int fds = sys_open_fds();
	sys_arm(hook);
	int r = sync_file(path.c_str());
	sys_disarm();
	judge("sync_file", path, r, {real}, fds);
	if (!exists)
		VF_CHECK(r < 0, "sync_file of a missing file returned %d", r);
	if (failed_nr < 0 && failed2_nr < 0)
		VF_CHECK(r == (exists ? 0 : -ENOENT), "sync_file of %s file returned %d though nothing failed", exists ? "an existing" : "a missing", r);
	else
		nontrivial();
	if (failed_nr >= 0 && failed2_nr < 0 && failed_nr != SYS_close && r < 0 && exists)
		VF_CHECK(r == -fail_err[0], "%s failed with error %d, but sync_file returned %d", sys_name(failed_nr), fail_err[0], r);
}
VF_FACET(folders, 60000, 1200000)
{
	setup();
	std::string path, real;
	bool isdir, exists;
	if (chance(1, 2)) {
		std::string d = dirs[draw(7)];
		path = spell(d);
		real = root + d;
		if (path.size() > 1 && chance(1, 2))
			path.pop_back();
	} else {
		std::string d = dirs[draw(7)], n = names[draw(8)];
		path = spell(d) + n;
		real = root + d + "/" + n;
	}
	struct stat st;
	exists = !stat(real.c_str(), &st);
	isdir = exists && S_ISDIR(st.st_mode);
	plan(3);
	int fds = sys_open_fds();
	sys_arm(hook);
	int r = sync_folder(path.c_str());
	sys_disarm();
	judge("sync_folder", path, r, {real}, fds);
	if (!isdir)
		VF_CHECK(r < 0, "sync_folder of %s returned %d", exists ? "something which is not a directory" : "a missing directory", r);
	if (failed_nr < 0 && failed2_nr < 0)
		VF_CHECK(r == (isdir ? 0 : exists ? -ENOTDIR : -ENOENT), "sync_folder of %s returned %d though nothing failed", isdir ? "a directory" : exists ? "a file" : "a missing path", r);
	if (failed_nr >= 0 || failed2_nr >= 0 || !isdir)
		nontrivial();
	classify(isdir ? "directory" : exists ? "not a directory" : "missing");
}
VF_FACET(file_with_folder, 80000, 1600000)
{
	setup();
	std::string d = dirs[draw(7)], n = names[draw(8)];
	std::string path = spell(d) + n, real = root + d + "/" + n, parent = root + d;
	bool noslash = chance(1, 12);
	if (noslash) {
		path = n;
		real = root + "/" + n;
		parent = root;
	}
	if (!noslash && chance(1, 12)) { // directly in the root directory
		path = real = chance(1, 2) ? "/etc" : "/usr";
		parent = "/";
	}
	bool exists = !access(real.c_str(), F_OK);
	plan(6);
	int fds = sys_open_fds();
	sys_arm(hook);
	int r = sync_file_and_folder(path.c_str());
	sys_disarm();
	judge("sync_file_and_folder", path, r, {real, parent}, fds);
	if (!exists)
		VF_CHECK(r < 0, "sync_file_and_folder of a missing file returned %d", r);
	if (failed_nr < 0 && failed2_nr < 0 && exists && !noslash)
		VF_CHECK(r == 0, "returned %d though nothing failed", r);
	if (failed_nr >= 0 || failed2_nr >= 0)
		nontrivial();
	classify(failed_flushes ? "a flush failed" : sys_opens(failed_nr) ? "open failed" : exists ? "nothing relevant failed" : "missing file");
}
VF_FACET(missing_arguments, 50, 500)
{
	setup();
	nontrivial();
	VF_CHECK(sync_file(nullptr) < 0 && sync_folder(nullptr) < 0 && sync_file_and_folder(nullptr) < 0, "null path accepted");
	VF_CHECK(sync_file("") < 0 && sync_folder("") < 0 && sync_file_and_folder("") < 0, "empty path accepted");
	std::string p(range(4000, 9000), 'x');
	VF_CHECK(sync_file(p.c_str()) < 0 && sync_folder(p.c_str()) < 0 && sync_file_and_folder((p + "/" + p).c_str()) < 0, "endless path accepted");
}
