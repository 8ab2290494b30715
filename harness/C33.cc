// VF variant: inter
// VF use: inter sysfault entropy
// VF wrap: pthread_mutex_lock,memcpy,memmove,memset,memcmp,memchr,strlen,strnlen,strcpy,strncpy,strcat,strncat,stpcpy,strcmp,strncmp,strcasecmp,strncasecmp,strchr,strrchr,strstr,strtok,strtok_r,strsep,strspn,strcspn,strpbrk,strdup,strndup,strtol,strtoul,strtoll,strtoull,atoi,sprintf,snprintf,vsprintf,vsnprintf,sscanf,asprintf,vasprintf,fprintf,vfprintf,fputs,fputc,fgets,fgetc,getc,fwrite,fread,fclose,fflush,ferror,feof,fileno,fseek,fopen,fopen64,fdopen,setvbuf,malloc,calloc,realloc,free,gmtime,gmtime_r,localtime,localtime_r,mktime,timegm,strftime,strptime,asctime,ctime,tzset,time,gettimeofday,clock_gettime,open,open64,openat,openat64,close,read,write,pread64,pwrite64,lseek64,stat64,lstat64,fstat64,fstatat64,stat,lstat,fstat,access,rename,renameat,unlink,unlinkat,mkdir,rmdir,fsync,fdatasync,chdir,fchdir,umask,getcwd,opendir,fdopendir,readdir,readdir64,readdir64_r,closedir,dirfd,dirname,basename,__xpg_basename,realpath,iconv,iconv_open,iconv_close,wcslen,wcschr,wmemcpy,wmemset,mbstowcs,wcstombs,mbrtowc,wcrtomb,mbtowc,nl_langinfo,setlocale,uselocale,newlocale,freelocale,getenv,setenv,unsetenv,inotify_init,inotify_init1,inotify_add_watch,ioctl,fcntl,fcntl64,pipe,pipe2,poll,getrandom,tolower,toupper,strerror,strerror_r,__asan_memcpy,__asan_memmove,__asan_memset
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/inotify.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>
#include <functional>
#include <memory>
#include <set>
#include <unordered_set>
#include "entropy.h"
#include "inter.h"
#include "vf.h"
extern "C" {
#include "futils/futils.h"
#include "futils/fs.h"
#include "futils/inotify.h"
#include "futils/safew.h"
#include "futils/string.h"
}
#include "futils/futils.hpp"
using namespace vf;
VF_PROPERTY("C33", "exploration", "two threads at least were inside the library at once, each stopped in the middle of a call");
VF_ASSUME("threads hand over at loads, stores and basic blocks of the library and before its calls into the C library, one running at a time; effects of weaker memory orders are not explored");

// random output: bytes, of which no 12 in a row may come twice, and texts of at least 40 bits, none of which may
struct Env { std::string dir; std::vector<std::string> rnd, text; };
typedef std::function<std::string(Env &)> Fn;
struct Step { const char *kind; std::string what; Fn fn; };

static std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
static std::string fmt(const char *f, ...)
{
	TurnKeep k;
	char b[1024];
	va_list ap;
	va_start(ap, f);
	vsnprintf(b, sizeof b, f, ap);
	va_end(ap);
	return b;
}
// ---- files, by system calls of the harness
static std::string slurp(const std::string &p)
{
	TurnKeep k;
	int fd = open(p.c_str(), O_RDONLY | O_CLOEXEC);
	if (fd < 0)
		return "<" + std::to_string(errno) + ">";
	std::string s;
	char b[4096];
	ssize_t n;
	while ((n = read(fd, b, sizeof b)) > 0)
		s.append(b, (size_t)n);
	close(fd);
	return s;
}
static void spill(const std::string &p, const std::string &s)
{
	TurnKeep k;
	int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
	if (fd < 0 || write(fd, s.data(), s.size()) != (ssize_t)s.size())
		abort();
	close(fd);
}
static std::string listing(const std::string &d)
{
	TurnKeep k;
	std::set<std::string> names;
	DIR *dir = opendir(d.c_str());
	while (dirent *e = dir ? readdir(dir) : nullptr)
		if (e->d_name[0] != '.' || (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")))
			names.insert(e->d_name);
	if (dir)
		closedir(dir);
	std::string s;
	for (auto &n : names)
		s += n + "=" + std::to_string(slurp(d + "/" + n).size()) + " ";
	return s;
}
static void wipe(const std::string &d)
{
	TurnKeep k;
	DIR *dir = opendir(d.c_str());
	while (dirent *e = dir ? readdir(dir) : nullptr) {
		if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, ".."))
			continue;
		std::string p = d + "/" + e->d_name;
		struct stat st;
		if (!lstat(p.c_str(), &st) && S_ISDIR(st.st_mode))
			wipe(p);
		else
			unlink(p.c_str());
	}
	if (dir)
		closedir(dir);
	rmdir(d.c_str());
}
static std::string name()
{
	static const std::vector<std::string> n = {"a", "b", "data", "conf.bin", "x%sy", "a.tmp", "f0123456789", "z"};
	return pick(n);
}

// which of n+1 functions of a part: now and then the same one in all steps of a case
static int same_function = -1;
static int which_of(uint64_t n) { return same_function >= 0 ? same_function % (int)(n + 1) : (int)draw(n); }
// ---- steps: each draws its parameters here, in the main thread, and uses objects of its own only
static uint64_t epoch() { return chance(1, 3) ? draw(4000000000u) : draw(253402300799u); }
static int32_t offset() { return ((int32_t)draw(24) - 12) * 3600 + (chance(1, 3) ? 1800 : 0); }
static Step time_step()
{
	uint64_t e = epoch();
	int32_t o = offset();
	time_fmt f = (time_fmt)draw(2);
	size_t room = chance(1, 4) ? draw(40) : 64;
	switch (which_of(4)) {
	case 0:
		return {"time", fmt("format %llu %d as %d in %zu", (unsigned long long)e, o, f, room), [=](Env &) {
			char b[80];
			memset(b, '#', sizeof b);
			int r = time_local_format(e, o, f, b, room);
			return fmt("%d ", r) + (r < 0 ? "" : std::string(b, strnlen(b, sizeof b)));
		}};
	case 1: {
		char b[64];
		time_local_format(e, f == TIME_FMT_RFC1123 ? 0 : o, f, b, sizeof b);
		std::string s = b;
		if (chance(1, 6) && s.size())
			s[draw(s.size() - 1)] = 'q';
		return {"time", "parse " + quote(s), [=](Env &) {
			uint64_t ee = 1;
			int32_t oo = 2;
			int r = time_local_parse(s.c_str(), &ee, &oo);
			return r < 0 ? fmt("%d", r) : fmt("%d %llu %d", r, (unsigned long long)ee, oo);
		}};
	}
	case 2:
		return {"time", fmt("broken-down %llu %d", (unsigned long long)e, o), [=](Env &) {
			struct tm tm;
			memset(&tm, 0, sizeof tm);
			int r = time_local_to_tm(e, o, &tm);
			std::string s = fmt("%d %d-%d-%d %d:%d:%d %d %d %ld", r, tm.tm_year, tm.tm_mon, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec, tm.tm_wday, tm.tm_yday, tm.tm_gmtoff);
			uint64_t ee = 1;
			int32_t oo = 2;
			r = time_local_from_tm(&tm, &ee, &oo);
			return s + fmt(" %d %llu %d", r, (unsigned long long)ee, oo);
		}};
	case 3: {
		char d[16], h[24];
		snprintf(d, sizeof d, "%04d-%02d-%02d", 1970 + (int)draw(120), 1 + (int)draw(11), 1 + (int)draw(27));
		snprintf(h, sizeof h, "T%02d%02d%02d%c%02d%02d", (int)draw(23), (int)draw(59), (int)draw(59), chance(1, 2) ? '+' : '-', (int)draw(11), chance(1, 2) ? 30 : 0);
		std::string ds = d, hs = h;
		return {"time", "context " + ds + " " + hs, [=](Env &) {
			struct time_ctx c;
			int a = time_ctx_init(&c), b = time_ctx_set_date(&c, ds.c_str()), h = time_ctx_set_hour(&c, hs.c_str());
			uint64_t ee = 1;
			int32_t oo = 2;
			int r = time_ctx_get_local(&c, &ee, &oo);
			return r < 0 ? fmt("%d %d %d %d", a, b, h, r) : fmt("%d %d %d %d %llu %d", a, b, h, r, (unsigned long long)ee, oo);
		}};
	}
	default:
		return {"time", "now", [=](Env &) {
			uint64_t ee = 0, e2 = 0;
			int32_t oo = 2, o2 = 2;
			uint16_t ms = 60000;
			time_t t0 = time(nullptr);
			int r = time_local_get(&ee, &oo), r2 = time_local_ms_get(&e2, &ms, &o2);
			time_t t1 = time(nullptr);
			return fmt("%d %d %d %d %s", r, r2, oo, o2, (time_t)ee >= t0 - 1 && (time_t)ee <= t1 + 1 && (time_t)e2 >= t0 - 1 && (time_t)e2 <= t1 + 1 && ms < 1000 ? "within" : "outside");
		}};
	}
}
static timespec some_ts() { timespec t; t.tv_sec = (time_t)draw(1u << (1 + draw(30))); t.tv_nsec = (long)draw(999999999); return t; }
static Step timespec_step()
{
	timespec a = some_ts(), b = some_ts();
	int64_t d = (int64_t)draw((uint64_t)1 << (1 + draw(50))) * (chance(1, 3) ? -1 : 1);
	uint64_t u = draw((uint64_t)1 << (1 + draw(50)));
	return {"timespec", fmt("%lld.%ld %lld.%ld %lld %llu", (long long)a.tv_sec, a.tv_nsec, (long long)b.tv_sec, b.tv_nsec, (long long)d, (unsigned long long)u), [=](Env &) {
		timespec r = {0, 0};
		std::string s;
		auto ts = [&](int rc) { s += fmt("%d:%lld.%ld ", rc, (long long)r.tv_sec, r.tv_nsec); r = {0, 0}; };
		uint64_t v = 0;
		int sign = 0;
		auto num = [&](int rc) { s += fmt("%d:%llu ", rc, (unsigned long long)v); v = 0; };
		ts(time_timespec_diff(&a, &b, &r));
		num(time_timespec_diff_us(&a, &b, &v, &sign));
		s += fmt("%d ", sign);
		num(time_timespec_diff_in_range(&a, &b, u, &v));
		num(time_timespec_to_ns(&a, &v));
		num(time_timespec_to_us(&a, &v));
		num(time_timespec_to_ms(&a, &v));
		ts(time_ms_to_timespec(&u, &r));
		ts(time_us_to_timespec(&u, &r));
		ts(time_ns_to_timespec(&u, &r));
		s += fmt("%d ", time_timespec_cmp(&a, &b));
		ts(time_timespec_add_us(&a, d, &r));
		ts(time_timespec_add_ns(&a, d, &r));
		struct timeval tv = {a.tv_sec & 0xffff, a.tv_nsec / 1000};
		ts(time_timeval_to_timespec(&tv, &r));
		uint32_t ms = 0;
		int rc = time_timeval_to_ms(&tv, &ms);
		s += fmt("%d:%u ", rc, ms);
		// clocks move: only that they did not move back nor far
		timespec m0, m1;
		clock_gettime(CLOCK_MONOTONIC, &m0);
		rc = time_get_monotonic(&r);
		clock_gettime(CLOCK_MONOTONIC, &m1);
		s += fmt("%d %d ", rc, time_timespec_cmp(&m0, &r) <= 0 && time_timespec_cmp(&r, &m1) <= 0);
		rc = time_get_realtime(&r);
		return s + fmt("%d %d", rc, r.tv_nsec >= 0 && r.tv_nsec <= 999999999);
	}};
}
static Step varint_step()
{
	uint64_t v = anyint(64);
	size_t room = chance(1, 4) ? draw(10) : 10;
	return {"varint", fmt("%llx in %zu", (unsigned long long)v, room), [=](Env &) {
		std::string s;
		uint8_t b[16];
		size_t n, m;
#define VI(T, W, R, F) { memset(b, 0xee, sizeof b); n = m = 77; int r = W(b, room, (T)v, &n); s += fmt("%d/%zu/", r, r < 0 ? 0 : n) + hex(b, r < 0 ? 0 : n); \
	T x = 0; if (r == 0) { r = R(b, sizeof b, &x, &m); s += fmt("=%d/%zu/" F " ", r, m, x); } }
		VI(uint16_t, futils_varint_write_u16, futils_varint_read_u16, "%u")
		VI(int16_t, futils_varint_write_i16, futils_varint_read_i16, "%d")
		VI(uint32_t, futils_varint_write_u32, futils_varint_read_u32, "%u")
		VI(int32_t, futils_varint_write_i32, futils_varint_read_i32, "%d")
		VI(uint64_t, futils_varint_write_u64, futils_varint_read_u64, "%lu")
		VI(int64_t, futils_varint_write_i64, futils_varint_read_i64, "%ld")
		return s;
	}};
}
static std::string text()
{
	static const std::vector<std::string> p = {"a", "Bc", "/", ":", "\"", "é", "€", "漢字", "😀", "\x01", "tab\t", " ", "plain text", "\xc3", "\xff", "ß"};
	std::string s;
	for (size_t n = draw(12); n--;)
		s += pick(p);
	return s;
}
static Step utf8_step()
{
	std::string t = text();
	size_t room = chance(1, 3) ? 1 + draw(t.size() + 4) : 200;
	static const std::vector<const wchar_t *> fs = {nullptr, L"", L"\x1\x2\"*:<>?|", L"abc", L"é€漢"};
	const wchar_t *forb = pick(fs);
	static const std::vector<wchar_t> rs = {0, L'_', L'é', L'€', L'😀'};
	wchar_t rep = pick(rs);
	size_t mb = draw(60), mw = draw(30);
	return {"utf8", quote(t) + fmt(" in %zu, replacement %x", room, (unsigned)rep), [=](Env &) {
		std::vector<char> out(room, '#');
		int r = futils_string_sanitize_utf8(t.c_str(), out.data(), room, forb, rep);
		std::string s = fmt("%d ", r) + (r < 0 ? "" : std::string(out.data(), strnlen(out.data(), room)));
		r = futils_string_check_utf8(t.c_str(), mb, mw, forb);
		return s + fmt(" %d", r);
	}};
}
static thread_local std::vector<int> *freed;
static void count_free(void *p) { freed->push_back(*(int *)p); }
struct HOp { int kind; uint32_t key; int val; };
static Step hash_step()
{
	size_t size = 1 + draw(chance(1, 4) ? 60 : 7);
	std::vector<HOp> ops(draw(20));
	for (auto &o : ops)
		o = {(int)draw(4), (uint32_t)draw(12) * (chance(1, 3) ? 16 : 1), (int)draw(999)};
	bool dtor = chance(2, 3);
	return {"hash", fmt("%zu buckets, %zu operations", size, ops.size()), [=](Env &) {
		std::string s;
		std::vector<int> fr, vals(ops.size());
		freed = &fr;
		struct hash h;
		s += fmt("%d", futils_hash_init(&h, size, dtor ? count_free : nullptr));
		size_t i = 0;
		for (auto &o : ops) {
			vals[i] = o.val;
			void *d = nullptr;
			const void *cd = nullptr;
			int r;
			switch (o.kind) {
			case 0: r = futils_hash_insert(&h, o.key, &vals[i]); break;
			case 1: r = futils_hash_insert_const(&h, o.key, &vals[i]); break;
			case 2: r = futils_hash_remove(&h, o.key); break;
			case 3: r = futils_hash_lookup(&h, o.key, &d); break;
			default: r = futils_hash_lookup_const(&h, o.key, &cd); break;
			}
			i++;
			s += fmt(" %d", r);
			if (r == 0 && d)
				s += fmt("=%d", *(int *)d);
			if (r == 0 && cd)
				s += fmt("=%d", *(const int *)cd);
		}
		struct hash_entry *e;
		list_walk_entry_forward(&h.entries, e, node)
			s += fmt(" [%u]", e->key);
		s += fmt(" %d", futils_hash_destroy(&h));
		for (int v : fr)
			s += fmt(" ~%d", v);
		return s;
	}};
}
static std::string content()
{
	std::string s = bytes(smallish(40));
	if (chance(1, 20)) {
		s.resize(9000);
		fill(draw(1000), &s[0], s.size());
	}
	return s;
}
static Step safew_step()
{
	struct W { bool print; std::string data; int num; };
	std::vector<W> ws(draw(4));
	for (auto &w : ws)
		w = {chance(1, 3), content(), (int)draw(100000)};
	int how = which_of(3);
	std::string n = name(), old = chance(1, 2) ? content() : "", tmp = chance(1, 3) ? content() : "";
	bool had = chance(1, 2), crc = chance(1, 2);
	static const std::vector<const char *> hows = {"commit", "commit with checksum", "roll back", "abandon, then check"};
	return {"safew", fmt("%zu writes to %s, %s", ws.size(), n.c_str(), hows[(size_t)how]), [=](Env &env) {
		std::string d = env.dir + "/s", p = d + "/" + n, s;
		mkdir(d.c_str(), 0700);
		if (had)
			spill(p, old);
		if (had && crc) { // through the library
			auto f = futils_safew_fopen(p.c_str());
			futils_safew_fwrite(old.data(), 1, old.size(), f);
			s += fmt("%d ", futils_safew_fclose_commit_with_crc(f));
		}
		auto f = futils_safew_fopen(p.c_str());
		if (!f)
			return s + "not opened";
		for (auto &w : ws)
			s += w.print ? fmt("%d ", futils_safew_fprintf(f, "%d-%s|%5.2f", w.num, w.data.c_str(), w.num / 7.0))
				     : fmt("%zu ", futils_safew_fwrite(w.data.data(), 1, w.data.size(), f));
		int r = how == 0 ? futils_safew_fclose_commit(f) : how == 2 ? futils_safew_fclose_rollback(f) : futils_safew_fclose_commit_with_crc(f);
		s += fmt("%d %s", r, slurp(p) == old ? "old " : "") + hex(slurp(p).data(), slurp(p).size(), 30) + fmt(" %zu ", slurp(p).size()) + listing(d);
		if (how == 3)
			s += fmt("%d ", futils_safew_file_check(p.c_str())) + listing(d);
		if (how == 3 && !tmp.empty()) {
			spill(p, tmp);
			s += fmt("%d ", futils_safew_file_check(p.c_str())) + listing(d);
		}
		wipe(d);
		return s;
	}};
}
static Step dir_step()
{
	struct N { std::string path; size_t size; bool dir; };
	std::vector<N> ns(1 + draw(6));
	std::vector<std::string> dirs = {""};
	for (size_t i = 0; i < ns.size(); i++) {
		ns[i] = {pick(dirs) + "/" + name() + std::to_string(i), draw(chance(1, 5) ? 100000 : 300), chance(1, 3)};
		if (ns[i].dir)
			dirs.push_back(ns[i].path);
	}
	bool rec = chance(3, 4), missing = chance(1, 12);
	return {"fs", fmt("size of %zu files and folders%s", ns.size(), rec ? "" : ", not those below"), [=](Env &env) {
		std::string d = env.dir + "/tree";
		mkdir(d.c_str(), 0700);
		for (auto &n : ns)
			if (n.dir)
				mkdir((d + n.path).c_str(), 0700);
			else {
				spill(d + n.path, "");
				if (truncate((d + n.path).c_str(), (off_t)n.size))
					abort();
			}
		std::string s = fmt("%lld", (long long)futils_fs_dir_size((d + (missing ? "/none" : "")).c_str(), rec));
		wipe(d);
		return s;
	}};
}
static Step sync_step()
{
	int which = which_of(2), target = (int)draw(4);
	std::string n = name();
	return {"sync", fmt("function %d on target %d", which, target), [=](Env &env) {
		std::string d = env.dir + "/sy", p = d + "/" + n;
		mkdir(d.c_str(), 0700);
		spill(p, "x");
		std::string t = target == 0 ? p : target == 1 ? d : target == 2 ? p + "no" : target == 3 ? d + "no/" + n : p + "/below";
		int r = which == 0 ? sync_file(t.c_str()) : which == 1 ? sync_folder(t.c_str()) : sync_file_and_folder(t.c_str());
		wipe(d);
		return fmt("%d", r);
	}};
}
static Step mbox_step()
{
	size_t size = 1 + draw(chance(1, 5) ? 2000 : 20);
	std::vector<std::pair<bool, uint64_t>> ops(1 + draw(10));
	for (auto &o : ops)
		o = {chance(3, 5), draw(1u << 30)};
	return {"mbox", fmt("messages of %zu bytes, %zu operations", size, ops.size()), [=](Env &) {
		struct mbox *b = mbox_new(size);
		if (!b)
			return std::string("not created");
		std::string s;
		for (auto &o : ops) {
			std::vector<uint8_t> m(size);
			fill(o.second, m.data(), size);
			if (o.first) {
				s += fmt("+%d ", o.second & 1 ? mbox_push(b, m.data()) : mbox_push_block(b, m.data(), 1000));
			} else {
				int r = mbox_peek(b, m.data());
				s += fmt("-%d ", r) + (r == 0 ? hex(m.data(), size, 12) : "");
			}
		}
		s += fmt("%d", mbox_get_read_fd(b) >= 0);
		mbox_destroy(b);
		return s;
	}};
}
static Step dynmbox_step()
{
	size_t max = 1 + draw(chance(1, 5) ? 6000 : 60);
	struct O { bool push; uint64_t seed; size_t n; };
	std::vector<O> ops(1 + draw(10));
	for (auto &o : ops)
		o = {chance(3, 5), draw(1u << 30), draw(max + (chance(1, 8) ? 1 : 0))};
	return {"dynmbox", fmt("messages of at most %zu bytes, %zu operations", max, ops.size()), [=](Env &) {
		struct dynmbox *b = dynmbox_new(max);
		if (!b)
			return std::string("not created");
		std::string s = fmt("%zd ", dynmbox_get_max_size(b));
		for (auto &o : ops) {
			std::vector<uint8_t> m(max + 1);
			if (o.push) {
				fill(o.seed, m.data(), o.n);
				s += fmt("+%d ", o.seed & 1 ? dynmbox_push(b, m.data(), o.n) : dynmbox_push_block(b, m.data(), o.n, 1000));
			} else {
				ssize_t r = dynmbox_peek(b, m.data());
				s += fmt("-%zd ", r) + (r > 0 ? hex(m.data(), (size_t)r, 12) : "");
			}
		}
		dynmbox_destroy(b);
		return s;
	}};
}
static void on_event(struct inotify_event *ev, void *data)
{
	*(std::string *)data += fmt("%x/%s ", ev->mask, ev->len ? ev->name : "");
}
static Step inotify_step()
{
	std::vector<std::pair<int, std::string>> ops(1 + draw(chance(1, 6) ? 30 : 5));
	for (auto &o : ops)
		o = {(int)draw(2), name()};
	bool missing = chance(1, 10);
	return {"inotify", fmt("%zu changes", ops.size()), [=](Env &env) {
		std::string d = env.dir + "/watched", s;
		mkdir(d.c_str(), 0700);
		int fd = inotify_create((d + (missing ? "/none" : "")).c_str(), IN_CREATE | IN_DELETE | IN_CLOSE_WRITE);
		s += fmt("%d ", fd >= 0);
		for (auto &o : ops)
			if (o.first == 0)
				unlink((d + "/" + o.second).c_str());
			else
				spill(d + "/" + o.second, o.second);
		if (fd >= 0)
			inotify_process_fd(fd, on_event, &s);
		inotify_destroy(fd);
		wipe(d);
		return s;
	}};
}
static Step cpp_step()
{
	static const std::vector<std::string> ps = {"a", "/", "//", "/usr/lib", "a/b/c.txt", "dir/", "./x", "Été/Ö", "ABC/Def", "..", "", "very/long/path/with/Many/Parts"};
	std::string a = pick(ps), b = pick(ps);
	if (chance(1, 4))
		a += std::string(draw(300), 'Q');
	return {"strings", quote(a) + " " + quote(b), [=](Env &) {
		std::string s = futils::fs::dirname(a) + "|" + futils::fs::basename(a) + "|" + futils::string::convertToLowerCase(a);
		return s + fmt("|%d%d", futils::string::startsWith(a, b), futils::string::endsWith(a, b));
	}};
}
static Step fd_step()
{
	struct O { int what, flags, end; };
	static const std::vector<int> fl = {O_NONBLOCK, O_APPEND, O_NONBLOCK | O_APPEND, 0};
	std::vector<O> ops(1 + draw(4));
	for (auto &o : ops)
		o = {which_of(2), pick(fl), (int)draw(1)};
	int f0 = pick(fl), f1 = pick(fl), c0 = (int)draw(1), c1 = (int)draw(1);
	return {"descriptors", fmt("%zu operations", ops.size()), [=](Env &) {
		int p[2];
		{
			TurnKeep k;
			if (pipe(p) || fcntl(p[0], F_SETFL, f0) || fcntl(p[1], F_SETFL, f1) || fcntl(p[0], F_SETFD, c0) || fcntl(p[1], F_SETFD, c1))
				abort();
		}
		std::string s;
		for (auto &o : ops)
			s += fmt("%d ", o.what == 0 ? fd_add_flags(p[o.end], o.flags) : o.what == 1 ? fd_set_close_on_exec(p[o.end]) : fd_has_close_on_exec(p[o.end]));
		TurnKeep k;
		s += fmt("%x %x %x %x", fcntl(p[0], F_GETFL), fcntl(p[1], F_GETFL), fcntl(p[0], F_GETFD), fcntl(p[1], F_GETFD));
		close(p[0]);
		close(p[1]);
		return s;
	}};
}
static Step random_step()
{
	int which = which_of(7);
	size_t n = 1 + draw(chance(1, 2) ? 400 : 60);
	uint64_t max = anyint(64);
	return {"random", fmt("%d %zu %llu", which, n, (unsigned long long)max), [=](Env &env) {
		uint8_t id[16];
		futils_random(id, sizeof id);
		env.rnd.push_back(std::string((char *)id, sizeof id));
		std::vector<uint8_t> b(n + 2, 0xa5);
		bool ok = true;
		int r = 0;
		switch (which) {
		case 0:
			futils_random(b.data() + 1, n);
			ok = b[0] == 0xa5 && b[n + 1] == 0xa5;
			env.rnd.push_back(std::string((char *)&b[1], n));
			break;
		case 1:
			r = futils_random_strong(b.data() + 1, n);
			ok = b[0] == 0xa5 && b[n + 1] == 0xa5;
			env.rnd.push_back(std::string((char *)&b[1], n));
			break;
		case 7: {
			std::vector<char> t(n * 2 + 16);
			r = futils_random_base32(t.data(), t.size(), n);
			if (n >= 20)
				env.text.push_back(std::string(t.data()).substr(0, 32));
			if (n >= 20 && n % 5 == 0)
				env.text.push_back(std::string(t.data()).substr(strlen(t.data()) - 8));
			break;
		}
		case 2: case 3: {
			std::string al = which == 2 ? "0123456789ABCDEF" : "xyz";
			r = which == 2 ? futils_random_base16((char *)b.data(), n + 1, n) : futils_random_string((char *)b.data(), n + 1, n, al.c_str());
			for (size_t i = 0; i < n; i++)
				ok = ok && b[i] && al.find(which == 2 ? (char)toupper(b[i]) : (char)b[i]) != std::string::npos;
			ok = ok && b[n] == 0 && b[n + 1] == 0xa5;
			break;
		}
		case 4: {
			std::vector<uint32_t> v(n);
			for (size_t i = 0; i < n; i++)
				v[i] = (uint32_t)i * 77777;
			std::multiset<uint32_t> was(v.begin(), v.end());
			r = futils_random_shuffle(v.data(), n, 4);
			ok = was == std::multiset<uint32_t>(v.begin(), v.end());
			break;
		}
		case 5:
			for (int i = 0; i < 5; i++)
				ok = ok && futils_randomr64_maximum(max) <= max && futils_randomr32_maximum((uint32_t)max) <= (uint32_t)max &&
				     futils_randomr16_maximum((uint16_t)max) <= (uint16_t)max && futils_randomr8_maximum((uint8_t)max) <= (uint8_t)max;
			break;
		default: {
			double d = futils_randomrd();
			float f = futils_randomrf();
			ok = d >= 0 && d < 1 && f >= 0 && f < 1;
			r = futils_random_reseed();
			futils_random(id, sizeof id);
			env.rnd.push_back(std::string((char *)id, sizeof id));
		}
		}
		return fmt("%d %s", r, ok ? "valid" : "not valid");
	}};
}
typedef Step (*Maker)();
static const std::vector<Maker> makers = {time_step, timespec_step, varint_step, utf8_step, hash_step, safew_step, dir_step, sync_step, mbox_step, dynmbox_step, inotify_step, cpp_step, fd_step, random_step};
// a part of the library, or one of its functions
static const std::vector<std::pair<Maker, int>> parts = {
	{time_step, 0}, {time_step, 1}, {time_step, 2}, {time_step, 3}, {time_step, -1}, {timespec_step, -1}, {varint_step, -1}, {utf8_step, -1}, {hash_step, -1},
	{safew_step, 0}, {safew_step, 1}, {safew_step, 3}, {safew_step, -1}, {dir_step, -1}, {sync_step, 2}, {sync_step, -1}, {mbox_step, -1}, {dynmbox_step, -1}, {inotify_step, -1},
	{cpp_step, -1}, {fd_step, 0}, {fd_step, -1}, {random_step, 0}, {random_step, 1}, {random_step, 2}, {random_step, 3}, {random_step, 4}, {random_step, 5}, {random_step, 7}, {random_step, -1}};

static void warm_up()
{
	static bool done;
	if (done)
		return;
	done = true;
	setenv("TZ", "VFT-5:30", 1);
	tzset();
	char b[64];
	futils_string_sanitize_utf8("é€", b, sizeof b, L"a", L'é');
	futils_string_check_utf8("é€", 9, 9, L"a");
	uint64_t e;
	int32_t o;
	time_local_get(&e, &o);
	time_local_format(e, o, TIME_FMT_RFC1123, b, sizeof b);
	futils_random(b, 4);
}

static void play(size_t part)
{
	warm_up();
	size_t n = 2 + (chance(1, 3) ? 1 + draw(1) : 0);
	struct Job { std::vector<Step> steps; std::vector<std::string> alone, got; Env env; };
	std::vector<Job> jobs(n);
	same_function = part < parts.size() ? parts[part].second : -1;
	for (size_t i = 0; i < n; i++) {
		size_t m = 1 + smallish(3);
		for (size_t j = 0; j < m; j++)
			jobs[i].steps.push_back((part < parts.size() ? parts[part].first : pick(makers))());
		for (auto &s : jobs[i].steps)
			note("thread %zu: %s: %s", i, s.kind, s.what.c_str());
	}
	bool rnd = false;
	for (auto &j : jobs)
		for (auto &st : j.steps)
			rnd = rnd || !strcmp(st.kind, "random");
	if (rnd)
		ent_start(draw(UINT64_MAX));
	auto run = [](Job &j, std::vector<std::string> &out) {
		for (auto &s : j.steps) {
			std::string r = s.fn(j.env);
			TurnKeep k;
			out.push_back(r);
		}
	};
	std::vector<unsigned long> points(n);
	std::vector<std::map<uintptr_t, std::vector<unsigned long>>> sites(n);
	for (size_t i = 0; i < n; i++) {
		jobs[i].env.dir = scratch() + "/alone" + std::to_string(i);
		mkdir(jobs[i].env.dir.c_str(), 0700);
		std::vector<Turn> t(1);
		t[0].fn = [&] { run(jobs[i], jobs[i].alone); };
		t[0].sites = &sites[i];
		turns(t, 0);
		points[i] = t[0].points;
		wipe(jobs[i].env.dir);
	}
	std::vector<Turn> t(n);
	for (size_t i = 0; i < n; i++) {
		jobs[i].env.dir = scratch() + "/turn" + std::to_string(i);
		mkdir(jobs[i].env.dir.c_str(), 0700);
		t[i].fn = [&, i] { run(jobs[i], jobs[i].got); };
		if (chance(1, 4)) {
			t[i].every = 1 + draw(chance(1, 2) ? 3 : 60);
		} else if (points[i] && chance(4, 5)) {
			std::set<unsigned long> s;
			bool anywhere = chance(1, 3); // else at any place in the code, however often it runs
			for (size_t k = 1 + draw(5); k--;) {
				auto it = sites[i].begin();
				if (!anywhere)
					std::advance(it, (long)draw(sites[i].size() - 1));
				s.insert(anywhere ? 1 + draw(points[i] - 1) : pick(it->second));
			}
			t[i].stops.assign(s.begin(), s.end());
		}
	}
	turns(t, draw(n - 1));
	if (rnd)
		ent_stop();
	std::set<std::string> seen;
	std::unordered_set<std::string> seen12 = {std::string(12, '\0'), std::string(12, '\xa5')}; // nor bytes never written
	for (size_t i = 0; i < n; i++) {
		for (size_t j = 0; j < jobs[i].steps.size(); j++) {
			const Step &s = jobs[i].steps[j];
			VF_CHECK(jobs[i].got[j] == jobs[i].alone[j], "%s: %s: while other threads use the library on objects of their own, gives %s; alone it gives %s",
				s.kind, s.what.c_str(), quote(jobs[i].got[j], 400).c_str(), quote(jobs[i].alone[j], 400).c_str());
			VF_CHECK(s.kind != std::string("random") || jobs[i].got[j].find("not valid") == std::string::npos, "random: %s: %s", s.what.c_str(), jobs[i].got[j].c_str());
		}
		for (auto &r : jobs[i].env.text)
			VF_CHECK(seen.insert(r).second, "the same random text twice: %s", quote(r).c_str());
		for (auto &r : jobs[i].env.rnd)
			for (size_t k = 0; k + 12 <= r.size(); k++)
				VF_CHECK(seen12.insert(r.substr(k, 12)).second, "the same 12 random bytes twice: %s", hex(r.data() + k, 12).c_str());
		wipe(jobs[i].env.dir);
	}
	if (turns_taken)
		nontrivial();
	if (turns_free)
		classify("ran freely");
	if (n > 2)
		classify("three threads or more");
}
VF_FACET(same_part, 7500, 300000) { play(cycle(parts.size() - 1)); }
VF_FACET(any_parts, 2500, 100000) { play(parts.size()); }
