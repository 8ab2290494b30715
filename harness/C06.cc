// VF variant: asan
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <poll.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <deque>
#include <memory>
#include "vf.h"
extern "C" {
#include "futils/mbox.h"
}
using namespace vf;
VF_PROPERTY("C06", "exploration", "the history reaches a full mailbox, or empties one that had held several messages, or the size is refused");
VF_ASSUME("a queue of byte strings is the reference; the capacity of a non-empty mailbox is not specified, only that a push into an empty one succeeds");

static bool readable(int fd)
{
	pollfd p = {fd, POLLIN, 0};
	int r = poll(&p, 1, 0);
	VF_CHECK(r >= 0, "harness: poll: %s", strerror(errno));
	VF_CHECK(!(p.revents & ~(POLLIN | POLLRDNORM)), "the descriptor is in error (%x)", p.revents);
	return r > 0;
}
struct Box {
	struct mbox *b;
	size_t size;
	int fd;
	std::deque<std::string> q;
	uint64_t serial = 0;
	bool was_full = false;
	size_t high = 0;
	Box(size_t n, bool tiny) : size(n)
	{
		b = mbox_new(n);
		VF_CHECK(b, "creation refused for messages of %zu bytes", n);
		fd = mbox_get_read_fd(b);
		VF_CHECK(fd >= 0, "no descriptor");
		if (tiny) // as the system does for users with many pipes
			fcntl(fd, F_SETPIPE_SZ, 4096);
	}
	~Box() { mbox_destroy(b); }
	void check()
	{
		bool r = readable(fd);
		VF_CHECK(r == !q.empty(), "the descriptor is %s with %zu messages waiting", r ? "readable" : "not readable", q.size());
		high = std::max(high, q.size());
	}
	std::string make(unsigned kind)
	{
		std::string m(size, (char)(kind == 1 ? 0 : 0xff));
		if (kind > 1)
			fill(serial * 1000003 + kind, &m[0], size);
		uint64_t s = serial++;
		memcpy(&m[0], &s, std::min(size, (size_t)4));
		return m;
	}
	void push(bool block, unsigned timeout, unsigned kind)
	{
		std::string m = make(kind);
		std::unique_ptr<char[]> p(new char[size]); // exactly that long
		memcpy(p.get(), m.data(), size);
		int r = block ? mbox_push_block(b, p.get(), timeout) : mbox_push(b, p.get());
		VF_CHECK(!memcmp(p.get(), m.data(), size), "the pushed message was changed");
		if (r == 0) {
			q.push_back(m);
		} else {
			VF_CHECK(r == (block ? -ETIMEDOUT : -EAGAIN), "%spush returns %d with %zu messages waiting", block ? "blocking " : "", r, q.size());
			VF_CHECK(!q.empty(), "%spush into an empty mailbox returns %d", block ? "blocking " : "", r);
			was_full = true;
		}
		check();
	}
	int peek()
	{
		std::unique_ptr<char[]> p(new char[size]);
		memset(p.get(), 0x5a, size);
		int r = mbox_peek(b, p.get());
		if (q.empty()) {
			VF_CHECK(r == -EAGAIN, "read from an empty mailbox returns %d", r);
		} else {
			VF_CHECK(r == 0, "read returns %d with %zu messages waiting", r, q.size());
			VF_CHECK(!memcmp(p.get(), q.front().data(), size), "read %s instead of %s (%zu waiting)", hex(p.get(), size, 24).c_str(), hex(q.front().data(), size, 24).c_str(), q.size());
			q.pop_front();
		}
		check();
		return r;
	}
};
static size_t some_size()
{
	switch (draw(3)) {
	case 0: return range(1, 32);
	case 1: return 4095 - draw(40);
	case 2: return (size_t)pick(std::vector<int>{1, 2, 16, 255, 256, 512, 1000, 1024, 1365, 1366, 2047, 2048, 2049, 3000, 4000, 4094, 4095});
	default: return range(1, 4095);
	}
}
static void history(bool tiny)
{
	size_t n = some_size();
	Box x(n, tiny);
	x.check();
	unsigned rounds = (unsigned)range(1, 8);
	bool emptied = false;
	for (unsigned i = 0; i < rounds; i++) {
		unsigned k = (unsigned)weighted({4, 2, 3, 1, 1});
		unsigned kind = (unsigned)draw(3);
		switch (k) {
		case 0: // a mixture
			for (unsigned j = (unsigned)draw(20); j; j--) {
				if (chance(1, 2))
					x.push(false, 0, kind);
				else
					x.peek();
			}
			break;
		case 1: { // fill it, then push once more
			unsigned guard = 0;
			x.was_full = false;
			// small messages take very many pushes: only sometimes all the way
			unsigned lim = n >= 64 || tiny ? 5000 : chance(1, 10) ? 70000 : 300;
			while (!x.was_full && guard++ < lim)
				x.push(false, 0, kind);
			if (x.was_full) {
				classify("full");
				nontrivial();
				x.push(false, 0, kind);
				if (chance(1, 6)) {
					classify("blocking push into a full mailbox");
					x.push(true, 1, kind);
				}
			}
			break;
		}
		case 2: { // drain some or all
			size_t c = chance(1, 2) ? x.q.size() + 1 : draw(x.q.size());
			if (x.q.size() >= 2 && c > x.q.size())
				emptied = true;
			while (c--)
				x.peek();
			break;
		}
		case 3: // blocking push while there is room for sure
			if (x.q.empty())
				x.push(true, (unsigned)draw(1) * 1000, kind);
			break;
		default: // full, one read, one push
			for (unsigned j = (unsigned)draw(30); j; j--) {
				x.peek();
				x.push(false, 0, kind);
			}
		}
		note("size %zu, step %u: %zu waiting", n, k, x.q.size());
	}
	while (!x.q.empty())
		x.peek();
	x.peek();
	if (emptied) {
		nontrivial();
		classify("emptied");
	}
}
VF_FACET(histories, 8000, 200000) { history(false); }
VF_FACET(small_pipe, 8000, 200000) { history(true); }
// every permitted size holds whole messages, every other is refused
VF_FACET(sizes, 4300, 20000, NOMUT)
{
	static const size_t odd[] = {0, 4096, 4097, 8192, 65536, 65537, INT_MAX, (size_t)INT_MAX + 1, UINT_MAX, (size_t)UINT_MAX + 1, (size_t)UINT_MAX + 17, SSIZE_MAX, SIZE_MAX, SIZE_MAX - 4095};
	size_t k = cycle(4095 + sizeof odd / sizeof *odd - 1);
	nontrivial();
	if (k >= 4095) {
		size_t n = odd[k - 4095];
		note("size %zu", n);
		struct mbox *b = mbox_new(n);
		VF_CHECK(!b, "creation accepted for messages of %zu bytes", n);
		return;
	}
	Box x(k + 1, chance(1, 2));
	note("size %zu", k + 1);
	for (int i = 0; i < 3; i++)
		x.push(i == 1 && x.q.empty(), 0, 2);
	while (!x.q.empty())
		x.peek();
	x.peek();
	for (int i = 0; i < 20 || (x.size > 500 && i < 200); i++)
		x.push(false, 0, 3);
	while (!x.q.empty())
		x.peek();
}
