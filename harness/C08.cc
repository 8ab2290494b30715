// VF variant: asan
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <poll.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <deque>
#include <memory>
#include "vf.h"
extern "C" {
#include "futils/dynmbox.h"
}
using namespace vf;
VF_PROPERTY("C08", "exploration", "more bytes than the buffer holds went through, or a push was refused for lack of room, or several empty messages are queued");
VF_ASSUME("a queue of byte strings is the reference; the capacity of a non-empty mailbox is not specified, only that any permitted message fits an empty one");

static const size_t LIMIT = DYNMBOX_MAX_SIZE;
static bool readable(int fd)
{
	pollfd p = {fd, POLLIN, 0};
	int r = poll(&p, 1, 0);
	VF_CHECK(r >= 0, "harness: poll: %s", strerror(errno));
	VF_CHECK(!(p.revents & ~(POLLIN | POLLRDNORM)), "the descriptor is in error (%x)", p.revents);
	return r > 0;
}
struct Box {
	struct dynmbox *b;
	size_t max;
	int fd;
	std::deque<std::string> q;
	uint64_t serial = 1, through = 0;
	size_t held = 0, empties = 0, refused = 0;
	std::unique_ptr<char[]> out;
	Box(size_t n, bool tiny) : max(n), out(new char[n ? n : 1])
	{
		b = dynmbox_new(n);
		VF_CHECK(b, "creation refused for messages of up to %zu bytes", n);
		VF_CHECK(dynmbox_get_max_size(b) == (ssize_t)n, "maximum size %zd instead of %zu", dynmbox_get_max_size(b), n);
		fd = dynmbox_get_read_fd(b);
		VF_CHECK(fd >= 0, "no descriptor");
		if (tiny) // as the system does for users with many pipes
			fcntl(fd, F_SETPIPE_SZ, 4096);
	}
	~Box() { dynmbox_destroy(b); }
	void check()
	{
		bool r = readable(fd);
		VF_CHECK(r == !q.empty(), "the descriptor is %s with %zu messages waiting", r ? "readable" : "not readable", q.size());
	}
	int push(size_t n, int block = 0, bool look = true)
	{
		std::string m(n, 0);
		if (serial % 5)
			fill(serial, &m[0], n);
		else
			memset(&m[0], (int)(serial % 255), n);
		serial++;
		std::unique_ptr<char[]> p(n ? new char[n] : nullptr);
		if (n)
			memcpy(p.get(), m.data(), n);
		int r = block ? dynmbox_push_block(b, p.get(), n, block > 1 ? 1 : q.empty() ? (serial & 1) * 100 : 1) : dynmbox_push(b, p.get(), n);
		VF_CHECK(!n || !memcmp(p.get(), m.data(), n), "the pushed message was changed");
		if (n > max) {
			VF_CHECK(r == -EINVAL, "push of %zu bytes returns %d, the maximum is %zu", n, r, max);
		} else if (r == 0) {
			q.push_back(m);
			held += n;
			through += n + 4;
			empties += !n;
		} else {
			VF_CHECK(r == (block ? -ETIMEDOUT : -EAGAIN), "%spush of %zu bytes returns %d, %zu messages of %zu bytes in total waiting", block ? "blocking " : "", n, r, q.size(), held);
			VF_CHECK(!q.empty(), "push of %zu bytes (maximum %zu) into an empty mailbox returns %d after %llu bytes went through", n, max, r, (unsigned long long)through);
			refused++;
		}
		if (look)
			check();
		return r;
	}
	void peek(bool look = true)
	{
		memset(out.get(), 0x5a, std::min(max, (size_t)16));
		ssize_t r = dynmbox_peek(b, out.get());
		if (q.empty()) {
			VF_CHECK(r == -EAGAIN, "read from an empty mailbox returns %zd", r);
		} else {
			const std::string &m = q.front();
			VF_CHECK(r == (ssize_t)m.size(), "read returns %zd instead of %zu, %zu messages waiting, %llu bytes went through", r, m.size(), q.size(), (unsigned long long)through);
			VF_CHECK(!memcmp(out.get(), m.data(), m.size()), "read %s instead of %s (%zu bytes, %zu messages waiting, %llu bytes went through)", hex(out.get(), m.size(), 24).c_str(), hex(m.data(), m.size(), 24).c_str(), m.size(), q.size(), (unsigned long long)through);
			held -= m.size();
			q.pop_front();
		}
		if (look)
			check();
	}
	void done()
	{
		while (!q.empty())
			peek();
		peek();
		if (through > 65540) {
			nontrivial();
			classify("wrapped around");
		}
		if (refused) {
			nontrivial();
			classify("refused for lack of room");
		}
		if (empties > 2)
			nontrivial();
	}
};
static size_t some_max()
{
	switch (draw(4)) {
	case 0: return LIMIT;
	case 1: return LIMIT - draw(20);
	case 2: return interesting(LIMIT);
	case 3: return draw(64);
	default: return draw(LIMIT);
	}
}
static size_t some_len(const Box &x)
{
	switch (weighted({4, 2, 2, 2, 2, 1})) {
	case 0: return draw(x.max);
	case 1: return 0;
	case 2: return x.max - std::min(x.max, (size_t)draw(8));
	case 3: return std::min(x.max, (size_t)draw(300));
	case 4: { // about what is left of 64 KiB
		size_t used = x.held + 4 * x.q.size() + 4;
		size_t left = used < 65536 ? 65536 - used : 0;
		size_t d = draw(16);
		left = left + 8 > d ? left + 8 - d : 0;
		return std::min(x.max, left);
	}
	default: return x.max + 1 + (chance(1, 2) ? draw(10) : draw(1 << 20));
	}
}
static void history(bool tiny)
{
	Box x(some_max(), tiny);
	x.check();
	unsigned rounds = (unsigned)range(1, 12);
	for (unsigned i = 0; i < rounds; i++) {
		unsigned k = (unsigned)weighted({5, 2, 2, 2});
		switch (k) {
		case 0:
			for (unsigned j = (unsigned)draw(24); j; j--) {
				if (chance(3, 5))
					x.push(some_len(x));
				else
					x.peek();
			}
			break;
		case 1: { // fill
			size_t n = some_len(x);
			if (n > x.max)
				n = x.max;
			bool all = n >= 32 || chance(1, 8);
			for (unsigned g = 0; g < (all ? 20000u : 200u); g++)
				if (x.push(n, 0, g % 16 == 0))
					break;
			if (x.refused && chance(1, 8)) {
				if (x.push(n, 2) == -ETIMEDOUT)
					classify("blocking push into a full mailbox");
			}
			break;
		}
		case 2: {
			size_t c = chance(1, 2) ? x.q.size() + 1 : draw(x.q.size());
			while (c--)
				x.peek(c % 16 == 0);
			break;
		}
		default: // keep it partly filled and moving
			for (unsigned j = (unsigned)draw(60); j; j--) {
				size_t n = some_len(x);
				if (x.push(std::min(n, x.max), chance(1, 16) && x.q.empty()))
					x.peek();
				if (chance(1, 2))
					x.peek();
			}
		}
		note("maximum %zu, step %u: %zu waiting, %llu bytes through", x.max, k, x.q.size(), (unsigned long long)x.through);
	}
	x.done();
}
VF_FACET(histories, 12000, 300000) { history(false); }
VF_FACET(small_pipe, 6000, 150000) { history(true); }
// the buffer wraps at a chosen offset inside header or payload
VF_FACET(offsets, 20000, 600000)
{
	size_t off = cycle(65535); // bytes through before the message which wraps
	Box x(LIMIT, false);
	size_t gone = 0;
	while (gone + 4 <= off) {
		size_t n = std::min(off - gone - 4, (size_t)LIMIT);
		if (off - gone - 4 - n && off - gone - 4 - n < 4)
			n -= 4;
		x.push(n, 0, false);
		x.peek(false);
		gone += n + 4;
	}
	unsigned k = (unsigned)draw(4);
	note("offset %zu, pattern %u", off, k);
	switch (k) {
	case 0: x.push(LIMIT); break;
	case 1: x.push(0); x.push(LIMIT - 4); x.push(0); break;
	case 2: for (int i = 0; i < 6; i++) x.push(draw(12)); break;
	case 3: x.push(draw(LIMIT)); x.push(draw(LIMIT)); x.push(draw(LIMIT)); break;
	default: x.push(draw(8)); x.push(LIMIT - 20 + draw(24)); x.push(draw(8));
	}
	x.peek();
	x.push(draw(200));
	x.done();
	nontrivial();
}
VF_FACET(creation, 3000, 70000, NOMUT)
{
	static const size_t odd[] = {LIMIT + 1, LIMIT + 2, LIMIT + 4, LIMIT + 5, 65536 * 2, INT_MAX, UINT_MAX, (size_t)UINT_MAX + 1, (size_t)UINT_MAX + 101, SSIZE_MAX, SIZE_MAX, SIZE_MAX - 3, SIZE_MAX - 4};
	nontrivial();
	if (chance(1, 3)) {
		size_t n = odd[draw(sizeof odd / sizeof *odd - 1)];
		note("maximum %zu", n);
		VF_CHECK(!dynmbox_new(n), "creation accepted for messages of up to %zu bytes", n);
		return;
	}
	size_t n = chance(1, 2) ? LIMIT - draw(300) : chance(1, 2) ? draw(300) : draw(LIMIT);
	Box x(n, false);
	note("maximum %zu", n);
	x.push(n);
	x.push(n + 1);
	x.push(n ? n - 1 : 0);
	x.push((size_t)UINT_MAX + 1 > n ? n + 65536 : 0);
	for (int i = 0; i < 3; i++) {
		size_t big = ((size_t)1 << (i == 0 ? 32 : i == 1 ? 31 : 16)) + draw(n);
		int r = chance(1, 2) ? dynmbox_push(x.b, huge(), big) : dynmbox_push_block(x.b, huge(), big, 1);
		VF_CHECK(r == -EINVAL, "push of %zu bytes returns %d, the maximum is %zu", big, r, n);
		x.check();
	}
	x.done();
	x.push(n);
	x.done();
}
