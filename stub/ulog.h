/* Stand-in for libulog's header, which is not in the sandbox. Messages are
 * formatted (so that format/argument mistakes are exercised) and discarded. */
#ifndef _PARROT_ULOG_H
#define _PARROT_ULOG_H

#include <errno.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#ifdef __cplusplus
extern "C" {
#endif

#define ULOG_CRIT 2
#define ULOG_ERR 3
#define ULOG_WARN 4
#define ULOG_NOTICE 5
#define ULOG_INFO 6
#define ULOG_DEBUG 7

__attribute__((format(printf, 2, 3), unused))
static void ulog_stub_log(int prio, const char *fmt, ...)
{
	char ulog_stub_buf[256];
	int e = errno;
	va_list ap;
	(void)prio;
	va_start(ap, fmt);
	(void)vsnprintf(ulog_stub_buf, sizeof(ulog_stub_buf), fmt, ap);
	va_end(ap);
	errno = e;
}

#define ULOG_DECLARE_TAG(_n) extern int ulog_stub_declare_tag
#define ULOG_SET_LEVEL(_l) do { } while (0)

#define ULOG_PRI(_p, ...) ulog_stub_log((_p), __VA_ARGS__)
#define ULOGC(...) ulog_stub_log(ULOG_CRIT, __VA_ARGS__)
#define ULOGE(...) ulog_stub_log(ULOG_ERR, __VA_ARGS__)
#define ULOGW(...) ulog_stub_log(ULOG_WARN, __VA_ARGS__)
#define ULOGN(...) ulog_stub_log(ULOG_NOTICE, __VA_ARGS__)
#define ULOGI(...) ulog_stub_log(ULOG_INFO, __VA_ARGS__)
#define ULOGD(...) ulog_stub_log(ULOG_DEBUG, __VA_ARGS__)

#define ULOG_PRI_ERRNO(_p, _err, _fmt, ...) \
	do { \
		int __ulog_e = (_err); \
		ulog_stub_log((_p), _fmt " err=%d(%s)", ##__VA_ARGS__, \
				__ulog_e, strerror(__ulog_e)); \
	} while (0)
#define ULOGC_ERRNO(_err, _fmt, ...) \
	ULOG_PRI_ERRNO(ULOG_CRIT, _err, _fmt, ##__VA_ARGS__)
#define ULOGE_ERRNO(_err, _fmt, ...) \
	ULOG_PRI_ERRNO(ULOG_ERR, _err, _fmt, ##__VA_ARGS__)
#define ULOGW_ERRNO(_err, _fmt, ...) \
	ULOG_PRI_ERRNO(ULOG_WARN, _err, _fmt, ##__VA_ARGS__)
#define ULOGN_ERRNO(_err, _fmt, ...) \
	ULOG_PRI_ERRNO(ULOG_NOTICE, _err, _fmt, ##__VA_ARGS__)
#define ULOGI_ERRNO(_err, _fmt, ...) \
	ULOG_PRI_ERRNO(ULOG_INFO, _err, _fmt, ##__VA_ARGS__)
#define ULOGD_ERRNO(_err, _fmt, ...) \
	ULOG_PRI_ERRNO(ULOG_DEBUG, _err, _fmt, ##__VA_ARGS__)
#define ULOG_ERRNO(_fmt, _err, ...) \
	ULOG_PRI_ERRNO(ULOG_ERR, _err, _fmt, ##__VA_ARGS__)

#define ULOG_ERRNO_RETURN_IF(_c, _err) \
	do { if (_c) { ULOG_ERRNO("", (_err)); return; } } while (0)
#define ULOG_ERRNO_RETURN_ERR_IF(_c, _err) \
	do { \
		if (_c) { \
			int __ulog_r = (_err); \
			ULOG_ERRNO("", __ulog_r); \
			return -__ulog_r; \
		} \
	} while (0)
#define ULOG_ERRNO_RETURN_VAL_IF(_c, _err, _v) \
	do { if (_c) { ULOG_ERRNO("", (_err)); return (_v); } } while (0)

#ifdef __cplusplus
}
#endif
#endif
