// Checksum bytes of a content, as the library itself stores them: obtained by an undisturbed checksummed commit.
#pragma once
#include "disk.h"
#include "futils/safew.h"
inline std::string crc_of(const std::string &c)
{
	static std::string path;
	if (path.empty()) {
		path = vf::scratch() + "/ref";
		mkdir(path.c_str(), 0700);
		path += "/r";
	}
	futils_safew_file *f = futils_safew_fopen(path.c_str());
	VF_CHECK(f && futils_safew_fwrite(c.data(), 1, c.size(), f) == c.size(), "an undisturbed write failed");
	VF_CHECK(futils_safew_fclose_commit_with_crc(f) == 0, "an undisturbed checksummed commit failed");
	char b[64];
	FILE *r = fopen((path + ".crc").c_str(), "r");
	VF_CHECK(r, "a checksummed commit left no checksum file");
	size_t n = fread(b, 1, sizeof b, r);
	fclose(r);
	return std::string(b, n);
}
