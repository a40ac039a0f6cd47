// A file in memory that can be opened by name
#pragma once
#include <sys/mman.h>
#include <unistd.h>
#include <string>
#include <cstdlib>
namespace vf {
class MemFile {
	int fd; std::string p;
public:
	explicit MemFile(const std::string& text) {
		fd = memfd_create("vf", 0); if(fd < 0) abort();
		size_t o = 0; while(o < text.size()) { ssize_t w = write(fd, text.data()+o, text.size()-o); if(w <= 0) abort(); o += (size_t)w; }
		p = "/proc/self/fd/" + std::to_string(fd);
	}
	~MemFile() { close(fd); }
	MemFile(const MemFile&) = delete;
	const std::string& path() const { return p; }
};
}
