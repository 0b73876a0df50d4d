// Buffers whose last byte is directly followed by an inaccessible page (and, under ASAN, exact heap blocks).
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <sys/mman.h>

#if defined(__SANITIZE_ADDRESS__)
#define GUARD_ASAN 1
#endif
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define GUARD_ASAN 1
#endif
#endif

namespace guard {
// fixed capacity mapping: | canary area ... user bytes | PROT_NONE |
struct Buf {
	uint8_t* map = nullptr;
	size_t cap = 0;
	uint8_t* end = nullptr;   // first inaccessible byte
	uint8_t* p = nullptr;     // current user pointer
	size_t n = 0;
	static constexpr size_t FRONT = 64;
	explicit Buf(size_t capacity)
	{
		cap = (capacity + FRONT + 4095) & ~(size_t)4095;
		map = (uint8_t*)mmap(nullptr, cap + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		if (map == (uint8_t*)MAP_FAILED) abort();
		mprotect(map, 4096, PROT_NONE);
		mprotect(map + 4096 + cap, 4096, PROT_NONE);
		end = map + 4096 + cap;
	}
	~Buf() { munmap(map, cap + 8192); }
	Buf(const Buf&) = delete;
	// n user bytes ending at the guard page, canaries in front
	uint8_t* make(size_t bytes)
	{
		if (bytes + FRONT > cap) abort();
		n = bytes;
		p = end - bytes;
		memset(p - FRONT, 0xC3, FRONT);
		return p;
	}
	bool front_ok() const
	{
		for (size_t i = 1; i <= FRONT; ++i)
			if (p[-(long)i] != 0xC3) return false;
		return true;
	}
	void readonly(bool on) { mprotect(map + 4096, cap, on ? PROT_READ : PROT_READ | PROT_WRITE); }
};
}
