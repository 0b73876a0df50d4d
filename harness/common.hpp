// Common support for the enumeration harnesses: case bookkeeping, sharding, evidence counters, violations.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <unordered_set>
#include <set>
#include <algorithm>
#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <time.h>

namespace vh {

struct Current { volatile uint64_t counter; char desc[4088]; };

struct Harness {
	int shard = 0, nshards = 1;
	bool thorough = false;
	std::string out, only;
	bool has_only = false;
	Current* cur = nullptr;
	uint64_t index = 0;            // cases enumerated (all shards)
	uint64_t executed = 0;         // cases run here
	double t0 = 0, cap = 1e9;
	bool capped = false;
	std::map<std::string, uint64_t> stats;
	std::unordered_set<uint64_t> distinct;
	std::vector<std::string> samples;
	std::vector<std::pair<std::string, std::string>> violations;
	std::map<std::string, std::string> known;  // key -> description
	std::string args;              // extra args

	static double now() { struct timespec ts; syscall_clock(&ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
	static void syscall_clock(struct timespec* ts);

	void init(int argc, char** argv)
	{
		static Current fallback;
		cur = &fallback;
		for (int i = 1; i < argc; ++i) {
			std::string a = argv[i];
			auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
			if (a == "--shard") shard = atoi(next().c_str());
			else if (a == "--nshards") nshards = atoi(next().c_str());
			else if (a == "--tier") thorough = next() == "thorough";
			else if (a == "--out") out = next();
			else if (a == "--case") { only = next(); has_only = true; }
			else if (a == "--cap") cap = atof(next().c_str());
			else if (a == "--args") args = next();
			else if (a == "--cur") {
				int fd = open(next().c_str(), O_RDWR | O_CREAT, 0644);
				if (fd >= 0 && ftruncate(fd, sizeof(Current)) == 0) {
					void* p = mmap(nullptr, sizeof(Current), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
					if (p != MAP_FAILED) cur = (Current*)p;
				}
			}
		}
		t0 = now();
	}
	bool out_of_time()
	{
		if (capped) return true;
		if ((executed & 63) == 0 && now() - t0 > cap) capped = true;
		return capped;
	}
	// Starts a case; true when this process must run it.
	bool begin(const char* fmt, ...) __attribute__((format(printf, 2, 3)))
	{
		uint64_t id = index++;
		if (!has_only && (int)(id % (uint64_t)nshards) != shard) return false;
		if (!has_only && out_of_time()) return false;
		va_list ap;
		va_start(ap, fmt);
		char tmp[4000];
		vsnprintf(tmp, sizeof tmp, fmt, ap);
		va_end(ap);
		if (has_only && only != tmp) return false;
		strcpy(cur->desc, tmp);
		cur->counter = cur->counter + 1;
		++executed;
		// samples at exponentially spaced positions
		if ((executed & (executed - 1)) == 0 && samples.size() < 24) samples.push_back(tmp);
		return true;
	}
	void fail(const char* fmt, ...) __attribute__((format(printf, 2, 3)))
	{
		va_list ap;
		va_start(ap, fmt);
		char tmp[2000];
		vsnprintf(tmp, sizeof tmp, fmt, ap);
		va_end(ap);
		fprintf(stderr, "FAIL [%s] %s\n", cur->desc, tmp);
		if (violations.size() < 20) violations.emplace_back(cur->desc, tmp);
		if (violations.size() >= 20) { finish(); _exit(3); }
	}
	static std::string esc(const std::string& s)
	{
		std::string r = "\"";
		for (unsigned char c : s) {
			if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
			else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
			else r += (char)c;
		}
		return r + "\"";
	}
	int finish()
	{
		std::string j = "{";
		char b[200];
		snprintf(b, sizeof b, "\"enumerated\":%llu,\"executed\":%llu,\"distinct\":%llu,\"capped\":%s,\"wall\":%.2f,", (unsigned long long)index, (unsigned long long)executed,
			 (unsigned long long)distinct.size(), capped ? "true" : "false", now() - t0);
		j += b;
		j += "\"stats\":{";
		bool f = true;
		for (auto& s : stats) { if (!f) j += ","; f = false; snprintf(b, sizeof b, ":%llu", (unsigned long long)s.second); j += esc(s.first) + b; }
		j += "},\"samples\":[";
		f = true;
		for (auto& s : samples) { if (!f) j += ","; f = false; j += esc(s); }
		j += "],\"violations\":[";
		f = true;
		for (auto& s : violations) { if (!f) j += ","; f = false; j += "[" + esc(s.first) + "," + esc(s.second) + "]"; }
		j += "],\"known\":{";
		f = true;
		for (auto& s : known) { if (!f) j += ","; f = false; j += esc(s.first) + ":" + esc(s.second); }
		j += "},\"hashes\":[";
		f = true;
		size_t nh = 0;
		for (auto h : distinct) { if (++nh > 20000) break; if (!f) j += ","; f = false; snprintf(b, sizeof b, "%llu", (unsigned long long)h); j += b; }
		j += "]}\n";
		if (!out.empty()) {
			FILE* o = fopen(out.c_str(), "w");
			if (o) { fwrite(j.data(), 1, j.size(), o); fclose(o); }
		}
		else if (!has_only) fwrite(j.data(), 1, j.size(), stdout);
		return violations.empty() ? 0 : 3;
	}
};

inline uint64_t mix(uint64_t x)
{
	x += 0x9E3779B97F4A7C15ull;
	x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
	x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
	return x ^ (x >> 31);
}
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 0x1234567)
{
	const uint8_t* b = (const uint8_t*)p;
	while (n >= 8) { uint64_t v; memcpy(&v, b, 8); h = (h ^ v) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; b += 8; n -= 8; }
	uint64_t v = n;
	for (size_t i = 0; i < n; ++i) v = v * 257 + b[i] + 1;
	h = (h ^ v) * 0x9E3779B97F4A7C15ull;
	return h ^ (h >> 32);
}
struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed) : s(mix(seed)) {}
	uint64_t next() { s = s * 6364136223846793005ull + 1442695040888963407ull; uint64_t x = s ^ (s >> 29); return x * 0x9E3779B97F4A7C15ull >> 11; }
	unsigned below(unsigned n) { return (unsigned)(next() % n); }
	uint8_t byte() { return (uint8_t)(next() >> 17); }
};
}

#include <sys/syscall.h>
inline void vh::Harness::syscall_clock(struct timespec* ts) { syscall(SYS_clock_gettime, CLOCK_MONOTONIC, ts); }

static vh::Harness H;
