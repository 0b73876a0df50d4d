// C12: every input is compressed by every build variant; every distinct frame is decompressed by every build variant.
#include "codec_inputs.hpp"
#include "stenos/stenos.h"
#include <dlfcn.h>
#include <thread>
unsigned std::thread::hardware_concurrency() noexcept { return 1; }

struct Variant {
	std::string name;
	size_t (*compress)(const void*, size_t, size_t, void*, size_t, int);
	size_t (*decompress)(const void*, size_t, size_t, void*, size_t);
	int (*has_error)(size_t);
	size_t (*bound)(size_t);
};
static std::vector<Variant> vars;
static std::vector<uint8_t> back;

static void roundtrip(const uint8_t* in, size_t bytes, size_t bpp, int level)
{
	std::vector<std::vector<uint8_t>> frames;
	std::vector<const char*> who;
	std::unordered_set<uint64_t> seen;
	uint64_t sig = bpp;
	for (auto& v : vars) {
		std::vector<uint8_t> f(v.bound(bytes));
		size_t r = v.compress(in, bpp, bytes, f.data(), f.size(), level);
		H.stats["compressions"]++;
		if (v.has_error(r)) { H.fail("%s: compression failed (%lld)", v.name.c_str(), (long long)r); return; }
		f.resize(r);
		uint64_t h = vh::hash_bytes(f.data(), r);
		if (!seen.insert(h).second) continue;
		sig = sig * 31 + (r > 8 ? f[8] : 0) + (r > 13 ? f[12] * 7 : 0);
		frames.push_back(std::move(f));
		who.push_back(v.name.c_str());
	}
	H.stats["distinct_frames"] += frames.size();
	back.resize(bytes + 8);
	for (size_t i = 0; i < frames.size(); ++i)
		for (auto& v : vars) {
			memset(back.data(), 0xEE, bytes + 8);
			size_t d = v.decompress(frames[i].data(), bpp, frames[i].size(), back.data(), bytes);
			H.stats["pairs"]++;
			if (d != bytes || memcmp(back.data(), in, bytes)) {
				H.fail("bytes=%zu bpp=%zu level=%d: frame made by %s, decompressed by %s: returned %lld%s", bytes, bpp, level, who[i], v.name.c_str(), (long long)d, d == bytes ? ", data differ" : "");
				return;
			}
			for (int k = 0; k < 8; ++k) if (back[bytes + k] != 0xEE) { H.fail("%s writes beyond the destination", v.name.c_str()); return; }
		}
	H.distinct.insert(sig * 31 + frames.size() + bytes % 4099 * 131);
}

int main(int argc, char** argv)
{
	H.init(argc, argv);
	REDUCED = true;
	// args: name=path,name=path...
	std::string a = H.args;
	size_t p = 0;
	while (p < a.size()) {
		size_t e = a.find(',', p);
		if (e == std::string::npos) e = a.size();
		std::string s = a.substr(p, e - p);
		p = e + 1;
		size_t q = s.find('=');
		Variant v;
		v.name = s.substr(0, q);
		void* h = dlopen(s.c_str() + q + 1, RTLD_LAZY | RTLD_LOCAL);
		if (!h) { fprintf(stderr, "%s\n", dlerror()); _exit(2); }
		*(void**)&v.compress = dlsym(h, "stenos_compress");
		*(void**)&v.decompress = dlsym(h, "stenos_decompress");
		*(void**)&v.has_error = dlsym(h, "stenos_has_error");
		*(void**)&v.bound = dlsym(h, "stenos_bound");
		if (!v.compress || !v.decompress || !v.has_error || !v.bound) { fprintf(stderr, "missing symbols\n"); _exit(2); }
		vars.push_back(v);
	}
	section_rows();
	section_partial();
	section_repeat();
	section_far();
	section_lengths();
	if (H.shard == 0) H.stats["variants"] = vars.size();
	int r = H.finish();
	_exit(r);
}
