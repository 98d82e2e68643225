// Native side of the harness interface: replays one assignment file against the natively compiled code.
#include "sym.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fstream>
#include <map>
#include <string>
static std::map<std::string, uint64_t> vals;
static std::map<std::string, std::string> outs;
static int bad = 0;
static uint64_t get(const std::string & n, uint64_t d = 0) { auto i = vals.find(n); return i == vals.end() ? d : i->second; }
extern "C" {
uint64_t sym_range(const char * name, uint64_t lo, uint64_t) { return get(name, lo); }
void sym_bytes(void * p, size_t n, const char * name) { for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = (unsigned char)get(std::string(name) + "[" + std::to_string(i) + "]"); }
uint64_t sym_u64(const char * name) { return get(name); }
uint32_t sym_u32(const char * name) { return (uint32_t)get(name); }
uint8_t sym_u8(const char * name) { return (uint8_t)get(name); }
void sym_assume(bool c) { if (!c) { printf("REPLAY-ASSUMPTION-FALSE\n"); fflush(stdout); _Exit(0); } }
void sym_check(bool c, const char * label) { if (!c) { printf("REPLAY-VIOLATION %s: assertion is false\n", label); bad = 1; } }
void sym_check_eq(const void * a, const void * b, size_t n, const char * label) {
	if (memcmp(a, b, n) != 0) {
		printf("REPLAY-VIOLATION %s:\n got      ", label);
		for (size_t i = 0; i < n; i++) printf("%02x", ((const unsigned char *)a)[i]);
		printf("\n expected ");
		for (size_t i = 0; i < n; i++) printf("%02x", ((const unsigned char *)b)[i]);
		printf("\n");
		bad = 1;
	}
}
void sym_out(const void * p, size_t n, const char * label) {
	std::string s; char b[4];
	for (size_t i = 0; i < n; i++) { snprintf(b, sizeof b, "%02x", ((const unsigned char *)p)[i]); s += b; }
	printf("OUT %s %s\n", label, s.c_str());
}
void sym_reach(const char *) {}
void sym_shard() {}
int sym_same(const void * a, const void * b, size_t n, const char * name) { return (int)get(name, memcmp(a, b, n) == 0); }
int sym_is_concrete() { return 1; }
}
int main(int argc, char ** argv) {
	if (argc < 2) return 2;
	std::ifstream f(argv[1]); std::string l, entry;
	while (std::getline(f, l)) {
		if (l.rfind("#entry ", 0) == 0) entry = l.substr(7);
		if (l.empty() || l[0] == '#' || l[0] == '!') continue;
		auto p = l.rfind('='); if (p != std::string::npos) vals[l.substr(0, p)] = std::stoull(l.substr(p + 1));
	}
	auto fn = (void (*)())dlsym(RTLD_DEFAULT, entry.c_str());
	if (!fn) { printf("no entry %s\n", entry.c_str()); return 2; }
	fn();
	fflush(stdout);
	if (!bad) printf("REPLAY-OK\n");
	return bad;
}
