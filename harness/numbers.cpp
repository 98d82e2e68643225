#include "inc.hpp"

namespace {
using namespace cthash;
// ------------------------------------------------------------------ numbers from and to bytes
template <typename T, typename B> void read_number() {
	B in[sizeof(T)];
	sym_bytes(in, sizeof(T), "in");
	T be = 0, le = 0;
	for (size_t i = 0; i < sizeof(T); i++) { be = (T)(be << 8 % (8 * sizeof(T)) | (u8)in[i]); le = (T)(le | (T)((T)(u8)in[i] << (8 * i))); }
	if (sizeof(T) == 1) be = le = (T)(u8)in[0];
	T x = cast_from_bytes<T>(std::span<const B, sizeof(T)>(in, sizeof(T)));
	T y = cast_from_le_bytes<T>(std::span<const B, sizeof(T)>(in, sizeof(T)));
	sym_check(x == be, "big-endian number");
	sym_check(y == le, "little-endian number");
	uint64_t o[2] = {x, y};
	sym_out(o, 16, "numbers");
	sym_reach("end");
}
template <typename T> void write_number() {
	T v;
	sym_bytes(&v, sizeof v, "value");
	struct { u8 pre[4]; std::byte out[sizeof(T)]; u8 post[4]; } a, b;
	sym_bytes(&a, sizeof a, "a"); sym_bytes(&b, sizeof b, "b");
	auto a0 = a, b0 = b;
	unwrap_bigendian_number<T>{std::span<std::byte, sizeof(T)>(a.out, sizeof(T))} = v;
	unwrap_littleendian_number<T>{std::span<std::byte, sizeof(T)>(b.out, sizeof(T))} = v;
	for (size_t i = 0; i < sizeof(T); i++) {
		sym_check((u8)b.out[i] == (u8)(v >> (8 * i)), "little-endian byte");
		sym_check((u8)a.out[sizeof(T) - 1 - i] == (u8)(v >> (8 * i)), "big-endian byte");
	}
	sym_check_eq(a.pre, a0.pre, 4, "nothing before"); sym_check_eq(a.post, a0.post, 4, "nothing after");
	sym_check_eq(b.pre, b0.pre, 4, "nothing before"); sym_check_eq(b.post, b0.post, 4, "nothing after");
	sym_check(cast_from_bytes<T>(std::span<const std::byte, sizeof(T)>(a.out, sizeof(T))) == v, "big-endian round trip");
	sym_check(cast_from_le_bytes<T>(std::span<const std::byte, sizeof(T)>(b.out, sizeof(T))) == v, "little-endian round trip");
	sym_out(a.out, sizeof(T), "be"); sym_out(b.out, sizeof(T), "le");
	sym_reach("end");
}
template <typename B> void copy_bytes() {
	static B in[40];
	struct { u8 pre[4]; std::byte out[40]; u8 post[4]; } box;
	size_t n = sym_range("n", 0, 40);
	sym_shard();
	sym_bytes(in, n, "in"); sym_bytes(&box, sizeof box, "box");
	auto b0 = box;
	auto it = byte_copy(in, in + n, box.out);
	sym_check(it == box.out + n, "end of the copy");
	sym_check_eq(box.out, in, n, "copied bytes");
	sym_check_eq((u8 *)&box + 4 + n, (u8 *)&b0 + 4 + n, sizeof box - 4 - n, "nothing after");
	sym_out(box.out, n, "copy");
	sym_reach("end");
}
void numbers() {
	uint64_t k = sym_range("k", 0, 13);
	sym_shard();
	switch (k) {
	case 0: return read_number<uint8_t, std::byte>();
	case 1: return read_number<uint16_t, std::byte>();
	case 2: return read_number<uint32_t, std::byte>();
	case 3: return read_number<uint64_t, std::byte>();
	case 4: return read_number<uint32_t, char>();
	case 5: return read_number<uint64_t, char>();
	case 6: return read_number<uint32_t, u8>();
	case 7: return read_number<uint64_t, u8>();
	case 8: return read_number<uint64_t, char8_t>();
	case 9: return read_number<uint64_t, int8_t>();
	case 10: return read_number<uint32_t, int8_t>();
	case 11: return read_number<uint8_t, char>();
	case 12: return read_number<uint16_t, char>();
	case 13: return read_number<uint8_t, int8_t>();
	}
}
void writes() {
	uint64_t k = sym_range("k", 0, 3);
	sym_shard();
	switch (k) {
	case 0: return write_number<uint8_t>();
	case 1: return write_number<uint16_t>();
	case 2: return write_number<uint32_t>();
	case 3: return write_number<uint64_t>();
	}
}
}
SYM_ENTRY(numbers_read) { numbers(); }
SYM_ENTRY(numbers_write) { writes(); }
SYM_ENTRY(copy_byte) { copy_bytes<std::byte>(); }
SYM_ENTRY(copy_char) { copy_bytes<char>(); }
SYM_ENTRY(copy_int8) { copy_bytes<int8_t>(); }
