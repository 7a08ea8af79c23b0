#pragma once
#include <immintrin.h>
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <memory>
#include <iostream>
using std::endl;
namespace emp {
using block = __m128i;
struct Group { unsigned char* scratch; void resize_scratch(size_t); };
struct Point { Group* group; size_t size(); void to_bin(unsigned char*, size_t); void from_bin(Group*, const unsigned char*, size_t); };
enum { PUBLIC = 0, ALICE = 1, BOB = 2, XOR = -1 };
void sse_trans(uint8_t* out, uint8_t const* inp, uint64_t nrows, uint64_t ncols);
template <class T> void block_to_bool(T*, block);
}
template <class T> void block_to_bool(T*, __m128i);
void sse_trans(uint8_t* out, uint8_t const* inp, uint64_t nrows, uint64_t ncols);
