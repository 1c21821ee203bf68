// Contract stubs for the standard containers used by h264nal.
// Only declarations matter: every __vp_* function is an operation whose
// contract is built into the verifier (see DESIGN.md, "assumed contracts on
// dependencies").  Nothing here is ever executed.
#pragma once
#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <new>
#include <type_traits>
#include <utility>
#define VPI inline __attribute__((always_inline))
extern "C" {
size_t __vp_vec_size(const void* v) noexcept;
void* __vp_vec_at(const void* v, size_t i, size_t esz) noexcept;    // obliges i < size
void* __vp_vec_data(const void* v, size_t esz) noexcept;            // pointer to element 0
void* __vp_vec_push(void* v, size_t esz) noexcept;                  // size+1, uninitialised slot
void __vp_vec_pop(void* v) noexcept;                                // obliges size > 0
void __vp_vec_init(void* v) noexcept;                               // empty
void __vp_vec_fill(void* v, size_t n, const void* val, size_t esz) noexcept;  // resize to n, new elements = *val (val==0: zero)
void __vp_vec_copy(void* dst, const void* src, size_t esz) noexcept;
void __vp_vec_move(void* dst, void* src, size_t esz) noexcept;
void __vp_vec_append(void* v, const void* first, size_t n, size_t esz) noexcept;
void __vp_vec_erase_tail(void* v, size_t newsize) noexcept;
void* __vp_map_find(const void* m, uint64_t key) noexcept;          // null when absent
void* __vp_map_slot(void* m, uint64_t key) noexcept;                // insert-or-find
void __vp_map_init(void* m) noexcept;
void __vp_map_erase(void* m, uint64_t key) noexcept;
size_t __vp_map_count(const void* m, uint64_t key) noexcept;
void* __vp_new(size_t sz, const char* type) noexcept;
void __vp_delete(void* p) noexcept;
void __vp_unsupported(const char* what) noexcept;
}
namespace std {
template <class T> VPI const char* __vp_tname() { return __PRETTY_FUNCTION__; }
}
