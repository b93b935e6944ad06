// Shared by the pool harnesses: a stand-in for the operating system's mapping
// calls, a record of every mapping, and of every block handed out.
#pragma once
#include "symh.h"
#include <sys/mman.h>
#include <cstddef>
#include <cstdint>
#include <memory>
#include <new>
#include <stdexcept>
#include <unordered_map>
#include <utility>
#include <vector>
constexpr uint64_t TOP = 1ull << 47;  // user addresses end here
constexpr uint64_t FLO = 0x200000000000, FHI = 0x500000000000;  // where symbolic mappings lie
constexpr uint64_t HP = 2ull << 20;
struct Map { uint64_t base, len; bool live, huge; };
static Map g_map[24];
static size_t g_nmap;
static size_t g_refused;      // mappings refused so far
static uint64_t g_may_refuse; // how many more may be refused at will
static bool g_huge_ok;        // huge pages available
static bool g_fict;           // mappings at symbolic addresses
static bool g_wide;           // every block has 16 bytes or more
static uint64_t page_up(uint64_t x, bool huge) { uint64_t p = huge ? HP : 4096; return (x + p - 1) & ~(p - 1); }
static void* pool_mmap(void*, size_t len, int prot, int flags, int fd, off_t) {
  CHECK_MSG((prot & (PROT_READ | PROT_WRITE)) == (PROT_READ | PROT_WRITE) && (flags & MAP_ANONYMOUS) && fd == -1, "mapping is not usable anonymous memory");
  bool huge = flags & MAP_HUGETLB;
  bool no = (huge && !g_huge_ok) || len == 0 || len > (g_fict ? (FHI - FLO) / 2 : TOP / 2);
  if (!no && g_may_refuse && symh::choice(2)) { g_may_refuse--; no = true; }
  if (no || g_nmap >= 24) { g_refused++; return MAP_FAILED; }
  uint64_t full = page_up(len, huge), b;
  if (g_fict) {
    b = huge ? symh_sym(27) << 21 : symh_sym(36) << 12;
    // (bases are page aligned, so regions that do not overlap share no page)
    bool ok = (b >= FLO) & (b < FHI) & (b + len <= FHI);
    for (size_t i = 0; i < g_nmap; i++) ok &= (b + len <= g_map[i].base) | (g_map[i].base + g_map[i].len <= b);
    symh::assume(ok);
  } else {
    b = (uint64_t)symh_region(symh_concrete(full), huge ? HP : 4096);
  }
  g_map[g_nmap++] = Map{b, len, true, huge};
  return (void*)b;
}
static int pool_munmap(void* p, size_t len) {
  size_t hit = 24;
  for (size_t i = 0; i < g_nmap; i++) if (g_map[i].base == (uint64_t)p) hit = i;
  CHECK_MSG(hit < 24, "unmaps an address that was never mapped");
  if (hit >= 24) return -1;
  CHECK_MSG(g_map[hit].live, "unmaps a region twice");
  CHECK_MSG(!g_map[hit].huge || len % HP == 0, "unmapping huge pages by a length that is no multiple of them fails");
  CHECK_MSG(len == g_map[hit].len || page_up(len, g_map[hit].huge) == page_up(g_map[hit].len, g_map[hit].huge), "unmaps with a different length than mapped");
  g_map[hit].live = false;
  if (!g_fict) symh_region_free(p);
  return 0;
}
static int pool_madvise(void*, size_t, int) { return symh_param("madvfail", 0) ? -1 : 0; }
static void all_unmapped() { for (size_t i = 0; i < g_nmap; i++) CHECK_MSG(!g_map[i].live, "a mapped region is never unmapped"); }
#define mmap pool_mmap
#define munmap pool_munmap
#define madvise pool_madvise

struct __attribute__((packed, aligned(1))) Word { uint64_t v; };
struct Block { uint64_t p, bytes, al, tag, tag2; bool live, marked; };
static Block g_blk[64];
static size_t g_nblk;
// p lies within mapped memory and apart from every live block
static void block_ok(uint64_t p, uint64_t bytes, uint64_t al) {
  bool in = false, apart = true;
  for (size_t i = 0; i < g_nmap; i++) {
    if (!g_map[i].live) continue;
    in |= (g_map[i].base <= p) & (bytes <= g_map[i].len) & (p - g_map[i].base <= g_map[i].len - bytes);
  }
  CHECK_MSG(in, "block reaches outside mapped memory");
  for (size_t i = 0; i < g_nblk; i++)
    if (g_blk[i].live) apart &= (p + bytes <= g_blk[i].p) | (g_blk[i].p + g_blk[i].bytes <= p);
  CHECK_MSG(apart, "block overlaps a block in use");
  CHECK_MSG((p & (al - 1)) == 0, "block is not aligned as requested");
}
static size_t block_add(uint64_t p, uint64_t bytes, uint64_t al) {
  for (size_t i = 0; i < g_nblk; i++) if (!g_blk[i].live) { g_blk[i] = Block{p, bytes, al, 0, 0, true, false}; return i; }
  g_blk[g_nblk] = Block{p, bytes, al, 0, 0, true, false};
  return g_nblk++;
}
// the owner fills the ends of its block with data of its own
static void block_fill(size_t i) {
  Block& b = g_blk[i];
  b.tag = symh_sym(64);
  b.tag2 = symh_sym(64);
  b.marked = true;
  if (!g_fict) { b.p = symh_concrete(b.p); b.bytes = symh_concrete(b.bytes); }
  *(volatile uint64_t*)b.p = b.tag;
  if (g_fict) { if (g_wide) ((Word*)(b.p + b.bytes - 8))->v = b.tag2; return; }
  uint64_t t = b.tag2;
  if (b.bytes >= 16) std::memcpy((void*)(b.p + b.bytes - 8), &t, 8);
  else if (b.bytes > 8) std::memcpy((void*)(b.p + 8), &t, b.bytes - 8);
}
static void blocks_intact() {
  for (size_t i = 0; i < g_nblk; i++) {
    Block& b = g_blk[i];
    if (!b.live || !b.marked) continue;
    CHECK_MSG(*(volatile uint64_t*)b.p == b.tag, "a block in use was changed");
    uint64_t t = b.tag2, u = t;
    if (g_fict) { if (g_wide) u = ((Word*)(b.p + b.bytes - 8))->v; }
    else if (b.bytes >= 16) std::memcpy(&u, (void*)(b.p + b.bytes - 8), 8);
    else if (b.bytes > 8) std::memcpy(&u, (void*)(b.p + 8), b.bytes - 8);
    CHECK_MSG(u == t, "a block in use was changed");
  }
}
