// Small bit writer for the demonstrations.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <vector>

struct W {
  std::vector<uint8_t> d;
  int n = 0;
  W& u(int bits, uint64_t v) {
    for (int i = bits - 1; i >= 0; i--) {
      if (n % 8 == 0) d.push_back(0);
      if ((v >> i) & 1) d.back() |= 0x80 >> (n % 8);
      n++;
    }
    return *this;
  }
  W& ue(uint64_t v) {
    v += 1;
    int len = 0;
    while (v >> (len + 1)) len++;
    u(len, 0);
    return u(len + 1, v);
  }
  W& se(int64_t v) { return ue(v > 0 ? 2 * v - 1 : -2 * v); }
  W& trail() {
    u(1, 1);
    while (n % 8) u(1, 0);
    return *this;
  }
};

// sps_data up to and including the cropping flag
static inline void sps_body(W& w, int id = 0, int poc = 2, int log2fn = 0,
                            int frame_mbs_only = 1, int width = 10,
                            int height = 8) {
  w.u(8, 66).u(8, 0).u(8, 30).ue(id);
  w.ue(log2fn).ue(poc);
  if (poc == 0) w.ue(0);
  w.ue(1).u(1, 0).ue(width).ue(height).u(1, frame_mbs_only);
  if (!frame_mbs_only) w.u(1, 0);
  w.u(1, 1).u(1, 0);
}
static inline void sps(W& w, int id = 0, int poc = 2, int log2fn = 0) {
  sps_body(w, id, poc, log2fn);
  w.u(1, 0).trail();
}
struct PpsOpt {
  int id = 0, sps_id = 0, cabac = 0, l0 = 0, l1 = 0, wp = 0, bipred = 0,
      qp = 0, deblock = 0, redundant = 0;
};
static inline void pps(W& w, PpsOpt o = PpsOpt()) {
  w.ue(o.id).ue(o.sps_id).u(1, o.cabac).u(1, 0).ue(0);
  w.ue(o.l0).ue(o.l1).u(1, o.wp).u(2, o.bipred).se(o.qp).se(0).se(0);
  w.u(1, o.deblock).u(1, 0).u(1, o.redundant).trail();
}
// append a NAL unit (emulation prevention applied) to an Annex B stream
static inline std::vector<uint8_t> escape(const std::vector<uint8_t>& in) {
  std::vector<uint8_t> out;
  int z = 0;
  for (uint8_t b : in) {
    if (z >= 2 && b <= 3) {
      out.push_back(3);
      z = 0;
    }
    out.push_back(b);
    z = b == 0 ? z + 1 : 0;
  }
  return out;
}
static inline void annexb(std::vector<uint8_t>& s, const W& w, int sc = 4) {
  if (sc == 4) s.push_back(0);
  s.push_back(0);
  s.push_back(0);
  s.push_back(1);
  for (uint8_t b : escape(w.d)) s.push_back(b);
}
#define CHECK(c)                                              \
  do {                                                        \
    if (!(c)) {                                               \
      fprintf(stderr, "demo: line %d: %s\n", __LINE__, #c);   \
      exit(1);                                                \
    }                                                         \
  } while (0)
