#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <string>
#include <vector>
using namespace h265nal;
// bit stream composer used by the demonstrations
struct W {
  std::vector<uint8_t> b; size_t n = 0;
  W& u(uint64_t v, int w) { for (int i = w - 1; i >= 0; i--) bit((v >> i) & 1); return *this; }
  W& bit(int x) { if (n % 8 == 0) b.push_back(0); if (x) b[n / 8] |= 1 << (7 - n % 8); n++; return *this; }
  W& ue(uint64_t v) { uint64_t x = v + 1; int l = 0; while ((x >> l) > 1) l++; u(0, l); return u(x, l + 1); }
  W& se(int64_t v) { return ue(v > 0 ? 2 * v - 1 : -2 * v); }
  W& trail() { bit(1); while (n % 8) bit(0); return *this; }
  W& align() { while (n % 8) bit(0); return *this; }
};
static int fails = 0;
#define EXPECT(c) do { if (!(c)) { fails++; fprintf(stderr, "FAILED: %s (line %d)\n", #c, __LINE__); } } while (0)
