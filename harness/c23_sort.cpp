// A23 sorting and shortest path benchmarks.  SRCFILE is the program under test.
#include SRCFILE
#include "sym.h"
typedef unsigned u32;
static int *Gi, *Ei, *Oo;
static void give(int i, u32 v) { u32 e = sym_u32("share"); Ei[i] = (int)e; Gi[i] = (int)(e ^ v); }
static u32 in(int i) { return (u32)Gi[i] ^ (u32)Ei[i]; }
extern "C" void sort_main() {
  static const int P[][5] = { {5, 0, 1, 30, 31}, {5, 0, 15, 16, 31}, {5, 7, 8, 23, 24}, {5, 3, 12, 13, 20}, {5, 27, 28, 29, 31}, {5, 0, 2, 3, 5}, {5, 9, 14, 17, 22}, {5, 4, 11, 18, 25},
    {5, 6, 10, 19, 26}, {5, 1, 2, 15, 31}, {5, 0, 7, 16, 30}, {5, 5, 8, 21, 29}, {5, 14, 15, 16, 17} };
  Gi = new int[32]; Ei = new int[32]; Oo = new int[32]; sym_bytes(Oo, 128, "old");
  int k = sym_param("k", 3), back = sym_choose(sym_param("backs", 1), "background"), set = sym_choose(sym_param("sets", 13), "positions");
  sym_shard_point();
  u32 c = sym_u32("background value"); sym_assume((int)c > -1000000 && (int)c < 1000000);
  for (int i = 0; i < 32; i++) {
    int s = 0; for (int j = 1; j <= k && j < 5; j++) s |= P[set][j] == i;
    if (s) give(i, sym_u32("value"));
    else give(i, back == 0 ? c : back == 1 ? c + 3 * (i / 8) : back == 2 ? c - 3 * (i / 8) : c + (i & 1));
  }
  if (sym_param("merge", 0)) sym_merge(1);
  gc_main(Gi, Ei, Oo);
  sym_merge(1);
  u32 t = sym_u32("any value"); int cnt = 0, up = 1;
  for (int i = 0; i < 32; i++) cnt += (in(i) == t) - ((u32)Oo[i] == t);
  for (int i = 0; i + 1 < 32; i++) up &= Oo[i] <= Oo[i + 1];
  sym_merge(0);
  sym_assert(up, "sort: the output is in non-decreasing signed order");
  sym_assert(cnt == 0, "sort: every value occurs in the output as often as in the input");
  sym_cover("done");
}
// one value anywhere in an ascending, descending or alternating sequence
extern "C" void insert_main() {
  Gi = new int[32]; Ei = new int[32]; Oo = new int[32]; sym_bytes(Oo, 128, "old");
  int back = sym_choose(sym_param("inserts", 4), "background"), pos = sym_choose(32, "position");
  sym_shard_point();
  for (int i = 0; i < 32; i++) {
    if (i == pos) give(i, sym_u32("value"));
    else give(i, back == 0 ? 90 - 5 * i : back == 3 ? 5 * i - 70 : back == 2 ? ((i & 1) ? i : 0u - i) : (u32)((i * 37 + 11) % 64 - 32));
  }
  if (sym_param("merge", 0)) sym_merge(1);
  gc_main(Gi, Ei, Oo);
  sym_merge(1);
  u32 t = sym_u32("any value"); int cnt = 0, up = 1;
  for (int i = 0; i < 32; i++) cnt += (in(i) == t) - ((u32)Oo[i] == t);
  for (int i = 0; i + 1 < 32; i++) up &= Oo[i] <= Oo[i + 1];
  sym_merge(0);
  sym_assert(up, "sort: the output is in non-decreasing signed order");
  sym_assert(cnt == 0, "sort: every value occurs in the output as often as in the input");
  sym_cover("done");
}
// shortest paths: symbolic edges over a fixed background
struct Edge { int u, v; };
extern "C" void path_main() {
  static const Edge F[][6] = {
    { {0, 1}, {0, 2}, {1, 3}, {2, 3}, {1, 2}, {3, 4} }, { {0, 7}, {7, 6}, {6, 5}, {0, 5}, {5, 4}, {7, 4} }, { {0, 3}, {3, 0}, {3, 5}, {5, 3}, {0, 5}, {5, 7} }, { {0, 1}, {1, 2}, {2, 3}, {3, 4}, {4, 5}, {5, 6} },
    { {0, 4}, {4, 1}, {1, 6}, {0, 6}, {6, 1}, {0, 1} }, { {2, 1}, {0, 1}, {1, 1}, {7, 1}, {1, 7}, {0, 7} }, { {0, 2}, {2, 4}, {4, 6}, {6, 7}, {0, 7}, {7, 2} }, { {1, 5}, {5, 2}, {2, 6}, {6, 3}, {3, 7}, {0, 1} } };
  static const unsigned char B[][8][8] = {
    { {0} },
    { {0, 9, 0, 30, 0, 0, 0, 0}, {9, 0, 4, 0, 0, 60, 0, 0}, {0, 4, 0, 7, 90, 0, 3, 0}, {30, 0, 7, 0, 5, 0, 0, 11}, {0, 0, 90, 5, 0, 2, 0, 0}, {0, 60, 0, 0, 2, 0, 8, 0}, {0, 0, 3, 0, 0, 8, 0, 6}, {0, 0, 0, 11, 0, 0, 6, 0} },
    { {0, 0, 0, 0, 0, 0, 0, 200}, {0, 0, 0, 0, 0, 0, 0, 0}, {0, 20, 0, 0, 0, 0, 0, 0}, {0, 0, 20, 0, 0, 0, 0, 0}, {0, 0, 0, 20, 0, 0, 0, 0}, {0, 0, 0, 0, 20, 0, 0, 0}, {0, 0, 0, 0, 0, 20, 0, 0}, {0, 0, 0, 0, 0, 0, 20, 0} } };
  Gi = new int[64]; Ei = new int[64]; Oo = new int[8]; sym_bytes(Oo, 32, "old");
  int k = sym_param("k", 4), f = sym_choose(sym_param("families", 8), "family"), b = sym_choose(3, "background");
  sym_shard_point();
  if (b) k = k > 3 ? k - 1 : k;
  u32 W[64];
  for (int i = 0; i < 64; i++) {
    int s = 0; for (int j = 0; j < k; j++) s |= F[f][j].u * 8 + F[f][j].v == i;
    if (s) { W[i] = sym_u32("weight"); sym_assume(W[i] <= 0x7fff0000u); give(i, W[i]); }
    else { W[i] = B[b][i / 8][i % 8]; give(i, W[i]); }
  }
  if (sym_param("merge", 0)) sym_merge(1);
  gc_main(Gi, Ei, Oo);
  sym_merge(1);
  int ok = 1, rng = 1, tri = 1;
  for (int v = 0; v < 8; v++) {
    rng &= Oo[v] >= 0 && Oo[v] <= 32767;
    int pred = v == 0;
    for (int u = 0; u < 8; u++) {
      u32 w = W[8 * u + v]; if (u == v) continue;
      u32 d = (u32)Oo[u] + w;
      if (w != 0 && Oo[u] < 32767) { tri &= (u32)Oo[v] <= d; pred |= d == (u32)Oo[v]; }
    }
    ok &= pred || Oo[v] == 32767;
  }
  sym_merge(0);
  sym_assert(rng && Oo[0] == 0, "dijkstra: distances lie between 0 and 32767 and the source has distance 0");
  sym_assert(tri, "dijkstra: no edge leads to a shorter path");
  sym_assert(ok, "dijkstra: every distance is the length of a path");
  sym_cover("done");
}
