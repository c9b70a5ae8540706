// Linked into each build of the system under test and inlined at every coverage point:
// one simulated step, and the edge map.
typedef unsigned int u32; typedef long long i64;
extern "C" {
extern unsigned char *sim_edge_map;
extern long sim_fuel;
void sim_out_of_fuel(void);
inline __attribute__((always_inline, used)) void __sanitizer_cov_trace_pc_guard(u32 *guard) {
  sim_edge_map[*guard] = 1;
  if (__builtin_expect(--sim_fuel <= 0, 0)) sim_out_of_fuel();
}
}
