// A stand-in for a circom 2 circuit: inputs a_s0_siblings[3] (x) and y, witness [1, y, x0, x1, x2], an assertion that
// fails when x0 = 77. It keeps the words it is given, whatever they are.
// clang --target=wasm32 -O2 -nostdlib -DN32=8 -DPRIME=... -Wl,--no-entry -Wl,--export-dynamic -o echo_bn.wasm echo.c
typedef unsigned int u32;
#define EXPORT(n) __attribute__((export_name(#n)))
__attribute__((import_module("runtime"), import_name("exceptionHandler"))) void exceptionHandler(u32);
static const u32 prime[N32] = {PRIME};
static u32 shared[N32], val[4][N32], set[4], left, ran, bad;
static u32 fnv_hi(int y), fnv_lo(int y);
EXPORT(getVersion) u32 getVersion(void) { return 2; }
EXPORT(getMinorVersion) u32 getMinorVersion(void) { return 1; }
EXPORT(getFieldNumLen32) u32 getFieldNumLen32(void) { return N32; }
EXPORT(getRawPrime) void getRawPrime(void) { for (int i = 0; i < N32; i++) shared[i] = prime[i]; }
EXPORT(readSharedRWMemory) u32 readSharedRWMemory(u32 i) { return shared[i]; }
EXPORT(writeSharedRWMemory) void writeSharedRWMemory(u32 i, u32 v) { shared[i] = v; }
EXPORT(getInputSize) u32 getInputSize(void) { return 4; }
EXPORT(getWitnessSize) u32 getWitnessSize(void) { return 5; }
EXPORT(init) void init(u32 s) {
  left = 4; ran = 0;
  for (int i = 0; i < 4; i++) { set[i] = 0; for (int j = 0; j < N32; j++) val[i][j] = 0; }
}
static int which(u32 hi, u32 lo) {
  unsigned long long h = (unsigned long long)hi << 32 | lo;
  if (h == 0x768b6157641fa55cULL) return 0; // a_s0_siblings
  if (h == 0xaf63f44c86021554ULL) return 1; // y
  return -1;
}
EXPORT(getInputSignalSize) u32 getInputSignalSize(u32 hi, u32 lo) { int w = which(hi, lo); return w < 0 ? 0 : w ? 1 : 3; }
EXPORT(setInputSignal) void setInputSignal(u32 hi, u32 lo, u32 pos) {
  int w = which(hi, lo);
  if (!left) { exceptionHandler(2); return; }
  if (w < 0) { exceptionHandler(1); return; }
  if (pos >= (w ? 1u : 3u)) { exceptionHandler(6); return; }
  u32 k = w ? 3 : pos;
  if (set[k]) { exceptionHandler(3); return; }
  set[k] = 1;
  for (int j = 0; j < N32; j++) val[k][j] = shared[j];
  if (--left == 0) {
    ran = 1;
    int is77 = val[0][0] == 77;
    for (int j = 1; j < N32; j++) is77 &= val[0][j] == 0;
    if (is77) exceptionHandler(4);
  }
}
EXPORT(getWitness) void getWitness(u32 i) {
  for (int j = 0; j < N32; j++) shared[j] = i == 0 ? j == 0 : !ran ? 0 : i == 1 ? val[3][j] : val[i - 2][j];
}
