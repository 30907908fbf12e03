// A stand-in for a circom 2 circuit over Goldilocks with one input array y and the witness [1, y...]; the number of
// values is patched into the file in place of the marker.
// clang --target=wasm32 -O1 -nostdlib -Wl,--no-entry -Wl,--export-dynamic -o wires.wasm wires.c
typedef unsigned int u32;
#define EXPORT(n) __attribute__((export_name(#n)))
#define MAX 4096
__attribute__((import_module("runtime"), import_name("exceptionHandler"))) void exceptionHandler(u32);
volatile u32 count = 0x5EEDF00D;
static const u32 prime[2] = {0x00000001, 0xFFFFFFFF};
static u32 shared[2], val[MAX][2], left;
EXPORT(getVersion) u32 getVersion(void) { return 2; }
EXPORT(getMinorVersion) u32 getMinorVersion(void) { return 1; }
EXPORT(getFieldNumLen32) u32 getFieldNumLen32(void) { return 2; }
EXPORT(getRawPrime) void getRawPrime(void) { for (int i = 0; i < 2; i++) shared[i] = prime[i]; }
EXPORT(readSharedRWMemory) u32 readSharedRWMemory(u32 i) { return shared[i]; }
EXPORT(writeSharedRWMemory) void writeSharedRWMemory(u32 i, u32 v) { shared[i] = v; }
EXPORT(getInputSize) u32 getInputSize(void) { return count; }
EXPORT(getWitnessSize) u32 getWitnessSize(void) { return count + 1; }
EXPORT(init) void init(u32 s) { left = count; }
EXPORT(getInputSignalSize) u32 getInputSignalSize(u32 hi, u32 lo) { return hi == 0xaf63f44c && lo == 0x86021554 ? count : 0; }
EXPORT(setInputSignal) void setInputSignal(u32 hi, u32 lo, u32 pos) {
  if (!left || pos >= count) { exceptionHandler(6); return; }
  for (int j = 0; j < 2; j++) val[pos][j] = shared[j];
  left--;
}
EXPORT(getWitness) void getWitness(u32 i) {
  for (int j = 0; j < 2; j++) shared[j] = i == 0 ? j == 0 : val[i - 1][j];
}
