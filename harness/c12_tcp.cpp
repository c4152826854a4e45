// SendData / RecvData against an operating system that splits transfers at will.
#include "sym.h"
#include "tcpip/tcpip.h"
#include "util/common.h"
#include <sys/types.h>
#ifdef VT_NATIVE
#include <sys/syscall.h>
#include <unistd.h>
#endif
static const int kMax = 8;
static unsigned char gWire[64], gGot[64]; static size_t gN, gCalls, gBad; static bool gFailed; static int gFd = 1000;
extern "C" void* memcpy(void*, const void*, size_t) noexcept;
static ssize_t step(size_t n) {
  gCalls++;
  sym_assert(!gFailed, "no transfer is attempted after one failed");
  sym_assert(n > 0 && n <= (size_t)kMax, "each transfer asks for what is left, and never for nothing");
  n = sym_concretize(n);
  uint32_t k = sym_choose(n + 2, "os");      // 0: error, 1: closed, else k-1 bytes
  if (k == 0) { gFailed = true; return -1; }
  if (k == 1) { gFailed = true; return 0; }
  return (ssize_t)(k - 1);
}
extern "C" ssize_t write(int fd, const void* p, size_t n) {
#ifdef VT_NATIVE
  if (fd != gFd) return syscall(SYS_write, fd, p, n);
#endif
  sym_assert(fd == gFd, "the connection asked for is used");
  ssize_t r = step(n);
  unsigned char t[64]; memcpy(t, p, n);           // the whole range must be readable
  if (r > 0) { memcpy(gWire + gN, p, r); gN += r; }
  return r;
}
extern "C" ssize_t read(int fd, void* p, size_t n) {
#ifdef VT_NATIVE
  if (fd != gFd) return syscall(SYS_read, fd, p, n);
#endif
  sym_assert(fd == gFd, "the connection asked for is used");
  ssize_t r = step(n);
  unsigned char old[64]; memcpy(old, p, n); memcpy(p, old, n);   // the whole range must be writable
  if (r > 0) { memcpy(p, gWire + gN, r); gN += r; }
  return r;
}
static int length() { int n = sym_param("n", 5); int k = sym_choose(n + 3, "len"); return k <= n ? k : k == n + 1 ? -1 : -2147483647 - 1; }
extern "C" void send_main() {
  int len = length(); size_t n = len > 0 ? len : 0;
  unsigned char* b = new unsigned char[n + 1]; unsigned char* c = new unsigned char[n + 1];
  unsigned char* p = n ? (delete[] b, b = new unsigned char[n]) : b;   // exactly the caller's buffer
  sym_bytes(p, n ? n : 1, "data"); memcpy(c, p, n);
  int rc = SendData(gFd, p, len);
  if (len <= 0) { sym_assert(rc == SUCCESS && gCalls == 0, "a request for zero or fewer bytes succeeds without a transfer"); sym_cover("empty"); return; }
  sym_assert(rc == SUCCESS || rc == FAILURE, "either success or failure is reported");
  sym_assert((rc == SUCCESS) == !gFailed, "failure is reported exactly when a transfer failed");
  if (rc == SUCCESS) sym_assert(gN == n, "all bytes went through");
  for (size_t i = 0; i < gN && i < n; i++) sym_assert(gWire[i] == c[i], "every byte once and in order");
  sym_assert(gN <= n, "no byte twice");
  for (size_t i = 0; i < n; i++) sym_assert(p[i] == c[i], "the caller's data is not changed");
  sym_cover(rc == SUCCESS ? "all sent" : "failed"); sym_cover_if(gCalls > 1, "split");
}
extern "C" void recv_main() {
  int len = length(); size_t n = len > 0 ? len : 0;
  unsigned char* p = new unsigned char[n ? n : 1]; unsigned char old[kMax + 1]; for (size_t i = 0; i < (n ? n : 1); i++) old[i] = p[i] = (unsigned char)(0xa0 + i);
  sym_bytes(gWire, kMax, "data");
  int rc = RecvData(gFd, p, len);
  if (len <= 0) { sym_assert(rc == SUCCESS && gCalls == 0, "a request for zero or fewer bytes succeeds without a transfer"); sym_assert(p[0] == old[0], "nothing is written"); sym_cover("empty"); return; }
  sym_assert((rc == SUCCESS) == !gFailed, "failure is reported exactly when a transfer failed");
  if (rc == SUCCESS) { sym_assert(gN == n, "all bytes went through"); }
  for (size_t i = 0; i < n; i++) sym_assert(p[i] == (i < gN ? gWire[i] : old[i]), "every byte once and in order");
  sym_cover(rc == SUCCESS ? "all sent" : "failed"); sym_cover_if(gCalls > 1, "split");
}
