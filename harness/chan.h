// In-memory connection between the two parties: fd 1000 (garbler) and 1001
// (evaluator).  Blocking reads yield to the other party.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include "sym.h"
#ifdef VT_NATIVE
#include <sys/syscall.h>
#include <unistd.h>
#endif
#ifndef PIPE_CAP
#define PIPE_CAP 4096
#endif
static const size_t kCap = PIPE_CAP;
struct Pipe { unsigned char* b; size_t head, tail; bool closed; };
static Pipe gPipe[2];   // [0]: bytes from 1000 to 1001, [1]: back
static void (*gOnWrite)(int fd, const void* p, size_t n) = nullptr;   // sees every message
static size_t gMaxRead = 0;  // >0: at most this many bytes per read (short reads)
static void chanInit() { for (int i = 0; i < 2; i++) { gPipe[i].b = new unsigned char[kCap]; gPipe[i].head = gPipe[i].tail = 0; gPipe[i].closed = false; } }
static void chanClose(int fd) { gPipe[fd - 1000].closed = true; sym_notify(); }
extern "C" void* memcpy(void*, const void*, size_t) noexcept;
extern "C" ssize_t write(int fd, const void* p, size_t n) {
#ifdef VT_NATIVE
  if (fd < 1000 || fd > 1001) return syscall(SYS_write, fd, p, n);
#endif
  Pipe& q = gPipe[fd - 1000];
  if (gPipe[1001 - fd].closed && q.closed) return -1;
  n = sym_concretize(n);
  if (gOnWrite) gOnWrite(fd, p, n);
  if (q.tail + n > kCap) sym_inconclusive("channel model full");
  memcpy(q.b + q.tail, p, n); q.tail += n; sym_tag(fd == 1000 ? "tail0" : "tail1", q.tail);
  sym_notify();
  return (ssize_t)n;
}
extern "C" ssize_t read(int fd, void* p, size_t n) {
#ifdef VT_NATIVE
  if (fd < 1000 || fd > 1001) return syscall(SYS_read, fd, p, n);
#endif
  Pipe& q = gPipe[1001 - fd];
  while (q.head == q.tail) { if (q.closed) return 0; sym_block(); }
  n = sym_concretize(n);
  size_t a = q.tail - q.head; if (n > a) n = a;
  if (gMaxRead && n > gMaxRead) n = gMaxRead;
  memcpy(p, q.b + q.head, n); q.head += n; sym_tag(fd == 1000 ? "head1" : "head0", q.head);
  return (ssize_t)n;
}
