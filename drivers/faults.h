// Calls that change files, counted, cut short or refused. Only in a child process made for it.
#pragma once
#include <dlfcn.h>
#include <errno.h>
#include <stdio.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
#include <vector>

namespace faults {
enum Mode { off, count, crash, full, once };
inline Mode mode = off;
inline long budget = 0;           // what may still be done: one per call and one per byte
inline bool spent = false;
inline std::vector<long> calls;   // where each call ends, when counting
inline long total = 0;

// How many of `n` bytes may be written; -1: all and more.
inline long allowed(long n) {
    if (mode == count) { total += 1 + n; calls.push_back(total); return -1; }
    if (mode == off || (mode == once && spent)) { return -1; }
    if (budget >= 1 + n) { budget -= 1 + n; return -1; }
    long left = budget > 0 ? budget - 1 : 0;
    budget = 0;
    spent = true;
    return left < 0 ? 0 : left;
}
// For calls that are done entirely or not at all. True: go on.
inline bool step() {
    if (mode == full || mode == once) { return true; }
    long a = allowed(0);
    if (a < 0) { return true; }
    _exit(77);
}
} // namespace faults

extern "C" {
inline ssize_t faults_raw(int fd, const void* b, size_t n) { return syscall(SYS_write, fd, b, n); }

__attribute__((used)) ssize_t write(int fd, const void* b, size_t n) {
    if (faults::mode == faults::off) { return faults_raw(fd, b, n); }
    long a = faults::allowed(long(n));
    if (a < 0) { return faults_raw(fd, b, n); }
    ssize_t w = a > 0 ? faults_raw(fd, b, size_t(a)) : 0;
    if (faults::mode == faults::crash) { _exit(77); }
    if (w > 0) { return w; }
    errno = ENOSPC;
    return -1;
}
__attribute__((used)) ssize_t writev(int fd, const struct iovec* v, int c) {
    if (faults::mode == faults::off) { return syscall(SYS_writev, fd, v, c); }
    ssize_t done = 0;
    for (int i = 0; i < c; ++i) {
        size_t at = 0;
        while (at < v[i].iov_len) {
            ssize_t w = write(fd, static_cast<const char*>(v[i].iov_base) + at, v[i].iov_len - at);
            if (w < 0) { return done > 0 ? done : -1; }
            at += size_t(w);
            done += w;
            if (at < v[i].iov_len) { return done; }
        }
    }
    return done;
}
#define FAULTS_STEP(ret, name, params, args)                                  \
    __attribute__((used)) ret name params {                                   \
        static auto real = reinterpret_cast<ret(*) params>(dlsym(RTLD_NEXT, #name)); \
        if (faults::mode != faults::off) { faults::step(); }                  \
        return real args;                                                     \
    }
FAULTS_STEP(int, rename, (const char* a, const char* b), (a, b))
FAULTS_STEP(int, remove, (const char* a), (a))
FAULTS_STEP(int, unlink, (const char* a), (a))
FAULTS_STEP(int, unlinkat, (int d, const char* a, int f), (d, a, f))
FAULTS_STEP(int, mkdir, (const char* a, mode_t m), (a, m))
FAULTS_STEP(FILE*, fopen, (const char* a, const char* m), (a, m))
FAULTS_STEP(FILE*, fopen64, (const char* a, const char* m), (a, m))
FAULTS_STEP(int, ftruncate, (int fd, off_t n), (fd, n))
}
