// Captures what the process writes to stdout while the object lives.
#pragma once
#include <cstdio>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
struct Capture {
  int saved, fd;
  Capture() {
    static int mem = memfd_create("stdout", MFD_CLOEXEC);
    fd = mem; fflush(stdout); if (ftruncate(fd, 0)) {} lseek(fd, 0, SEEK_SET); saved = dup(1); dup2(fd, 1); setvbuf(stdout, nullptr, _IOFBF, BUFSIZ);   // as if redirected: only a flush shows
  }
  // What was written since construction or the last take().
  std::string take() {
    fflush(stdout); off_t n = lseek(fd, 0, SEEK_END); std::string s((size_t)n, 0); size_t got = 0; while (got < s.size()) { ssize_t r = pread(fd, &s[got], s.size() - got, (off_t)got); if (r <= 0) break; got += (size_t)r; }
    s.resize(got); if (ftruncate(fd, 0)) {} lseek(fd, 0, SEEK_SET); return s;
  }
  ~Capture() { fflush(stdout); setvbuf(stdout, nullptr, _IOLBF, BUFSIZ); dup2(saved, 1); close(saved); }
};
