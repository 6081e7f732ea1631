// A directory of files that is created and removed by the harness.
#pragma once
#include "common.hpp"
#include <cstdlib>
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
struct Scratch { std::string dir; std::vector<std::string> files, dirs;
  Scratch() { const char* base = getenv("VP_SCRATCH"); std::string t = std::string(base ? base : "/tmp") + "/vp-files-XXXXXX"; t.push_back(0); const char* d = mkdtemp(&t[0]); if (!d) vp_fail("scratch directory"); dir = d; }
  void sub(const std::string& n) { dirs.push_back(dir + "/" + n); if (mkdir(dirs.back().c_str(), 0700)) vp_fail("scratch directory"); }
  void put(const std::string& n, const std::string& s) { files.push_back(dir + "/" + n); int fd = open(files.back().c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600); if (fd < 0 || write(fd, s.data(), s.size()) != (ssize_t)s.size()) vp_fail("scratch file"); close(fd); }
  ~Scratch() { for (auto& f : files) unlink(f.c_str()); while (!dirs.empty()) { rmdir(dirs.back().c_str()); dirs.pop_back(); } rmdir(dir.c_str()); } };
