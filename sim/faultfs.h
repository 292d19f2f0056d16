// The file-system seam: fopen/write/writev/read/fclose as the C++ library calls them, for files under one directory.
#pragma once
#include <string>
#include <cstdint>
namespace sim {
struct FaultFs {
  enum Kind { kNone, kOpen, kFull, kWriteError, kShort, kIntr, kClose, kReadError, kEof };
  std::string prefix;          // only files below it are affected
  Kind kind = kNone;
  long at = 0;                 // byte offset (kFull, kReadError, kEof, kWriteError) or chunk size (kShort)
  int err = 0;                 // errno to report
  bool fired = false;
  long moved = 0;              // bytes that passed since the file was opened
  long calls = 0;
  void arm(Kind k, long a, int e) { kind = k; at = a; err = e; fired = false; moved = 0; calls = 0; }
  void clear() { kind = kNone; fired = false; }
};
extern FaultFs g_fs;
}
