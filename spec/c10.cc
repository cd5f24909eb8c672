// C10: output files appear under their name only when finished; one process per directory
#include "smash/file.h"
#include "smash/filelock.h"
#include <fcntl.h>
#include <unistd.h>
namespace spec {
using namespace smash;

struct Renaming {
  FILE *file_;
  std::filesystem::path filename_, filename_unfinished_;
  int uncaught_exceptions_;
};
//@ C10 smash::RenamingFilePtr::RenamingFilePtr
Renaming opened(const std::filesystem::path &name, const std::string &mode) {
  Renaming r;
  r.uncaught_exceptions_ = std::uncaught_exceptions();
  r.filename_ = name;
  r.filename_unfinished_ = name;
  r.filename_unfinished_ += ".unfinished";
  r.file_ = std::fopen(r.filename_unfinished_.c_str(), mode.c_str());
  return r;
}
//@ C10 smash::RenamingFilePtr::get
FILE *get(RenamingFilePtr &self) { return self.file_; }
//@ C10 smash::RenamingFilePtr::~RenamingFilePtr
void closed(RenamingFilePtr &self) {
  std::fclose(self.file_);
  if (std::uncaught_exceptions() != self.uncaught_exceptions_) return;
  std::filesystem::rename(self.filename_unfinished_, self.filename_);
}
//@ C10 smash::fopen
FilePtr open_file(const std::filesystem::path &name, const std::string &mode) {
  return FilePtr{std::fopen(name.c_str(), mode.c_str())};
}
struct Lock {
  std::filesystem::path path_;
  bool acquired_;
};
//@ C10 smash::FileLock::FileLock
Lock lock(const std::filesystem::path &path) { return Lock{path, false}; }
//@ C10 smash::FileLock::acquire
bool acquire(FileLock &self) {
  if (self.acquired_) throw std::runtime_error("twice");
  const int f = open(self.path_.native().c_str(), O_CREAT | O_EXCL, S_IRUSR | S_IWUSR);
  if (f < 0) return false;
  self.acquired_ = true;
  if (close(f) != 0) throw std::runtime_error("close");
  return true;
}
//@ C10 smash::FileLock::~FileLock
void release(FileLock &self) {
  if (self.acquired_) std::filesystem::remove(self.path_);
}
}  // namespace spec
