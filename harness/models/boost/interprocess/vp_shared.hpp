// Model of named shared memory: the objects of all modelled processes, by name.
#pragma once
#include <boost/interprocess/creation_tags.hpp>
#include <boost/interprocess/detail/os_file_functions.hpp>
#include <boost/interprocess/exceptions.hpp>
#include <boost/interprocess/interprocess_fwd.hpp>
#include <condition_variable>
#include <cstdlib>
#include <deque>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <vector>
#include "vp.h"
namespace vpShared {
struct Message { std::vector<char> bytes; unsigned priority; };
// what a name stands for: raw memory, a managed segment with named objects, or a message queue
struct Object { unsigned char* raw = nullptr; size_t size = 0; std::map<std::string, std::pair<void*, size_t>> named; bool queue = false; size_t maxMessages = 0, maxSize = 0; std::deque<Message> messages; std::mutex lock; std::condition_variable changed;
  ~Object() { std::free(raw); for (auto& n : named) std::free(n.second.first); } };
using Ref = std::shared_ptr<Object>;
struct World { std::mutex lock; std::map<std::string, Ref> names; bool capture = false; std::deque<Message> captured; long long lastWait = -1; };
inline World& world() { static World w; return w; }
inline bool exists(const std::string& n) { std::lock_guard<std::mutex> l(world().lock); return world().names.count(n) != 0; }
inline bool removeName(const char* n) { std::lock_guard<std::mutex> l(world().lock); return world().names.erase(n) != 0; }
[[noreturn]] inline void refuse(boost::interprocess::error_code_t e) { throw boost::interprocess::interprocess_exception(boost::interprocess::error_info(e)); }
enum class How { Create, OpenOrCreate, Open };
inline Ref obtain(How how, const char* name, bool* created = nullptr) { std::lock_guard<std::mutex> l(world().lock); auto& names = world().names; auto f = names.find(name);
  if (how == How::Create && f != names.end()) refuse(boost::interprocess::already_exists_error); if (how == How::Open && f == names.end()) refuse(boost::interprocess::not_found_error);
  if (created) *created = f == names.end(); if (f != names.end()) return f->second; Ref r = std::make_shared<Object>(); names[name] = r; return r; }
}
