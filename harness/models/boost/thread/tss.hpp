// Model of boost::thread_specific_ptr: one value for each thread, deleted with the pointer at the latest.
#pragma once
#include <map>
#include <mutex>
#include <thread>
namespace boost { template <class T> class thread_specific_ptr { mutable std::mutex lock; std::map<std::thread::id, T*> values; public: thread_specific_ptr() = default; thread_specific_ptr(const thread_specific_ptr&) = delete; ~thread_specific_ptr() { for (auto& v : values) delete v.second; }
  T* get() const { std::lock_guard<std::mutex> l(lock); auto f = values.find(std::this_thread::get_id()); return f == values.end() ? nullptr : f->second; }
  void reset(T* v = nullptr) { T* old; { std::lock_guard<std::mutex> l(lock); T*& s = values[std::this_thread::get_id()]; old = s; s = v; } if (old != v) delete old; } T* operator->() const { return get(); } T& operator*() const { return *get(); } }; }
