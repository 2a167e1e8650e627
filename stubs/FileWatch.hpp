// Stand-in for the third-party watching library: watchers are registered, the harness reports changes, destruction waits
// for callbacks in progress (the real one joins its callback thread).
#pragma once
#include <string>
#include <functional>
#include <mutex>
#include <condition_variable>
#include <stdexcept>
#include <vector>
namespace filewatch {
enum class Event { added, removed, modified, renamed_old, renamed_new };
struct Registry
{
    static bool& fail_next() { static bool b = false; return b; }
    static int& created() { static int n = 0; return n; }
};
template<class T>
class FileWatch
{
public:
    FileWatch(T path, std::function<void(const T&, const Event)> callback) : path_(path), callback_(callback)
    {
        Registry::created()++;
        if (Registry::fail_next()) throw std::runtime_error("cannot watch");
        all().push_back(this);
    }
    ~FileWatch()
    {
        std::unique_lock<std::mutex> l(mutex_);
        alive_ = false;
        auto& v = all();
        for (size_t i = 0; i < v.size(); i++) if (v[i] == this) { v.erase(v.begin() + i); break; }
        cv_.wait(l, [this] { return running_ == 0; });
    }
    FileWatch(const FileWatch&) = delete;
    FileWatch& operator=(const FileWatch&) = delete;
    static std::vector<FileWatch*>& all() { static std::vector<FileWatch*> v; return v; }
    const T& path() const { return path_; }
    // a change is being reported: in two steps, so that the harness can let something happen in between
    bool begin() { std::lock_guard<std::mutex> l(mutex_); if (!alive_) return false; running_++; return true; }
    void deliver(const T& p, Event e) { callback_(p, e); }
    void end() { std::lock_guard<std::mutex> l(mutex_); if (--running_ == 0) cv_.notify_all(); }
private:
    T path_;
    std::function<void(const T&, const Event)> callback_;
    std::mutex mutex_;
    std::condition_variable cv_;
    bool alive_ = true;
    int running_ = 0;
};
}
