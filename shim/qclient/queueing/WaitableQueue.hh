#ifndef QCLIENT_SHIM_WQ_HH
#define QCLIENT_SHIM_WQ_HH
#include <condition_variable>
#include <list>
#include <mutex>
namespace qclient {
struct Drained {};                 // thrown instead of blocking while gPump is set
inline bool gPump = false;
// Unbounded FIFO with stable element addresses and a blocking frontier iterator.
template<typename T, size_t BlockSize> class WaitableQueue {
  struct Node { T item; int64_t seq; template<class... A> Node(int64_t s, A&&... a) : item(std::forward<A>(a)...), seq(s) {} };
public:
  class Iterator {
  public:
    Iterator(WaitableQueue *q_, int64_t s) : q(q_), seq(s) {}
    T* getItemBlockOrNull() {
      std::unique_lock<std::mutex> l(q->mtx);
      while(true) {
        for(auto &n : q->items) if(n.seq == seq) return &n.item;
        if(!q->blocking) return nullptr;
        if(gPump) throw Drained();
        q->cv.wait(l);
      }
    }
    void next() { seq++; }
    int64_t seqOf() const { return seq; }
  private:
    WaitableQueue *q; int64_t seq;
  };
  template<class... A> int64_t emplace_back(A&&... a) {
    std::lock_guard<std::mutex> l(mtx); items.emplace_back(nextSeq, std::forward<A>(a)...); cv.notify_all(); return nextSeq++;
  }
  void pop_front() { std::lock_guard<std::mutex> l(mtx); items.pop_front(); }
  size_t size() { std::lock_guard<std::mutex> l(mtx); return items.size(); }
  void setBlockingMode(bool b) { std::lock_guard<std::mutex> l(mtx); blocking = b; cv.notify_all(); }
  Iterator begin() { std::lock_guard<std::mutex> l(mtx); return Iterator(this, items.empty() ? nextSeq : items.front().seq); }
private:
  std::mutex mtx; std::condition_variable cv; std::list<Node> items; int64_t nextSeq = 0; bool blocking = true;
};
}
#endif
