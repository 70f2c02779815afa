// Runtime settings of the race-detector builds. GTSAM hands work to TBB worker threads, whose hand-over is synchronised
// inside a library that is not instrumented; the callers' own threads do all the work instead, so that every report is
// about the threads of the node under test.
#include <tbb/global_control.h>
static tbb::global_control one_worker(tbb::global_control::max_allowed_parallelism, 1);

// Noise: now and then the thread that has just released a mutex is held up, so that others get in between (a missing
// lock shows only while somebody else is in the middle of its business). Linked with --wrap=pthread_mutex_unlock.
#include <pthread.h>
#include <time.h>
#include <atomic>
#include <cstdint>
extern "C" int __real_pthread_mutex_unlock(pthread_mutex_t*);
extern "C" int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
    static std::atomic<std::uint64_t> threads{1};
    thread_local std::uint64_t s = threads.fetch_add(1, std::memory_order_relaxed) * 0x9e3779b97f4a7c15ull;
    const int r = __real_pthread_mutex_unlock(m);
    s ^= s << 13;
    s ^= s >> 7;
    s ^= s << 17;
    if ((s >> 32) % 64 == 0) {
        timespec t{0, static_cast<long>((s >> 40) % 400000)};
        nanosleep(&t, nullptr);
    }
    return r;
}

// Insertion into and removal from std::map and std::set relink nodes inside libstdc++, which is not instrumented: the
// pointers written there are announced here, so that a concurrent search of the tree is seen to read them.
#include <bits/stl_tree.h>
#define RB_INSERT _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_
#define RB_ERASE _ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_
#define JOIN_(a, b) a##b
#define JOIN(a, b) JOIN_(a, b)
typedef std::_Rb_tree_node_base Node;
extern "C" void __tsan_write8(void*);
extern "C" void JOIN(__real_, RB_INSERT)(bool, Node*, Node*, Node&);
extern "C" Node* JOIN(__real_, RB_ERASE)(Node*, Node&);
extern "C" __attribute__((no_sanitize("thread"))) void JOIN(__wrap_, RB_INSERT)(bool left, Node* x, Node* p, Node& header) {
    __tsan_write8(left ? &p->_M_left : &p->_M_right);
    JOIN(__real_, RB_INSERT)(left, x, p, header);
}
extern "C" __attribute__((no_sanitize("thread"))) Node* JOIN(__wrap_, RB_ERASE)(Node* z, Node& header) {
    Node* p = z->_M_parent;
    if (p == &header) __tsan_write8(&p->_M_parent);
    else __tsan_write8(p->_M_left == z ? &p->_M_left : &p->_M_right);
    return JOIN(__real_, RB_ERASE)(z, header);
}
