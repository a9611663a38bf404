// Threads, mutexes and condition variables over the scheduler of the symbolic
// executor (or, in a replay, that of rt/native.cc). Compiled into both.
#include <cerrno>
#include <condition_variable>
#include <cstring>
#include <mutex>
#include <system_error>
#include <thread>

#include <pthread.h>
#include <sched.h>

#include "../harness/mlse.h"

// In a native build the C functions get another name (see build.py).
#ifdef MLSE_NATIVE
#define WEAK
#else
#define WEAK __attribute__((weak))
#endif

extern "C" {
// Mutexes: __lock is 1 while held, __owner the holder.
WEAK int pthread_mutex_lock(pthread_mutex_t *m) noexcept
{
    auto *l = reinterpret_cast<uint32_t *>(&m->__data.__lock);
    mlse_yield();
    mlse_assert(!(*l == 1 && m->__data.__owner == mlse_self() + 1), "a thread locks a mutex it already holds");
    for (;;) {
        mlse_await(l, 0);
        if (*l == 0)
            break;
    }
    *l = 1;
    m->__data.__owner = mlse_self() + 1;
    return 0;
}
WEAK int pthread_mutex_unlock(pthread_mutex_t *m) noexcept
{
    mlse_assert(m->__data.__lock == 1 && m->__data.__owner == mlse_self() + 1, "a mutex is unlocked by a thread that does not hold it");
    m->__data.__owner = 0;
    m->__data.__lock = 0;
    return 0;
}
WEAK int pthread_mutex_trylock(pthread_mutex_t *m) noexcept
{
    if (m->__data.__lock)
        return EBUSY;
    m->__data.__lock = 1;
    m->__data.__owner = mlse_self() + 1;
    return 0;
}
#ifndef MLSE_NATIVE
WEAK int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) noexcept
{
    memset(m, 0, sizeof *m);
    return 0;
}
WEAK int pthread_mutex_destroy(pthread_mutex_t *) noexcept { return 0; }
WEAK int pthread_cond_destroy(pthread_cond_t *) noexcept { return 0; }
// 0 not run yet, 1 being run, 2 done.
WEAK int pthread_once(pthread_once_t *o, void (*f)())
{
    auto *l = reinterpret_cast<uint32_t *>(o);
    mlse_yield();
    while (*l != 2) {
        if (*l == 0) {
            *l = 1;
            try {
                f();
            }
            catch (...) {
                *l = 0;
                throw;
            }
            *l = 2;
        }
        else
            mlse_await(l, 2);
    }
    return 0;
}
void __once_proxy() { std::__once_call(); }
#endif

#ifndef MLSE_NATIVE
WEAK int sched_yield() noexcept
{
    mlse_yield();
    return 0;
}
WEAK int nanosleep(const timespec *, timespec *)
{
    mlse_yield();
    return 0;
}
#endif
}

// Whether the next thread can be started; a harness may replace it.
extern "C" __attribute__((weak)) int mlse_thread_starts() { return 1; }

namespace std {
// ---- threads

static uint32_t rt_done[64];
static void *rt_thread(void *p)
{
    auto *st = static_cast<thread::_State *>(p);
    st->_M_run();
    delete st;
    rt_done[mlse_self()] = 1;
    return nullptr;
}
thread::_State::~_State() {}
void thread::_M_start_thread(_State_ptr st, void (*)())
{
    if (!mlse_thread_starts())
        __throw_system_error(EAGAIN);
    int t = mlse_thread_create(rt_thread, st.release());
    rt_done[t] = 0;
    _M_id = id(native_handle_type(t) + 1);
    mlse_yield();
}
void thread::join()
{
    if (_M_id == id())
        __throw_system_error(EINVAL);
    auto t = *reinterpret_cast<unsigned long *>(&_M_id) - 1;
    mlse_await(&rt_done[t], 1);
    _M_id = id();
}
void thread::detach()
{
    if (_M_id == id())
        __throw_system_error(EINVAL);
    _M_id = id();
}
unsigned thread::hardware_concurrency() noexcept { return 4; }

// One word per thread: 1 while the thread waits.
condition_variable::condition_variable() noexcept { memset(_M_cond.native_handle(), 0, sizeof(pthread_cond_t)); }
condition_variable::~condition_variable() noexcept {}
void condition_variable::wait(unique_lock<mutex> &l)
{
    auto *w = reinterpret_cast<uint32_t *>(_M_cond.native_handle());
    // Something that is changed without the lock may change here, unnoticed.
    mlse_yield();
    w[mlse_self()] = 1;
    l.mutex()->unlock();
    mlse_await(&w[mlse_self()], 0);
    l.mutex()->lock();
}
void condition_variable::notify_one() noexcept
{
    auto *w = reinterpret_cast<uint32_t *>(_M_cond.native_handle());
    mlse_yield();
    int n = 0, last = -1;
    for (int i = 0; i < 12; i++)
        if (w[i])
            n++, last = i;
    if (!n)
        return;
    if (n > 1) {
        auto k = pick("wake", 0, uint64_t(n - 1));
        for (int i = 0; i < 12; i++)
            if (w[i] && k-- == 0)
                last = i;
    }
    w[last] = 0;
}
void condition_variable::notify_all() noexcept
{
    auto *w = reinterpret_cast<uint32_t *>(_M_cond.native_handle());
    mlse_yield();
    for (int i = 0; i < 12; i++)
        w[i] = 0;
}

}  // namespace std
