// Includes the library under test with instrumented atomics and small, configurable limits.
#pragma once
#include "vp_sched.h"
#ifndef FN_LOG_MAX_LOG_SIZE
#define FN_LOG_MAX_LOG_SIZE 700
#endif
#ifndef FN_LOG_MAX_LOG_QUEUE_SIZE
#define FN_LOG_MAX_LOG_QUEUE_SIZE 11
#define FN_LOG_FORCE_FLUSH_QUE 5
#endif
#ifndef VP_PLAIN_ATOMICS
#define atomic_int vp_atomic_int
#define atomic_uint vp_atomic_uint
#define atomic_llong vp_atomic_llong
#define atomic_bool vp_atomic_bool
#endif
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wclass-memaccess"
#include "fn_log.h"
#pragma GCC diagnostic pop
#ifndef VP_PLAIN_ATOMICS
#undef atomic_int
#undef atomic_uint
#undef atomic_llong
#undef atomic_bool
#endif

namespace vp
{
    // the ring buffers of this logger are scheduling points
    inline void watch_rings(FNLog::Logger** lg)
    {
        find_hot() = [lg]
        {
            hot_range() = {nullptr, nullptr};
            if (*lg && (*lg)->shm_)
            {
                const char* b = (const char*)&(*lg)->shm_->ring_buffers_;
                hot_range() = {b, b + sizeof((*lg)->shm_->ring_buffers_)};
            }
        };
    }
}
