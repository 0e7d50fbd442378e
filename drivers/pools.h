#pragma once
#include "cap.h"
#include "include/async_logger.h"
#include "base/lock_thread_pool.h"
#include "base/lockfree_thread_pool.h"
#include "base/lockfree_concurrent_thread_pool.h"
#include "base/exception.h"
#include <atomic>
#include <thread>
#include <set>
#include <map>
#include <condition_variable>
typedef std::shared_ptr<base::thread_pool> TPP; typedef std::function<void()> Fn;
static const char *KN[] = {"lock", "lockfree", "lockfree_concurrent"};
inline TPP pool(int k, size_t q, size_t n) { if (k == 0) return std::make_shared<base::lock_thread_pool>(q, n); if (k == 1) return std::make_shared<base::lockfree_thread_pool>(q, n); return std::make_shared<base::lockfree_concurrent_thread_pool>(q, n); }
inline TPP pool(int k, size_t q, size_t n, Fn a) { if (k == 0) return std::make_shared<base::lock_thread_pool>(q, n, a); if (k == 1) return std::make_shared<base::lockfree_thread_pool>(q, n, a); return std::make_shared<base::lockfree_concurrent_thread_pool>(q, n, a); }
inline TPP pool(int k, size_t q, size_t n, Fn a, Fn b) { if (k == 0) return std::make_shared<base::lock_thread_pool>(q, n, a, b); if (k == 1) return std::make_shared<base::lockfree_thread_pool>(q, n, a, b); return std::make_shared<base::lockfree_concurrent_thread_pool>(q, n, a, b); }
inline std::string who(int k, size_t q, size_t n) { return std::string(KN[k]) + " pool, queue " + std::to_string(q) + ", " + std::to_string(n) + " workers"; }
