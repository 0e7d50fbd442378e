// Algorithms of the standard library, written out: the code under verification is read with these in place of the library's, so that
// their loops are verified like the repository's own (trusted: they do what [algorithms] says).
#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <functional>
#include <future>
#include <iterator>
#include <memory>
#include <mutex>
#include <numeric>
#include <sstream>
#include <string>
#include <thread>
#include <unordered_map>
#include <vector>
namespace std { inline namespace learnlog_alg {
template <class It, class F> F vc_for_each(It first, It last, F f) { for (; first != last; ++first) f(*first); return f; }
template <class It, class F> bool vc_any_of(It first, It last, F f) { for (; first != last; ++first) { if (f(*first)) return true; } return false; }
template <class It, class F> bool vc_all_of(It first, It last, F f) { for (; first != last; ++first) { if (!f(*first)) return false; } return true; }
template <class It, class F> bool vc_none_of(It first, It last, F f) { for (; first != last; ++first) { if (f(*first)) return false; } return true; }
template <class It, class F> It vc_find_if(It first, It last, F f) { for (; first != last; ++first) { if (f(*first)) break; } return first; }
template <class It, class F> It vc_find_if_not(It first, It last, F f) { for (; first != last; ++first) { if (!f(*first)) break; } return first; }
template <class It, class F> typename iterator_traits<It>::difference_type vc_count_if(It first, It last, F f) { typename iterator_traits<It>::difference_type n = 0; for (; first != last; ++first) { if (f(*first)) ++n; } return n; }
template <class It, class T> T vc_accumulate(It first, It last, T s) { for (; first != last; ++first) s = s + *first; return s; }
template <class It, class T, class F> T vc_accumulate(It first, It last, T s, F f) { for (; first != last; ++first) s = f(s, *first); return s; }
} }
#define for_each vc_for_each
#define any_of vc_any_of
#define all_of vc_all_of
#define none_of vc_none_of
#define find_if vc_find_if
#define find_if_not vc_find_if_not
#define count_if vc_count_if
#define accumulate vc_accumulate
