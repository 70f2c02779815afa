// Force-included before every translation unit built against the ROS stand-in. The installed PCL uses std::shared_ptr where
// the PCL the repository targets used boost::shared_ptr; boost::make_shared<T> gives the pointer kind T's library expects.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <set>
#include <stdexcept>
#include <string>
#include <thread>
#include <type_traits>
#include <vector>
#include <boost/make_shared.hpp>
#include <boost/shared_ptr.hpp>
#include <boost/smart_ptr.hpp>
#include <boost/bind/bind.hpp>
#include <boost/bind.hpp>

namespace vr_detail {
template<typename T, typename = void>
struct uses_std_ptr : std::false_type {};
template<typename T>
struct is_std_ptr : std::false_type {};
template<typename T>
struct is_std_ptr<std::shared_ptr<T>> : std::true_type {};
template<typename T>
struct uses_std_ptr<T, std::void_t<typename T::Ptr>> : is_std_ptr<typename T::Ptr> {};
template<typename T, typename A>
struct uses_std_ptr<std::vector<T, A>, void> : std::true_type {};
}
namespace std {
template<typename T, typename... A>
inline shared_ptr<T> vr_make_shared(A&&... a) { return std::make_shared<T>(std::forward<A>(a)...); }
}
namespace boost {
template<typename T, typename... A>
inline auto vr_make_shared(A&&... a) {
    if constexpr (vr_detail::uses_std_ptr<T>::value) return std::make_shared<T>(std::forward<A>(a)...);
    else return boost::make_shared<T>(std::forward<A>(a)...);
}
}
#define make_shared vr_make_shared
