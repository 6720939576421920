// Stand-in for boost/core/invoke_swap.hpp (Boost >= 1.84); the installed Boost
// is 1.83, where the same function is spelled boost::swap.
#ifndef SHIM_BOOST_CORE_INVOKE_SWAP_HPP
#define SHIM_BOOST_CORE_INVOKE_SWAP_HPP
#include <utility>
namespace boost { namespace core { namespace invoke_swap_detail {
template <class T> void impl(T &l, T &r) { using std::swap; swap(l, r); } }
template <class T> void invoke_swap(T &l, T &r) { invoke_swap_detail::impl(l, r); } } }
#endif
