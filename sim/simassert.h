// Force-included in every translation unit.
// Eigen reports misuse by assert(). While an injected fault (a failing allocation, a throwing callback) unwinds the
// stack, destructors of half-built Eigen expressions, e.g. of a comma initializer, would assert as well; that abort
// says nothing about the code under test and the shipped build (NDEBUG) does not have it.
#pragma once
#ifndef EIGEN_NO_DEBUG
#  include <cassert>
#  include <exception>
#  define eigen_assert(x) \
    ((x) || std::uncaught_exceptions() > 0 ? (void)0 : __assert_fail(#x, __FILE__, __LINE__, __func__))
#endif
