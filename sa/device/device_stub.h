#pragma once
#define __host__ __attribute__((host))
#define __device__ __attribute__((device))
#define __global__ __attribute__((global))
#define __shared__ __attribute__((shared))
#define __constant__ __attribute__((constant))
#define __forceinline__ __inline__ __attribute__((always_inline))
#include <stdio.h>
#include <assert.h>
#include <inttypes.h>
#include <stdarg.h>
#define _GLIBCXX_INCLUDE_NEXT_C_HEADERS
#include <stdlib.h>
#undef _GLIBCXX_INCLUDE_NEXT_C_HEADERS
extern "C" { __device__ int abs( int ); __device__ long labs( long ); __device__ long long llabs( long long ); }
#pragma clang force_cuda_host_device begin
#include <bits/c++config.h>
#include <bits/exception.h>
#pragma clang force_cuda_host_device end
#include <new>
#if defined( STD_AS_WRITTEN )
// what the standard library declares constexpr is callable on the device, as with relaxed constexpr, and mathematics is
#pragma clang force_cuda_host_device begin
#include <exception>
#define _GLIBCXX_INCLUDE_NEXT_C_HEADERS
#include <math.h>
#undef _GLIBCXX_INCLUDE_NEXT_C_HEADERS
#include <string.h>
#pragma clang force_cuda_host_device end
#else
#pragma clang force_cuda_host_device begin
#endif
#include <exception>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <array>
#include <tuple>
#include <type_traits>
#include <utility>
#include <limits>
#include <initializer_list>
#include <cmath>
#include <cstdlib>
#include <cstddef>
#include <cstring>
#include <algorithm>
#include <functional>
#include <numeric>
#include <iterator>
#if !defined( STD_AS_WRITTEN )
#pragma clang force_cuda_host_device end
#endif
#include <cstdio>
#define __noinline__ __attribute__((noinline))
struct dim3 { unsigned x, y, z; __host__ __device__ constexpr dim3( unsigned a = 1, unsigned b = 1, unsigned c = 1 ): x( a ), y( b ), z( c ) {} };
extern "C" __device__ int printf( const char *, ... );
extern "C" __device__ void __assert_fail( const char *, const char *, unsigned, const char * );
extern "C" __device__ void __trap();
