#pragma once
// Declarations of the runtime interface that the kernel launches and pmpl.hpp use.
extern "C" {
typedef int rt_error_t;
enum rt_kind { rt_h2h, rt_h2d, rt_d2h, rt_d2d };
rt_error_t rt_malloc( void * *, size_t );
rt_error_t rt_mallocManaged( void * *, size_t );
rt_error_t rt_memcpy( void *, void const *, size_t, int );
rt_error_t rt_free( void * );
rt_error_t rt_sync();
rt_error_t rt_lastError();
char const * rt_errorString( rt_error_t );
rt_error_t __hipPushCallConfiguration( dim3, dim3, size_t = 0, void * = 0 );
rt_error_t __hipPopCallConfiguration( dim3 *, dim3 *, size_t *, void * * );
rt_error_t hipLaunchKernel( void const *, dim3, dim3, void * *, size_t, void * );
}
#define RT( P ) \
using P##Error_t = rt_error_t; \
constexpr P##Error_t P##Success = 0; \
constexpr int P##MemcpyHostToHost = 0, P##MemcpyHostToDevice = 1, P##MemcpyDeviceToHost = 2, P##MemcpyDeviceToDevice = 3, P##MemcpyDefault = 4; \
template< typename T > inline P##Error_t P##Malloc( T * * p, size_t n ) { return rt_malloc( (void * *)p, n ); } \
template< typename T > inline P##Error_t P##MallocManaged( T * * p, size_t n ) { return rt_mallocManaged( (void * *)p, n ); } \
inline P##Error_t P##Memcpy( void * d, void const * s, size_t n, int k ) { return rt_memcpy( d, s, n, k ); } \
__host__ __device__ inline P##Error_t P##Free( void * p ) { return rt_free_hd( p ); } \
inline P##Error_t P##DeviceSynchronize() { return rt_sync(); } \
inline P##Error_t P##GetLastError() { return rt_lastError(); } \
inline P##Error_t P##PeekAtLastError() { return rt_lastError(); } \
inline char const * P##GetErrorString( P##Error_t e ) { return rt_errorString( e ); } \
inline char const * P##GetErrorName( P##Error_t e ) { return rt_errorString( e ); }
#pragma clang force_cuda_host_device begin
extern "C" rt_error_t rt_free_hd( void * );
#pragma clang force_cuda_host_device end
#if defined( RT_CUDA )
RT( cuda )
#else
RT( hip )
using hipStream_t = void *;
#endif
#undef RT
