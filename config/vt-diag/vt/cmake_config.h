/*
//@HEADER
// *****************************************************************************
//
//                               cmake_config.h.in
//                       DARMA/vt => Virtual Transport
//
// Copyright 2019-2021 National Technology & Engineering Solutions of Sandia, LLC
// (NTESS). Under the terms of Contract DE-NA0003525 with NTESS, the U.S.
// Government retains certain rights in this software.
//
// Redistribution and use in source and binary forms, with or without
// modification, are permitted provided that the following conditions are met:
//
// * Redistributions of source code must retain the above copyright notice,
//   this list of conditions and the following disclaimer.
//
// * Redistributions in binary form must reproduce the above copyright notice,
//   this list of conditions and the following disclaimer in the documentation
//   and/or other materials provided with the distribution.
//
// * Neither the name of the copyright holder nor the names of its
//   contributors may be used to endorse or promote products derived from this
//   software without specific prior written permission.
//
// THIS SOFTWARE IS PROVIDED BY THE COPYRIGHT HOLDERS AND CONTRIBUTORS "AS IS"
// AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT LIMITED TO, THE
// IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS FOR A PARTICULAR PURPOSE
// ARE DISCLAIMED. IN NO EVENT SHALL THE COPYRIGHT OWNER OR CONTRIBUTORS BE
// LIABLE FOR ANY DIRECT, INDIRECT, INCIDENTAL, SPECIAL, EXEMPLARY, OR
// CONSEQUENTIAL DAMAGES (INCLUDING, BUT NOT LIMITED TO, PROCUREMENT OF
// SUBSTITUTE GOODS OR SERVICES; LOSS OF USE, DATA, OR PROFITS; OR BUSINESS
// INTERRUPTION) HOWEVER CAUSED AND ON ANY THEORY OF LIABILITY, WHETHER IN
// CONTRACT, STRICT LIABILITY, OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE)
// ARISING IN ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
// POSSIBILITY OF SUCH DAMAGE.
//
// Questions? Contact darma@sandia.gov
//
// *****************************************************************************
//@HEADER
*/

#define vt_feature_cmake_no_feature          0
#define vt_feature_cmake_bit_check_overflow  0
#define vt_feature_cmake_trace_enabled       0
#define vt_feature_cmake_trace_only          0
#define vt_feature_cmake_lblite              1
#define vt_feature_cmake_production          
#define vt_feature_cmake_mpi_rdma            0
#define vt_feature_cmake_print_term_msgs     0
#define vt_feature_cmake_no_pool_alloc_env   0
#define vt_feature_cmake_memory_pool         1
#define vt_feature_cmake_priority_bits_level 3
#define vt_feature_cmake_priorities          0
#define vt_feature_cmake_fcontext            0
#define vt_feature_cmake_test_trace_on       0
#define vt_feature_cmake_mimalloc            0
#define vt_feature_cmake_mpi_access_guards   1
#define vt_feature_cmake_zoltan              0
#define vt_feature_cmake_ci_build            0
#define vt_feature_cmake_diagnostics         1
#define vt_feature_cmake_diagnostics_runtime 1
#define vt_feature_cmake_libfort             0
#define vt_feature_cmake_production_build    0
#define vt_feature_cmake_debug_verbose       1
#define vt_feature_cmake_rdma_tests          1
#define vt_feature_cmake_external_fmt        0
#define vt_feature_cmake_libunwind           1
#define vt_feature_cmake_tv                  0
#define vt_feature_cmake_perf                0

#define vt_detected_max_num_nodes 8

#define vt_quirked_trivially_copyable_on_msg
#define vt_quirked_serialize_method_detection

#define vt_has_malloc_h
/* #undef vt_has_malloc_malloc_h */
/* #undef vt_has_mach_mach_h */
/* #undef vt_has_mstats */
#define vt_has_popen
#define vt_has_pclose
#define vt_has_sbrk
#define vt_has_mallinfo
#define vt_has_mallinfo2
#define vt_has_getrusage
#define vt_has_sysinfo
/* #undef vt_has_mach_task_self */
#define vt_has_getpid
#define vt_has_sys_resource_h
#define vt_has_unistd_h
#define vt_has_inttypes_h
#define vt_has_sysconf
#define vt_has_execinfo_h

#if vt_feature_cmake_external_fmt
  #define INCLUDE_FMT_CORE <fmt/core.h>
  #define INCLUDE_FMT_FORMAT <fmt/format.h>
  #define INCLUDE_FMT_OSTREAM <fmt/ostream.h>

  #define VT_FMT_NAMESPACE_BEGIN namespace fmt {
  #define VT_FMT_NAMESPACE_END }
#else
  #define INCLUDE_FMT_CORE <fmt-vt/core.h>
  #define INCLUDE_FMT_FORMAT <fmt-vt/format.h>
  #define INCLUDE_FMT_OSTREAM <fmt-vt/ostream.h>

  #define VT_FMT_NAMESPACE_BEGIN namespace fmt { inline namespace vt {
  #define VT_FMT_NAMESPACE_END } }
#endif
