#ifndef VERIF_SHIM_ABSL_LOG_CHECK_H_
#define VERIF_SHIM_ABSL_LOG_CHECK_H_

#include "absl/log/log.h"

#define CHECK(c) \
  (c) ? (void)0 : ::verif_shim::Voidify() && LOG(FATAL) << "Check failed: " #c " "
#define VERIF_CHECK_OP(a, op, b)                                       \
  ((a)op(b)) ? (void)0                                                 \
             : ::verif_shim::Voidify() && LOG(FATAL)                   \
                   << "Check failed: " #a " " #op " " #b " "
#define CHECK_EQ(a, b) VERIF_CHECK_OP(a, ==, b)
#define CHECK_NE(a, b) VERIF_CHECK_OP(a, !=, b)
#define CHECK_LT(a, b) VERIF_CHECK_OP(a, <, b)
#define CHECK_LE(a, b) VERIF_CHECK_OP(a, <=, b)
#define CHECK_GT(a, b) VERIF_CHECK_OP(a, >, b)
#define CHECK_GE(a, b) VERIF_CHECK_OP(a, >=, b)
#define QCHECK(c) CHECK(c)
#define QCHECK_EQ(a, b) CHECK_EQ(a, b)
#define QCHECK_NE(a, b) CHECK_NE(a, b)
#define PCHECK(c) CHECK(c)
#ifdef NDEBUG
#define DCHECK(c) CHECK(true || (c))
#define DCHECK_EQ(a, b) CHECK(true || ((a) == (b)))
#define DCHECK_NE(a, b) CHECK(true || ((a) != (b)))
#define DCHECK_LT(a, b) CHECK(true || ((a) < (b)))
#define DCHECK_LE(a, b) CHECK(true || ((a) <= (b)))
#define DCHECK_GT(a, b) CHECK(true || ((a) > (b)))
#define DCHECK_GE(a, b) CHECK(true || ((a) >= (b)))
#else
#define DCHECK(c) CHECK(c)
#define DCHECK_EQ(a, b) CHECK_EQ(a, b)
#define DCHECK_NE(a, b) CHECK_NE(a, b)
#define DCHECK_LT(a, b) CHECK_LT(a, b)
#define DCHECK_LE(a, b) CHECK_LE(a, b)
#define DCHECK_GT(a, b) CHECK_GT(a, b)
#define DCHECK_GE(a, b) CHECK_GE(a, b)
#endif

#endif  // VERIF_SHIM_ABSL_LOG_CHECK_H_
