// compiled by the check of C21 against the headers as they are; written by gen.py
#include <cstddef>
#include <type_traits>
#include "VSConstants4.h"

static_assert(VSC_RANGE_FULL == 0, "VSConstants4.h: the value of VSC_RANGE_FULL is 0");
static_assert(VSC_RANGE_LIMITED == 1, "VSConstants4.h: the value of VSC_RANGE_LIMITED is 1");

static_assert(VSC_CHROMA_LEFT == 0, "VSConstants4.h: the value of VSC_CHROMA_LEFT is 0");
static_assert(VSC_CHROMA_CENTER == 1, "VSConstants4.h: the value of VSC_CHROMA_CENTER is 1");
static_assert(VSC_CHROMA_TOP_LEFT == 2, "VSConstants4.h: the value of VSC_CHROMA_TOP_LEFT is 2");
static_assert(VSC_CHROMA_TOP == 3, "VSConstants4.h: the value of VSC_CHROMA_TOP is 3");
static_assert(VSC_CHROMA_BOTTOM_LEFT == 4, "VSConstants4.h: the value of VSC_CHROMA_BOTTOM_LEFT is 4");
static_assert(VSC_CHROMA_BOTTOM == 5, "VSConstants4.h: the value of VSC_CHROMA_BOTTOM is 5");

static_assert(VSC_FIELD_PROGRESSIVE == 0, "VSConstants4.h: the value of VSC_FIELD_PROGRESSIVE is 0");
static_assert(VSC_FIELD_BOTTOM == 1, "VSConstants4.h: the value of VSC_FIELD_BOTTOM is 1");
static_assert(VSC_FIELD_TOP == 2, "VSConstants4.h: the value of VSC_FIELD_TOP is 2");

static_assert(VSC_MATRIX_RGB == 0, "VSConstants4.h: the value of VSC_MATRIX_RGB is 0");
static_assert(VSC_MATRIX_BT709 == 1, "VSConstants4.h: the value of VSC_MATRIX_BT709 is 1");
static_assert(VSC_MATRIX_UNSPECIFIED == 2, "VSConstants4.h: the value of VSC_MATRIX_UNSPECIFIED is 2");
static_assert(VSC_MATRIX_FCC == 4, "VSConstants4.h: the value of VSC_MATRIX_FCC is 4");
static_assert(VSC_MATRIX_BT470_BG == 5, "VSConstants4.h: the value of VSC_MATRIX_BT470_BG is 5");
static_assert(VSC_MATRIX_ST170_M == 6, "VSConstants4.h: the value of VSC_MATRIX_ST170_M is 6");
static_assert(VSC_MATRIX_ST240_M == 7, "VSConstants4.h: the value of VSC_MATRIX_ST240_M is 7");
static_assert(VSC_MATRIX_YCGCO == 8, "VSConstants4.h: the value of VSC_MATRIX_YCGCO is 8");
static_assert(VSC_MATRIX_BT2020_NCL == 9, "VSConstants4.h: the value of VSC_MATRIX_BT2020_NCL is 9");
static_assert(VSC_MATRIX_BT2020_CL == 10, "VSConstants4.h: the value of VSC_MATRIX_BT2020_CL is 10");
static_assert(VSC_MATRIX_CHROMATICITY_DERIVED_NCL == 12, "VSConstants4.h: the value of VSC_MATRIX_CHROMATICITY_DERIVED_NCL is 12");
static_assert(VSC_MATRIX_CHROMATICITY_DERIVED_CL == 13, "VSConstants4.h: the value of VSC_MATRIX_CHROMATICITY_DERIVED_CL is 13");
static_assert(VSC_MATRIX_ICTCP == 14, "VSConstants4.h: the value of VSC_MATRIX_ICTCP is 14");

static_assert(VSC_TRANSFER_BT709 == 1, "VSConstants4.h: the value of VSC_TRANSFER_BT709 is 1");
static_assert(VSC_TRANSFER_UNSPECIFIED == 2, "VSConstants4.h: the value of VSC_TRANSFER_UNSPECIFIED is 2");
static_assert(VSC_TRANSFER_BT470_M == 4, "VSConstants4.h: the value of VSC_TRANSFER_BT470_M is 4");
static_assert(VSC_TRANSFER_BT470_BG == 5, "VSConstants4.h: the value of VSC_TRANSFER_BT470_BG is 5");
static_assert(VSC_TRANSFER_BT601 == 6, "VSConstants4.h: the value of VSC_TRANSFER_BT601 is 6");
static_assert(VSC_TRANSFER_ST240_M == 7, "VSConstants4.h: the value of VSC_TRANSFER_ST240_M is 7");
static_assert(VSC_TRANSFER_LINEAR == 8, "VSConstants4.h: the value of VSC_TRANSFER_LINEAR is 8");
static_assert(VSC_TRANSFER_LOG_100 == 9, "VSConstants4.h: the value of VSC_TRANSFER_LOG_100 is 9");
static_assert(VSC_TRANSFER_LOG_316 == 10, "VSConstants4.h: the value of VSC_TRANSFER_LOG_316 is 10");
static_assert(VSC_TRANSFER_IEC_61966_2_4 == 11, "VSConstants4.h: the value of VSC_TRANSFER_IEC_61966_2_4 is 11");
static_assert(VSC_TRANSFER_IEC_61966_2_1 == 13, "VSConstants4.h: the value of VSC_TRANSFER_IEC_61966_2_1 is 13");
static_assert(VSC_TRANSFER_BT2020_10 == 14, "VSConstants4.h: the value of VSC_TRANSFER_BT2020_10 is 14");
static_assert(VSC_TRANSFER_BT2020_12 == 15, "VSConstants4.h: the value of VSC_TRANSFER_BT2020_12 is 15");
static_assert(VSC_TRANSFER_ST2084 == 16, "VSConstants4.h: the value of VSC_TRANSFER_ST2084 is 16");
static_assert(VSC_TRANSFER_ST428 == 17, "VSConstants4.h: the value of VSC_TRANSFER_ST428 is 17");
static_assert(VSC_TRANSFER_ARIB_B67 == 18, "VSConstants4.h: the value of VSC_TRANSFER_ARIB_B67 is 18");

static_assert(VSC_PRIMARIES_BT709 == 1, "VSConstants4.h: the value of VSC_PRIMARIES_BT709 is 1");
static_assert(VSC_PRIMARIES_UNSPECIFIED == 2, "VSConstants4.h: the value of VSC_PRIMARIES_UNSPECIFIED is 2");
static_assert(VSC_PRIMARIES_BT470_M == 4, "VSConstants4.h: the value of VSC_PRIMARIES_BT470_M is 4");
static_assert(VSC_PRIMARIES_BT470_BG == 5, "VSConstants4.h: the value of VSC_PRIMARIES_BT470_BG is 5");
static_assert(VSC_PRIMARIES_ST170_M == 6, "VSConstants4.h: the value of VSC_PRIMARIES_ST170_M is 6");
static_assert(VSC_PRIMARIES_ST240_M == 7, "VSConstants4.h: the value of VSC_PRIMARIES_ST240_M is 7");
static_assert(VSC_PRIMARIES_FILM == 8, "VSConstants4.h: the value of VSC_PRIMARIES_FILM is 8");
static_assert(VSC_PRIMARIES_BT2020 == 9, "VSConstants4.h: the value of VSC_PRIMARIES_BT2020 is 9");
static_assert(VSC_PRIMARIES_ST428 == 10, "VSConstants4.h: the value of VSC_PRIMARIES_ST428 is 10");
static_assert(VSC_PRIMARIES_ST431_2 == 11, "VSConstants4.h: the value of VSC_PRIMARIES_ST431_2 is 11");
static_assert(VSC_PRIMARIES_ST432_1 == 12, "VSConstants4.h: the value of VSC_PRIMARIES_ST432_1 is 12");
static_assert(VSC_PRIMARIES_EBU3213_E == 22, "VSConstants4.h: the value of VSC_PRIMARIES_EBU3213_E is 22");

