/* Thin wrappers around the C API as declared by the crate's own header, so that calls use the declared prototypes. */
#include "divans/ffi.h"

typedef struct CAllocator A;
struct DivansCompressorState *shim_new_c(void) { return divans_new_compressor(); }
struct DivansCompressorState *shim_new_c_alloc(const A *a) { return divans_new_compressor_with_custom_alloc(*a); }
DivansResult shim_set(struct DivansCompressorState *s, uint8_t sel, uint32_t v) { return divans_set_option(s, sel, v); }
DivansResult shim_encode(struct DivansCompressorState *s, const uint8_t *i, size_t n, size_t *io, uint8_t *o, size_t m, size_t *oo) {
  return divans_encode(s, i, n, io, o, m, oo);
}
DivansResult shim_flush(struct DivansCompressorState *s, uint8_t *o, size_t m, size_t *oo) { return divans_encode_flush(s, o, m, oo); }
void shim_free_c(struct DivansCompressorState *s) { divans_free_compressor(s); }
struct DivansDecompressorState *shim_new_d(void) { return divans_new_decompressor(); }
struct DivansDecompressorState *shim_new_d_alloc(const A *a, uint8_t skip, uint8_t mt) {
  return divans_new_decompressor_with_custom_alloc(*a, skip, mt);
}
DivansResult shim_decode(struct DivansDecompressorState *s, const uint8_t *i, size_t n, size_t *io, uint8_t *o, size_t m, size_t *oo) {
  return divans_decode(s, i, n, io, o, m, oo);
}
void shim_free_d(struct DivansDecompressorState *s) { divans_free_decompressor(s); }
/* the header's numbers, in the order the harness names them */
uint32_t shim_const(uint32_t k) {
  static const uint32_t t[] = {
    DIVANS_SUCCESS, DIVANS_NEEDS_MORE_INPUT, DIVANS_NEEDS_MORE_OUTPUT, DIVANS_FAILURE,
    DIVANS_OPTION_QUALITY, DIVANS_OPTION_WINDOW_SIZE, DIVANS_OPTION_LGBLOCK, DIVANS_OPTION_DYNAMIC_CONTEXT_MIXING,
    DIVANS_OPTION_USE_BROTLI_COMMAND_SELECTION, DIVANS_OPTION_USE_BROTLI_BITSTREAM, DIVANS_OPTION_USE_CONTEXT_MAP,
    DIVANS_OPTION_LITERAL_ADAPTATION_CM_HIGH, DIVANS_OPTION_FORCE_STRIDE_VALUE, DIVANS_OPTION_STRIDE_DETECTION_QUALITY,
    DIVANS_OPTION_PRIOR_DEPTH, DIVANS_OPTION_LITERAL_ADAPTATION_STRIDE_HIGH, DIVANS_OPTION_LITERAL_ADAPTATION_CM_LOW,
    DIVANS_OPTION_LITERAL_ADAPTATION_STRIDE_LOW, DIVANS_OPTION_BROTLI_LITERAL_BYTE_SCORE,
    DIVANS_OPTION_SPEED_DETECTION_QUALITY, DIVANS_OPTION_PRIOR_BITMASK_DETECTION, DIVANS_OPTION_Q9_5,
    DIVANS_OPTION_FORCE_LITERAL_CONTEXT_MODE,
  };
  return k < sizeof(t) / sizeof(t[0]) ? t[k] : 0xffffffffu;
}
