/* Force-included (only) when dbgcv.c is compiled, together with
 * -funsigned-char. dbgcv.c subtracts uint_8* from char*, which MSVC accepts
 * and gcc and clang reject. Here uint_8 becomes plain char, which
 * -funsigned-char makes unsigned too: same width, same signedness. */
#include <inttype.h>
#define uint_8 char
