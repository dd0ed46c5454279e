/* wrappers giving the inline functions of the headers a body of their own */
#include "integer.h"
#include "intset.h"
integer_t *w_as_integer(intptr_t v) { return as_integer(v); }
unsigned_t *w_as_unsigned(uintptr_t v) { return as_unsigned(v); }
intptr_t w_as_intptr(const integer_t *v) { return as_intptr(v); }
uintptr_t w_as_uintptr(const unsigned_t *v) { return as_uintptr(v); }
bool w_intset_empty(intset_t *s) { return intset_empty(s); }
