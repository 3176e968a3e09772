// The header in C++, included twice.
#include "koopa.h"
#include "koopa.h"
int main() {
  koopa_program_t p = nullptr;
  koopa_raw_program_builder_t b = koopa_new_raw_program_builder();
  if (koopa_parse_from_string("decl @f()", &p) != KOOPA_EC_SUCCESS) return 1;
  koopa_raw_program_t r = koopa_build_raw_program(b, p);
  bool ok = r.funcs.len == 1 && r.funcs.kind == KOOPA_RSIK_FUNCTION && r.values.len == 0;
  koopa_delete_program(p);
  koopa_delete_raw_program_builder(b);
  return ok ? 0 : 1;
}
