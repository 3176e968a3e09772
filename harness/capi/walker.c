/* A C user of libkoopa: everything it knows comes from koopa.h.
 * It reads commands, and answers with what it sees. */
#define _GNU_SOURCE
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#include "koopa.h"

/* text output */
static char *out;
static size_t out_len, out_cap;

static void put(const char *s, size_t n) {
  if (out_len + n + 1 > out_cap) {
    out_cap = (out_len + n + 1) * 2;
    out = realloc(out, out_cap);
  }
  memcpy(out + out_len, s, n);
  out_len += n;
  out[out_len] = 0;
}

static void say(const char *f, ...) {
  char *s;
  va_list a;
  va_start(a, f);
  int n = vasprintf(&s, f, a);
  va_end(a);
  put(s, (size_t)n);
  free(s);
}

static const char *code_name(koopa_error_code_t c) {
  switch (c) {
    case KOOPA_EC_SUCCESS: return "success";
    case KOOPA_EC_INVALID_UTF8_STRING: return "invalid-utf8-string";
    case KOOPA_EC_INVALID_FILE: return "invalid-file";
    case KOOPA_EC_INVALID_KOOPA_PROGRAM: return "invalid-koopa-program";
    case KOOPA_EC_IO_ERROR: return "io-error";
    case KOOPA_EC_NULL_BYTE_ERROR: return "null-byte-error";
    case KOOPA_EC_INSUFFICIENT_BUFFER_LENGTH: return "insufficient-buffer-length";
    case KOOPA_EC_RAW_SLICE_ITEM_KIND_MISMATCH: return "raw-slice-item-kind-mismatch";
    case KOOPA_EC_NULL_POINTER_ERROR: return "null-pointer-error";
    case KOOPA_EC_TYPE_MISMATCH: return "type-mismatch";
    case KOOPA_EC_FUNC_PARAM_NUM_MISMATCH: return "func-param-num-mismatch";
  }
  return "?";
}

static const char *op_name(koopa_raw_binary_op_t o) {
  switch (o) {
    case KOOPA_RBO_NOT_EQ: return "ne";
    case KOOPA_RBO_EQ: return "eq";
    case KOOPA_RBO_GT: return "gt";
    case KOOPA_RBO_LT: return "lt";
    case KOOPA_RBO_GE: return "ge";
    case KOOPA_RBO_LE: return "le";
    case KOOPA_RBO_ADD: return "add";
    case KOOPA_RBO_SUB: return "sub";
    case KOOPA_RBO_MUL: return "mul";
    case KOOPA_RBO_DIV: return "div";
    case KOOPA_RBO_MOD: return "mod";
    case KOOPA_RBO_AND: return "and";
    case KOOPA_RBO_OR: return "or";
    case KOOPA_RBO_XOR: return "xor";
    case KOOPA_RBO_SHL: return "shl";
    case KOOPA_RBO_SHR: return "shr";
    case KOOPA_RBO_SAR: return "sar";
  }
  return "?";
}

static koopa_raw_binary_op_t op_of(const char *s) {
  static const koopa_raw_binary_op_t all[] = {
      KOOPA_RBO_NOT_EQ, KOOPA_RBO_EQ,  KOOPA_RBO_GT,  KOOPA_RBO_LT,  KOOPA_RBO_GE,  KOOPA_RBO_LE,
      KOOPA_RBO_ADD,    KOOPA_RBO_SUB, KOOPA_RBO_MUL, KOOPA_RBO_DIV, KOOPA_RBO_MOD, KOOPA_RBO_AND,
      KOOPA_RBO_OR,     KOOPA_RBO_XOR, KOOPA_RBO_SHL, KOOPA_RBO_SHR, KOOPA_RBO_SAR};
  for (size_t i = 0; i < sizeof all / sizeof *all; ++i)
    if (!strcmp(op_name(all[i]), s)) return all[i];
  abort();
}

static const char *kind_name(koopa_raw_slice_item_kind_t k) {
  switch (k) {
    case KOOPA_RSIK_UNKNOWN: return "unknown";
    case KOOPA_RSIK_TYPE: return "type";
    case KOOPA_RSIK_FUNCTION: return "function";
    case KOOPA_RSIK_BASIC_BLOCK: return "block";
    case KOOPA_RSIK_VALUE: return "value";
  }
  return "?";
}

static void expect(koopa_raw_slice_t s, koopa_raw_slice_item_kind_t k) {
  if (s.kind != k) say("!slice-of-%s-is-%s!", kind_name(k), kind_name(s.kind));
}

/* ---- walking ---- */

static void ty(koopa_raw_type_t t) {
  switch (t->tag) {
    case KOOPA_RTT_INT32: say("i32"); break;
    case KOOPA_RTT_UNIT: say("unit"); break;
    case KOOPA_RTT_ARRAY:
      say("[");
      ty(t->data.array.base);
      say(", %zu]", t->data.array.len);
      break;
    case KOOPA_RTT_POINTER:
      say("*");
      ty(t->data.pointer.base);
      break;
    case KOOPA_RTT_FUNCTION:
      expect(t->data.function.params, KOOPA_RSIK_TYPE);
      say("(");
      for (uint32_t i = 0; i < t->data.function.params.len; ++i) {
        if (i) say(", ");
        ty((koopa_raw_type_t)t->data.function.params.buffer[i]);
      }
      say(")");
      if (t->data.function.ret->tag != KOOPA_RTT_UNIT) {
        say(": ");
        ty(t->data.function.ret);
      }
      break;
    default: say("?type"); break;
  }
}

/* where a value is defined */
typedef struct {
  const void *p;
  char what;
  uint32_t f, b, i;
} ref_t;
static ref_t *refs;
static size_t n_refs, cap_refs;

static void add_ref(const void *p, char what, uint32_t f, uint32_t b, uint32_t i) {
  if (n_refs == cap_refs) {
    cap_refs = cap_refs ? cap_refs * 2 : 64;
    refs = realloc(refs, cap_refs * sizeof *refs);
  }
  ref_t r = {p, what, f, b, i};
  refs[n_refs++] = r;
}

static int by_ptr(const void *a, const void *b) {
  const char *x = ((const ref_t *)a)->p, *y = ((const ref_t *)b)->p;
  return x < y ? -1 : x > y;
}

static const ref_t *find(const void *p) {
  ref_t k = {p, 0, 0, 0, 0};
  return n_refs ? bsearch(&k, refs, n_refs, sizeof *refs, by_ptr) : NULL;
}

static void ref(const ref_t *r) {
  switch (r->what) {
    case 'g': say("g%u", r->i); break;
    case 'f': say("f%u", r->f); break;
    case 'a': say("a%u.%u", r->f, r->i); break;
    case 'b': say("b%u.%u", r->f, r->b); break;
    case 'p': say("p%u.%u.%u", r->f, r->b, r->i); break;
    case 'i': say("i%u.%u.%u", r->f, r->b, r->i); break;
  }
}

static void val(koopa_raw_value_t v) {
  if (!v) {
    say("null");
    return;
  }
  const ref_t *r = find(v);
  if (r) {
    ref(r);
    return;
  }
  switch (v->kind.tag) {
    case KOOPA_RVT_INTEGER: say("int %d ", v->kind.data.integer.value); break;
    case KOOPA_RVT_ZERO_INIT: say("zero "); break;
    case KOOPA_RVT_UNDEF: say("undef "); break;
    case KOOPA_RVT_AGGREGATE:
      expect(v->kind.data.aggregate.elems, KOOPA_RSIK_VALUE);
      say("{");
      for (uint32_t i = 0; i < v->kind.data.aggregate.elems.len; ++i) {
        if (i) say(", ");
        val((koopa_raw_value_t)v->kind.data.aggregate.elems.buffer[i]);
      }
      say("} ");
      break;
    default: say("?value%d ", (int)v->kind.tag); break;
  }
  ty(v->ty);
}

static void vals(koopa_raw_slice_t s) {
  expect(s, KOOPA_RSIK_VALUE);
  say("(");
  for (uint32_t i = 0; i < s.len; ++i) {
    if (i) say(", ");
    val((koopa_raw_value_t)s.buffer[i]);
  }
  say(")");
}

static int by_place(const void *a, const void *b) {
  const ref_t *x = *(const ref_t *const *)a, *y = *(const ref_t *const *)b;
  if (x->what != y->what) return x->what < y->what ? -1 : 1;
  if (x->f != y->f) return x->f < y->f ? -1 : 1;
  if (x->b != y->b) return x->b < y->b ? -1 : 1;
  return x->i < y->i ? -1 : x->i > y->i;
}

static void users(koopa_raw_slice_t s) {
  expect(s, KOOPA_RSIK_VALUE);
  const ref_t **v = malloc((s.len + 1) * sizeof *v);
  uint32_t n = 0, other = 0;
  for (uint32_t i = 0; i < s.len; ++i) {
    const ref_t *r = find(s.buffer[i]);
    if (r)
      v[n++] = r;
    else
      ++other;
  }
  qsort(v, n, sizeof *v, by_place);
  say(" <");
  for (uint32_t i = 0; i < n; ++i) {
    if (i) say(" ");
    ref(v[i]);
  }
  if (other) say(" +%u", other);
  say(">\n");
  free(v);
}

static void name(const char *s) { say("%s ", s ? s : "-"); }

static void target(koopa_raw_basic_block_t b) {
  const ref_t *r = find(b);
  if (r)
    ref(r);
  else
    say("?block");
}

static void inst(koopa_raw_value_t v) {
  say("    inst ");
  name(v->name);
  ty(v->ty);
  say(" ");
  switch (v->kind.tag) {
    case KOOPA_RVT_ALLOC: say("alloc"); break;
    case KOOPA_RVT_LOAD:
      say("load ");
      val(v->kind.data.load.src);
      break;
    case KOOPA_RVT_STORE:
      say("store ");
      val(v->kind.data.store.value);
      say(" to ");
      val(v->kind.data.store.dest);
      break;
    case KOOPA_RVT_GET_PTR:
      say("getptr ");
      val(v->kind.data.get_ptr.src);
      say(" at ");
      val(v->kind.data.get_ptr.index);
      break;
    case KOOPA_RVT_GET_ELEM_PTR:
      say("getelemptr ");
      val(v->kind.data.get_elem_ptr.src);
      say(" at ");
      val(v->kind.data.get_elem_ptr.index);
      break;
    case KOOPA_RVT_BINARY:
      say("%s ", op_name(v->kind.data.binary.op));
      val(v->kind.data.binary.lhs);
      say(" and ");
      val(v->kind.data.binary.rhs);
      break;
    case KOOPA_RVT_BRANCH:
      say("branch ");
      val(v->kind.data.branch.cond);
      say(" to ");
      target(v->kind.data.branch.true_bb);
      vals(v->kind.data.branch.true_args);
      say(" else ");
      target(v->kind.data.branch.false_bb);
      vals(v->kind.data.branch.false_args);
      break;
    case KOOPA_RVT_JUMP:
      say("jump ");
      target(v->kind.data.jump.target);
      vals(v->kind.data.jump.args);
      break;
    case KOOPA_RVT_CALL: {
      const ref_t *r = find(v->kind.data.call.callee);
      say("call ");
      if (r)
        ref(r);
      else
        say("?function");
      vals(v->kind.data.call.args);
      break;
    }
    case KOOPA_RVT_RETURN:
      say("return ");
      val(v->kind.data.ret.value);
      break;
    default: say("?inst%d", (int)v->kind.tag); break;
  }
  users(v->used_by);
}

static void walk(koopa_raw_program_t p) {
  n_refs = 0;
  expect(p.values, KOOPA_RSIK_VALUE);
  expect(p.funcs, KOOPA_RSIK_FUNCTION);
  for (uint32_t i = 0; i < p.values.len; ++i) add_ref(p.values.buffer[i], 'g', 0, 0, i);
  for (uint32_t f = 0; f < p.funcs.len; ++f) {
    koopa_raw_function_t fn = (koopa_raw_function_t)p.funcs.buffer[f];
    add_ref(fn, 'f', f, 0, 0);
    for (uint32_t i = 0; i < fn->params.len; ++i) add_ref(fn->params.buffer[i], 'a', f, 0, i);
    for (uint32_t b = 0; b < fn->bbs.len; ++b) {
      koopa_raw_basic_block_t bb = (koopa_raw_basic_block_t)fn->bbs.buffer[b];
      add_ref(bb, 'b', f, b, 0);
      for (uint32_t i = 0; i < bb->params.len; ++i) add_ref(bb->params.buffer[i], 'p', f, b, i);
      for (uint32_t i = 0; i < bb->insts.len; ++i) add_ref(bb->insts.buffer[i], 'i', f, b, i);
    }
  }
  if (n_refs) qsort(refs, n_refs, sizeof *refs, by_ptr);
  for (uint32_t i = 0; i < p.values.len; ++i) {
    koopa_raw_value_t g = (koopa_raw_value_t)p.values.buffer[i];
    say("global ");
    name(g->name);
    ty(g->ty);
    say(" ");
    if (g->kind.tag == KOOPA_RVT_GLOBAL_ALLOC)
      val(g->kind.data.global_alloc.init);
    else
      say("?global");
    users(g->used_by);
  }
  for (uint32_t f = 0; f < p.funcs.len; ++f) {
    koopa_raw_function_t fn = (koopa_raw_function_t)p.funcs.buffer[f];
    say("function ");
    name(fn->name);
    ty(fn->ty);
    say("\n");
    expect(fn->params, KOOPA_RSIK_VALUE);
    for (uint32_t i = 0; i < fn->params.len; ++i) {
      koopa_raw_value_t v = (koopa_raw_value_t)fn->params.buffer[i];
      say("  param ");
      name(v->name);
      ty(v->ty);
      if (v->kind.tag == KOOPA_RVT_FUNC_ARG_REF)
        say(" #%zu", v->kind.data.func_arg_ref.index);
      else
        say(" ?param");
      users(v->used_by);
    }
    expect(fn->bbs, KOOPA_RSIK_BASIC_BLOCK);
    for (uint32_t b = 0; b < fn->bbs.len; ++b) {
      koopa_raw_basic_block_t bb = (koopa_raw_basic_block_t)fn->bbs.buffer[b];
      say("  block ");
      name(bb->name);
      users(bb->used_by);
      expect(bb->params, KOOPA_RSIK_VALUE);
      for (uint32_t i = 0; i < bb->params.len; ++i) {
        koopa_raw_value_t v = (koopa_raw_value_t)bb->params.buffer[i];
        say("    param ");
        name(v->name);
        ty(v->ty);
        if (v->kind.tag == KOOPA_RVT_BLOCK_ARG_REF)
          say(" #%zu", v->kind.data.block_arg_ref.index);
        else
          say(" ?param");
        users(v->used_by);
      }
      expect(bb->insts, KOOPA_RSIK_VALUE);
      for (uint32_t i = 0; i < bb->insts.len; ++i) inst((koopa_raw_value_t)bb->insts.buffer[i]);
    }
  }
}

/* the text of a program, through a buffer that is just large enough */
static void text_of(koopa_program_t p, int llvm) {
  koopa_error_code_t (*f)(koopa_program_t, char *, size_t *) =
      llvm ? koopa_dump_llvm_to_string : koopa_dump_to_string;
  size_t len = 12345;
  koopa_error_code_t c = f(p, NULL, &len);
  say("%s %zu\n", code_name(c), len);
  if (c != KOOPA_EC_SUCCESS) return;
  char *buf = malloc(len + 1);
  size_t n = len;
  say("%s\n", code_name(f(p, buf, &n)));
  n = len + 1;
  say("%s\n", code_name(f(p, buf, &n)));
  put(buf, strlen(buf));
  say("\n");
  free(buf);
}

/* ---- building by hand ---- */

static char **toks;
static size_t n_toks, at_tok;

static const char *tok(void) {
  if (at_tok >= n_toks) abort();
  return toks[at_tok++];
}
static long num(void) { return (long)strtoull(tok(), NULL, 10); }

static void **mem;
static size_t n_mem, cap_mem;

static void *keep(size_t n) {
  if (n_mem == cap_mem) {
    cap_mem = cap_mem ? cap_mem * 2 : 256;
    mem = realloc(mem, cap_mem * sizeof *mem);
  }
  /* fields nobody sets hold rubbish */
  void *p = malloc(n ? n : 1);
  memset(p, 0xEE, n);
  return mem[n_mem++] = p;
}

static koopa_raw_slice_t slice(size_t n, koopa_raw_slice_item_kind_t k) {
  koopa_raw_slice_t s;
  s.buffer = keep(n * sizeof(void *));
  s.len = (uint32_t)n;
  s.kind = k;
  return s;
}

static koopa_raw_type_t mk_ty(void) {
  koopa_raw_type_kind_t *t = keep(sizeof *t);
  const char *s = tok();
  switch (*s) {
    case 'i': t->tag = KOOPA_RTT_INT32; break;
    case 'u': t->tag = KOOPA_RTT_UNIT; break;
    case 'a':
      t->tag = KOOPA_RTT_ARRAY;
      t->data.array.len = (size_t)num();
      t->data.array.base = mk_ty();
      break;
    case 'p':
      t->tag = KOOPA_RTT_POINTER;
      t->data.pointer.base = mk_ty();
      break;
    case 'f': {
      t->tag = KOOPA_RTT_FUNCTION;
      size_t n = (size_t)num();
      t->data.function.params = slice(n, KOOPA_RSIK_TYPE);
      for (size_t i = 0; i < n; ++i) t->data.function.params.buffer[i] = mk_ty();
      t->data.function.ret = mk_ty();
      break;
    }
    default: abort();
  }
  return t;
}

static const char *mk_name(void) {
  const char *s = tok();
  return strcmp(s, "-") ? s : NULL;
}

static koopa_raw_value_data_t *new_val(const char *n, koopa_raw_type_t t) {
  koopa_raw_value_data_t *v = keep(sizeof *v);
  v->name = n;
  v->ty = t;
  v->used_by = slice(0, KOOPA_RSIK_VALUE);
  return v;
}

static koopa_raw_value_data_t **globals, ***fparams, ****bparams, ****insts;
static koopa_raw_function_data_t **funcs;
static koopa_raw_basic_block_data_t ***blocks;

static koopa_raw_value_t mk_const(void) {
  const char *s = tok();
  koopa_raw_value_data_t *v = new_val(NULL, NULL);
  switch (*s) {
    case 'I':
      v->kind.tag = KOOPA_RVT_INTEGER;
      v->kind.data.integer.value = (int32_t)num();
      break;
    case 'Z': v->kind.tag = KOOPA_RVT_ZERO_INIT; break;
    case 'U': v->kind.tag = KOOPA_RVT_UNDEF; break;
    case 'A': {
      v->kind.tag = KOOPA_RVT_AGGREGATE;
      size_t n = (size_t)num();
      v->kind.data.aggregate.elems = slice(n, KOOPA_RSIK_VALUE);
      for (size_t i = 0; i < n; ++i) v->kind.data.aggregate.elems.buffer[i] = mk_const();
      break;
    }
    default: abort();
  }
  v->ty = mk_ty();
  return v;
}

static koopa_raw_value_t mk_op(size_t f) {
  switch (*tok()) {
    case 'c': return mk_const();
    case 'g': return globals[num()];
    case 'r': return fparams[f][num()];
    case 'q': {
      long b = num();
      return bparams[f][b][num()];
    }
    case 'v': {
      long b = num();
      return insts[f][b][num()];
    }
    case '-': return NULL;
    default: abort();
  }
}

static koopa_raw_slice_t mk_ops(size_t f) {
  size_t n = (size_t)num();
  koopa_raw_slice_t s = slice(n, KOOPA_RSIK_VALUE);
  for (size_t i = 0; i < n; ++i) s.buffer[i] = mk_op(f);
  return s;
}

static void mk_inst(size_t f, koopa_raw_value_data_t *v) {
  v->name = mk_name();
  v->ty = mk_ty();
  const char *k = tok();
  if (!strcmp(k, "alloc")) {
    v->kind.tag = KOOPA_RVT_ALLOC;
  } else if (!strcmp(k, "load")) {
    v->kind.tag = KOOPA_RVT_LOAD;
    v->kind.data.load.src = mk_op(f);
  } else if (!strcmp(k, "store")) {
    v->kind.tag = KOOPA_RVT_STORE;
    v->kind.data.store.value = mk_op(f);
    v->kind.data.store.dest = mk_op(f);
  } else if (!strcmp(k, "getptr")) {
    v->kind.tag = KOOPA_RVT_GET_PTR;
    v->kind.data.get_ptr.src = mk_op(f);
    v->kind.data.get_ptr.index = mk_op(f);
  } else if (!strcmp(k, "getelemptr")) {
    v->kind.tag = KOOPA_RVT_GET_ELEM_PTR;
    v->kind.data.get_elem_ptr.src = mk_op(f);
    v->kind.data.get_elem_ptr.index = mk_op(f);
  } else if (!strcmp(k, "branch")) {
    v->kind.tag = KOOPA_RVT_BRANCH;
    v->kind.data.branch.cond = mk_op(f);
    v->kind.data.branch.true_bb = blocks[f][num()];
    v->kind.data.branch.true_args = mk_ops(f);
    v->kind.data.branch.false_bb = blocks[f][num()];
    v->kind.data.branch.false_args = mk_ops(f);
  } else if (!strcmp(k, "jump")) {
    v->kind.tag = KOOPA_RVT_JUMP;
    v->kind.data.jump.target = blocks[f][num()];
    v->kind.data.jump.args = mk_ops(f);
  } else if (!strcmp(k, "call")) {
    v->kind.tag = KOOPA_RVT_CALL;
    v->kind.data.call.callee = funcs[num()];
    v->kind.data.call.args = mk_ops(f);
  } else if (!strcmp(k, "return")) {
    v->kind.tag = KOOPA_RVT_RETURN;
    v->kind.data.ret.value = mk_op(f);
  } else {
    v->kind.tag = KOOPA_RVT_BINARY;
    v->kind.data.binary.op = op_of(k);
    v->kind.data.binary.lhs = mk_op(f);
    v->kind.data.binary.rhs = mk_op(f);
  }
}

/* globals; signatures and shapes of functions; instructions */
static koopa_raw_program_t mk_prog(void) {
  koopa_raw_program_t p;
  size_t ng = (size_t)num();
  globals = keep(ng * sizeof *globals);
  p.values = slice(ng, KOOPA_RSIK_VALUE);
  for (size_t i = 0; i < ng; ++i) {
    const char *n = mk_name();
    koopa_raw_type_t t = mk_ty();
    globals[i] = new_val(n, t);
    globals[i]->kind.tag = KOOPA_RVT_GLOBAL_ALLOC;
    globals[i]->kind.data.global_alloc.init = mk_const();
    p.values.buffer[i] = globals[i];
  }
  size_t nf = (size_t)num();
  funcs = keep(nf * sizeof *funcs);
  fparams = keep(nf * sizeof *fparams);
  bparams = keep(nf * sizeof *bparams);
  insts = keep(nf * sizeof *insts);
  blocks = keep(nf * sizeof *blocks);
  p.funcs = slice(nf, KOOPA_RSIK_FUNCTION);
  for (size_t f = 0; f < nf; ++f) {
    funcs[f] = keep(sizeof **funcs);
    p.funcs.buffer[f] = funcs[f];
    funcs[f]->name = mk_name();
    funcs[f]->ty = mk_ty();
    size_t np = (size_t)num();
    fparams[f] = keep(np * sizeof **fparams);
    funcs[f]->params = slice(np, KOOPA_RSIK_VALUE);
    for (size_t i = 0; i < np; ++i) {
      const char *n = mk_name();
      fparams[f][i] = new_val(n, mk_ty());
      fparams[f][i]->kind.tag = KOOPA_RVT_FUNC_ARG_REF;
      fparams[f][i]->kind.data.func_arg_ref.index = i;
      funcs[f]->params.buffer[i] = fparams[f][i];
    }
    size_t nb = (size_t)num();
    blocks[f] = keep(nb * sizeof **blocks);
    bparams[f] = keep(nb * sizeof **bparams);
    insts[f] = keep(nb * sizeof **insts);
    funcs[f]->bbs = slice(nb, KOOPA_RSIK_BASIC_BLOCK);
    for (size_t b = 0; b < nb; ++b) {
      blocks[f][b] = keep(sizeof ***blocks);
      funcs[f]->bbs.buffer[b] = blocks[f][b];
      blocks[f][b]->name = mk_name();
      blocks[f][b]->used_by = slice(0, KOOPA_RSIK_VALUE);
      size_t n = (size_t)num();
      bparams[f][b] = keep(n * sizeof ***bparams);
      blocks[f][b]->params = slice(n, KOOPA_RSIK_VALUE);
      for (size_t i = 0; i < n; ++i) {
        const char *s = mk_name();
        bparams[f][b][i] = new_val(s, mk_ty());
        bparams[f][b][i]->kind.tag = KOOPA_RVT_BLOCK_ARG_REF;
        bparams[f][b][i]->kind.data.block_arg_ref.index = i;
        blocks[f][b]->params.buffer[i] = bparams[f][b][i];
      }
      n = (size_t)num();
      insts[f][b] = keep(n * sizeof ***insts);
      blocks[f][b]->insts = slice(n, KOOPA_RSIK_VALUE);
      for (size_t i = 0; i < n; ++i) {
        insts[f][b][i] = new_val(NULL, NULL);
        blocks[f][b]->insts.buffer[i] = insts[f][b][i];
      }
    }
  }
  for (size_t f = 0; f < nf; ++f)
    for (size_t b = 0; b < funcs[f]->bbs.len; ++b)
      for (size_t i = 0; i < blocks[f][b]->insts.len; ++i) mk_inst(f, insts[f][b][i]);
  return p;
}

/* ---- commands ---- */

/* parses a text, walks its raw form, converts it back */
static void cmd_parse(const char *s) {
  koopa_program_t p = NULL, q = NULL;
  koopa_error_code_t c = koopa_parse_from_string(s, &p);
  say("%s\n", code_name(c));
  if (c != KOOPA_EC_SUCCESS) return;
  koopa_raw_program_builder_t b = koopa_new_raw_program_builder();
  koopa_raw_program_t raw = koopa_build_raw_program(b, p);
  koopa_delete_program(p);
  walk(raw);
  say("%s\n", code_name(koopa_generate_raw_to_koopa(&raw, &q)));
  koopa_delete_raw_program_builder(b);
  if (!q) return;
  text_of(q, 0);
  koopa_delete_program(q);
}

/* builds a raw program by hand; `defect` damages it */
static void cmd_raw(char *s) {
  n_toks = 0;
  at_tok = 0;
  size_t cap = 0;
  for (char *t = strtok(s, " \n"); t; t = strtok(NULL, " \n")) {
    if (n_toks == cap) {
      cap = cap ? cap * 2 : 256;
      toks = realloc(toks, cap * sizeof *toks);
    }
    toks[n_toks++] = t;
  }
  const char *defect = tok();
  koopa_raw_program_t raw = mk_prog();
  if (!strcmp(defect, "kind")) raw.values.kind = KOOPA_RSIK_FUNCTION;
  if (!strcmp(defect, "name")) funcs[0]->name = NULL;
  static koopa_raw_type_kind_t bad_ty = {.tag = KOOPA_RTT_POINTER};
  if (!strcmp(defect, "type")) {
    bad_ty.data.pointer.base = funcs[0]->ty;
    funcs[0]->ty = &bad_ty;
  }
  if (!strcmp(defect, "params")) funcs[0]->params.len -= 1;
  if (!strcmp(defect, "utf8")) funcs[0]->name = "@\xff";
  koopa_program_t mark = &mark, q = mark;
  koopa_error_code_t c = koopa_generate_raw_to_koopa(&raw, &q);
  say("%s %s\n", code_name(c), q == mark ? "unchanged" : "set");
  if (c == KOOPA_EC_SUCCESS) {
    text_of(q, 0);
    koopa_raw_program_builder_t b = koopa_new_raw_program_builder();
    walk(koopa_build_raw_program(b, q));
    koopa_delete_program(q);
    koopa_delete_raw_program_builder(b);
  }
  free(toks);
  toks = NULL;
}

static void file(const char *path) {
  FILE *f = fopen(path, "rb");
  char buf[4096];
  size_t n;
  if (!f) {
    say("?file\n");
    return;
  }
  while ((n = fread(buf, 1, sizeof buf, f)) > 0) put(buf, n);
  fclose(f);
  say("\n");
}

/* every other function, over files in the current directory */
static void cmd_files(const char *s) {
  koopa_program_t p = NULL, mark = &mark, q = mark;
  FILE *f = fopen("in", "wb");
  fwrite(s, 1, strlen(s), f);
  fclose(f);
  say("%s\n", code_name(koopa_parse_from_file("missing", &q)));
  say("%s\n", code_name(koopa_parse_from_file("\xff", &q)));
  say("%s\n", code_name(koopa_parse_from_string("fun", &q)));
  say("%s\n", q == mark ? "unchanged" : "set");
  say("%s\n", code_name(koopa_parse_from_file("in", &p)));
  if (!p) return;
  text_of(p, 0);
  text_of(p, 1);
  say("%s\n", code_name(koopa_dump_to_file(p, "out")));
  koopa_delete_program(p);
  p = NULL;
  koopa_raw_file_t fd = open("out", O_RDONLY);
  say("%s\n", code_name(koopa_parse_from_raw(fd, &p)));
  if (!p) return;
  fd = open("out", O_WRONLY | O_TRUNC);
  say("%s\n", code_name(koopa_dump_to_raw(p, fd)));
  koopa_delete_program(p);
  p = NULL;
  fd = open("out", O_RDONLY);
  dup2(fd, 0);
  close(fd);
  say("%s\n", code_name(koopa_parse_from_stdin(&p)));
  close(0);
  open("/dev/null", O_RDONLY);
  if (!p) return;
  file("out");
  say("%s\n", code_name(koopa_dump_llvm_to_file(p, "out")));
  file("out");
  fd = open("out", O_WRONLY | O_TRUNC);
  say("%s\n", code_name(koopa_dump_llvm_to_raw(p, fd)));
  file("out");
  for (int llvm = 0; llvm < 2; ++llvm) {
    int old = dup(1);
    fd = open("out", O_WRONLY | O_TRUNC);
    dup2(fd, 1);
    close(fd);
    koopa_error_code_t c = llvm ? koopa_dump_llvm_to_stdout(p) : koopa_dump_to_stdout(p);
    dup2(old, 1);
    close(old);
    say("%s\n", code_name(c));
    file("out");
  }
  say("%s\n", code_name(koopa_dump_to_file(p, "/dev/full")));
  say("%s\n", code_name(koopa_dump_llvm_to_file(p, "no/such")));
  koopa_delete_program(p);
}

int main(void) {
  int in = dup(0), to = dup(1);
  int null = open("/dev/null", O_RDWR);
  dup2(null, 0);
  dup2(null, 1);
  FILE *i = fdopen(in, "rb"), *o = fdopen(to, "wb");
  for (;;) {
    unsigned char h[5];
    if (fread(h, 1, 5, i) != 5) return 0;
    size_t n = h[1] | (size_t)h[2] << 8 | (size_t)h[3] << 16 | (size_t)h[4] << 24;
    char *s = malloc(n + 1);
    if (fread(s, 1, n, i) != n) return 0;
    s[n] = 0;
    out_len = 0;
    put("", 0);
    switch (h[0]) {
      case 'P': cmd_parse(s); break;
      case 'R': cmd_raw(s); break;
      case 'F': cmd_files(s); break;
      case 'N': say("%d", (int)KOOPA_EC_NULL_BYTE_ERROR); break;
    }
    for (size_t k = 0; k < n_mem; ++k) free(mem[k]);
    n_mem = 0;
    free(s);
    unsigned char r[4] = {(unsigned char)out_len, (unsigned char)(out_len >> 8),
                          (unsigned char)(out_len >> 16), (unsigned char)(out_len >> 24)};
    fwrite(r, 1, 4, o);
    fwrite(out, 1, out_len, o);
    fflush(o);
  }
}
