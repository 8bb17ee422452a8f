// A C client that knows raw programs only through the shipped header: writes one down as text.
#include "koopa.h"
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static char *buf;
static size_t len, cap;
static void out(const char *f, ...) {
  char tmp[512];
  va_list a;
  va_start(a, f);
  int n = vsnprintf(tmp, sizeof tmp, f, a);
  va_end(a);
  const char *s = tmp;
  char *big = NULL;
  if (n >= (int)sizeof tmp) {
    big = malloc(n + 1);
    va_start(a, f);
    vsnprintf(big, n + 1, f, a);
    va_end(a);
    s = big;
  }
  if (len + n + 1 > cap) {
    cap = (cap + n + 1) * 2;
    buf = realloc(buf, cap);
  }
  memcpy(buf + len, s, n + 1);
  len += n;
  free(big);
}

static void type(koopa_raw_type_t t) {
  switch (t->tag) {
  case KOOPA_RTT_INT32: out("i32"); break;
  case KOOPA_RTT_UNIT: out("unit"); break;
  case KOOPA_RTT_ARRAY: out("[%zu x ", t->data.array.len); type(t->data.array.base); out("]"); break;
  case KOOPA_RTT_POINTER: out("ptr("); type(t->data.pointer.base); out(")"); break;
  case KOOPA_RTT_FUNCTION:
    out("fn(");
    if (t->data.function.params.kind != KOOPA_RSIK_TYPE) out("BADKIND");
    for (uint32_t i = 0; i < t->data.function.params.len; i++) {
      if (i) out(",");
      type((koopa_raw_type_t)t->data.function.params.buffer[i]);
    }
    out(")->");
    type(t->data.function.ret);
    break;
  default: out("BADTYPE%d", (int)t->tag);
  }
}

static int temp(const char *s) {
  for (; *s; s++)
    if (*s != '%' && (*s < '0' || *s > '9')) return 0;
  return 1;
}
static void name(const char *s) {
  if (s && !temp(s)) out(" '%s'", s);
}

// labels of the objects of the current function and of the globals
typedef struct { const void *p; char l[32]; } lab_t;
static lab_t *labv;
static size_t nlabv, clabv;
static void label(const void *p, const char *f, unsigned a, unsigned b) {
  if (nlabv == clabv) {
    clabv = clabv * 2 + 64;
    labv = realloc(labv, clabv * sizeof *labv);
  }
  labv[nlabv].p = p;
  snprintf(labv[nlabv].l, sizeof labv[nlabv].l, f, a, b);
  nlabv++;
}
static const char *find(const void *p) {
  for (size_t i = 0; i < nlabv; i++)
    if (labv[i].p == p) return labv[i].l;
  return NULL;
}

static const char *op(koopa_raw_binary_op_t o) {
  switch (o) {
  case KOOPA_RBO_NOT_EQ: return "ne";
  case KOOPA_RBO_EQ: return "eq";
  case KOOPA_RBO_GT: return "gt";
  case KOOPA_RBO_LT: return "lt";
  case KOOPA_RBO_GE: return "ge";
  case KOOPA_RBO_LE: return "le";
  case KOOPA_RBO_ADD: return "add";
  case KOOPA_RBO_SUB: return "sub";
  case KOOPA_RBO_MUL: return "mul";
  case KOOPA_RBO_DIV: return "div";
  case KOOPA_RBO_MOD: return "mod";
  case KOOPA_RBO_AND: return "and";
  case KOOPA_RBO_OR: return "or";
  case KOOPA_RBO_XOR: return "xor";
  case KOOPA_RBO_SHL: return "shl";
  case KOOPA_RBO_SHR: return "shr";
  case KOOPA_RBO_SAR: return "sar";
  }
  return "BADOP";
}

static void constant(koopa_raw_value_t v, int global);
static void consts(koopa_raw_slice_t s) {
  if (s.kind != KOOPA_RSIK_VALUE) out("BADKIND");
  for (uint32_t i = 0; i < s.len; i++) {
    if (i) out(", ");
    constant((koopa_raw_value_t)s.buffer[i], 0);
  }
}
static void constant(koopa_raw_value_t v, int global) {
  switch (v->kind.tag) {
  case KOOPA_RVT_INTEGER: out("int %d", (int)v->kind.data.integer.value); break;
  case KOOPA_RVT_ZERO_INIT: out("zero "); type(v->ty); break;
  case KOOPA_RVT_UNDEF: out("undef "); type(v->ty); break;
  case KOOPA_RVT_AGGREGATE:
    out("agg ");
    type(v->ty);
    out(" {");
    consts(v->kind.data.aggregate.elems);
    out("}");
    break;
  default: out("BADCONST%d", (int)v->kind.tag);
  }
}
static void val(koopa_raw_value_t v) {
  const char *l = find(v);
  if (l) out("%s", l);
  else constant(v, 0);
}
static void vals(koopa_raw_slice_t s) {
  if (s.kind != KOOPA_RSIK_VALUE) out("BADKIND");
  for (uint32_t i = 0; i < s.len; i++) {
    if (i) out(", ");
    val((koopa_raw_value_t)s.buffer[i]);
  }
}
static const char *bb(koopa_raw_basic_block_t b) {
  const char *l = find(b);
  return l ? l : "BADBLOCK";
}

static void inst(koopa_raw_value_t v) {
  switch (v->kind.tag) {
  case KOOPA_RVT_ALLOC: out("alloc"); break;
  case KOOPA_RVT_LOAD: out("load "); val(v->kind.data.load.src); break;
  case KOOPA_RVT_STORE: out("store "); val(v->kind.data.store.value); out(" -> "); val(v->kind.data.store.dest); break;
  case KOOPA_RVT_GET_PTR: out("getptr "); val(v->kind.data.get_ptr.src); out(" ["); val(v->kind.data.get_ptr.index); out("]"); break;
  case KOOPA_RVT_GET_ELEM_PTR: out("getelemptr "); val(v->kind.data.get_elem_ptr.src); out(" ["); val(v->kind.data.get_elem_ptr.index); out("]"); break;
  case KOOPA_RVT_BINARY: out("%s ", op(v->kind.data.binary.op)); val(v->kind.data.binary.lhs); out(", "); val(v->kind.data.binary.rhs); break;
  case KOOPA_RVT_BRANCH:
    out("br ");
    val(v->kind.data.branch.cond);
    out(" %s(", bb(v->kind.data.branch.true_bb));
    vals(v->kind.data.branch.true_args);
    out(") %s(", bb(v->kind.data.branch.false_bb));
    vals(v->kind.data.branch.false_args);
    out(")");
    break;
  case KOOPA_RVT_JUMP: out("jump %s(", bb(v->kind.data.jump.target)); vals(v->kind.data.jump.args); out(")"); break;
  case KOOPA_RVT_CALL: out("call %s(", v->kind.data.call.callee->name); vals(v->kind.data.call.args); out(")"); break;
  case KOOPA_RVT_RETURN: out("ret "); if (v->kind.data.ret.value) val(v->kind.data.ret.value); break;
  default: out("BADINST%d", (int)v->kind.tag);
  }
}

const char *client_text(const koopa_raw_program_t *p) {
  len = 0;
  nlabv = 0;
  out("%s", "");
  if (p->values.kind != KOOPA_RSIK_VALUE || p->funcs.kind != KOOPA_RSIK_FUNCTION) out("BADKIND");
  for (uint32_t i = 0; i < p->values.len; i++) {
    koopa_raw_value_t v = p->values.buffer[i];
    label(v, "g%u", i, 0);
    out("global g%u", i);
    name(v->name);
    out(": ");
    type(v->ty);
    out(" = ");
    if (v->kind.tag == KOOPA_RVT_GLOBAL_ALLOC) constant(v->kind.data.global_alloc.init, 1);
    else out("BADGLOBAL%d", (int)v->kind.tag);
    out("\n");
  }
  size_t keep = nlabv;
  for (uint32_t fi = 0; fi < p->funcs.len; fi++) {
    koopa_raw_function_t f = p->funcs.buffer[fi];
    nlabv = keep;
    if (f->params.kind != KOOPA_RSIK_VALUE || f->bbs.kind != KOOPA_RSIK_BASIC_BLOCK) out("BADKIND");
    out("%s %s : ", f->bbs.len ? "fun" : "decl", f->name);
    type(f->ty);
    out("\n");
    if (f->bbs.len)
      for (uint32_t i = 0; i < f->params.len; i++) {
        koopa_raw_value_t v = f->params.buffer[i];
        label(v, "p%u", i, 0);
        out("  param p%u", i);
        name(v->name);
        out(": ");
        type(v->ty);
        if (v->kind.tag != KOOPA_RVT_FUNC_ARG_REF || v->kind.data.func_arg_ref.index != i) out("BADPARAM");
        out("\n");
      }
    for (uint32_t k = 0; k < f->bbs.len; k++) {
      koopa_raw_basic_block_t b = f->bbs.buffer[k];
      label(b, "b%u", k, 0);
      for (uint32_t j = 0; j < b->params.len; j++) label(b->params.buffer[j], "b%up%u", k, j);
      for (uint32_t j = 0; j < b->insts.len; j++) label(b->insts.buffer[j], "v%u.%u", k, j);
    }
    for (uint32_t k = 0; k < f->bbs.len; k++) {
      koopa_raw_basic_block_t b = f->bbs.buffer[k];
      if (b->params.kind != KOOPA_RSIK_VALUE || b->insts.kind != KOOPA_RSIK_VALUE || b->used_by.kind != KOOPA_RSIK_VALUE) out("BADKIND");
      out("  block b%u", k);
      name(b->name);
      out(" (");
      for (uint32_t j = 0; j < b->params.len; j++) {
        koopa_raw_value_t v = b->params.buffer[j];
        if (j) out(", ");
        type(v->ty);
        name(v->name);
        if (v->kind.tag != KOOPA_RVT_BLOCK_ARG_REF || v->kind.data.block_arg_ref.index != j) out("BADPARAM");
      }
      out(")\n");
      for (uint32_t j = 0; j < b->insts.len; j++) {
        koopa_raw_value_t v = b->insts.buffer[j];
        out("    v%u.%u", k, j);
        name(v->name);
        out(": ");
        type(v->ty);
        out(" = ");
        inst(v);
        out("\n");
      }
    }
    // numbers of users
    for (uint32_t k = 0; k < f->bbs.len; k++) {
      koopa_raw_basic_block_t b = f->bbs.buffer[k];
      out("  users b%u %u\n", k, b->used_by.len);
      for (uint32_t j = 0; j < b->insts.len; j++) {
        koopa_raw_value_t v = b->insts.buffer[j];
        if (v->used_by.kind != KOOPA_RSIK_VALUE) out("BADKIND");
        out("  users v%u.%u %u\n", k, j, v->used_by.len);
      }
    }
  }
  return buf;
}

// sizes, offsets and tags as a C compiler sees them, in the order the harness lists them
#define OFF(t, f) offsetof(t, f)
static const size_t table[] = {
#include "table.inc"
};
const size_t *client_table(size_t *n) {
  *n = sizeof table / sizeof *table;
  return table;
}
