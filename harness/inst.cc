// Entry points for the verifier: they only call the public interface of the library, so that the
// functions under contract (including header templates) are present in the verified IR.
#include <any>
#include <cstddef>
#include <cstdint>
#include <memory>
#include <new>
#include <optional>
#include <string>
#include <vector>

#include "expr/codec.h"
#include "expr/operand.h"
#include "expr/operand_stack.h"
#include "expr/operator.h"
#include "expr/operator_vector.h"
#include "expr/runner.h"
#include "expr/types.h"
#include "expr/utils.h"
#include "rel/op/agg.h"
#include "rel/op/filter_op.h"
#include "rel/op/grouped_agg_op.h"
#include "rel/op/project_op.h"
#include "rel/op/rel_op.h"
#include "rel/op/tandem_op.h"
#include "rel/op/ungrouped_agg_op.h"
#include "rel/rel_runner.h"

using namespace dingodb::expr;
using dingodb::rel::RelOp;
using dingodb::rel::RelRunner;
namespace op = dingodb::rel::op;

extern "C" {
extern const size_t vh_sizes[] = {sizeof(OperatorVector), sizeof(OperandStack), sizeof(Runner), sizeof(RelRunner),
                                  sizeof(Operand), sizeof(Tuple), sizeof(std::any), sizeof(std::string), sizeof(String)};

//@section opvec
void vh_ov_new(OperatorVector *v) { new (v) OperatorVector(); }
void vh_ov_del(OperatorVector *v) { v->~OperatorVector(); }
const Byte *vh_ov_decode(OperatorVector *v, const Byte *code, size_t len) { return v->Decode(code, len); }
const Operator *vh_ov_at(OperatorVector *v, long i) { return *(v->begin() + i); }
long vh_ov_count(OperatorVector *v) { return v->end() - v->begin(); }
const Operator *const *vh_ov_begin(OperatorVector *v) { return &*v->begin(); }
Byte vh_ov_type(OperatorVector *v) { return v->GetType(); }
Byte vh_op_type(const Operator *o) { return o->GetType(); }
void vh_op_apply(const Operator *o, OperandStack *s) { (*o)(*s); }

//@section stack
void vh_st_new(OperandStack *s) { new (s) OperandStack(); }
void vh_st_bind(OperandStack *s, const Tuple *t) { s->BindTuple(t); }
size_t vh_st_size(OperandStack *s) { return s->Size(); }
void vh_st_pop(OperandStack *s) { s->Pop(); }
void vh_st_get(Operand *out, OperandStack *s) { new (out) Operand(s->Get()); }
void vh_st_push(OperandStack *s, const Operand *v) { s->Push(*v); }
void vh_st_clear(OperandStack *s) { s->Clear(); }

//@section runner
void vh_rn_new(Runner *r) { new (r) Runner(); }
void vh_rn_del(Runner *r) { r->~Runner(); }
const Byte *vh_rn_decode(Runner *r, const Byte *code, size_t len) { return r->Decode(code, len); }
void vh_rn_bind(Runner *r, const Tuple *t) { r->BindTuple(t); }
void vh_rn_run(Runner *r) { r->Run(); }
void vh_rn_get(Operand *out, Runner *r) { new (out) Operand(r->Get()); }
Tuple *vh_rn_all(Runner *r) { return r->GetAll(); }
Byte vh_rn_type(Runner *r) { return r->GetType(); }
#define VH_OPT(n, T) \
  bool vh_rn_opt_##n(T *out, Runner *r) { auto o = r->GetOptional<T>(); if (o.has_value()) { *out = *o; return true; } return false; }
VH_OPT(i32, int32_t)
VH_OPT(i64, int64_t)
VH_OPT(bool, bool)
VH_OPT(f32, float)
VH_OPT(f64, double)
bool vh_rn_opt_str(std::string *out, Runner *r) { auto o = r->GetOptional<String>(); if (o.has_value()) { *out = **o; return true; } return false; }

//@section operand
bool vh_od_eq(const Operand *a, const Operand *b) { return *a == *b; }
bool vh_od_ne(const Operand *a, const Operand *b) { return *a != *b; }
bool vh_od_eqnull(const Operand *a) { return *a == nullptr; }
bool vh_od_nenull(const Operand *a) { return *a != nullptr; }
size_t vh_od_hash(const Operand *a) { return std::hash<Operand>()(*a); }
size_t vh_tp_hash(const Tuple *a) { return std::hash<Tuple>()(*a); }
void vh_od_copy(Operand *out, const Operand *a) { new (out) Operand(*a); }
void vh_od_null(Operand *out) { new (out) Operand(nullptr); }
void vh_od_default(Operand *out) { new (out) Operand(); }
void vh_od_of_i32(Operand *out, int32_t v) { new (out) Operand(v); }
void vh_od_of_i64(Operand *out, int64_t v) { new (out) Operand(v); }
void vh_od_of_bool(Operand *out, bool v) { new (out) Operand(v); }
void vh_od_of_f32(Operand *out, float v) { new (out) Operand(v); }
void vh_od_of_f64(Operand *out, double v) { new (out) Operand(v); }
void vh_od_of_str(Operand *out, const std::string *v) { new (out) Operand(String(*v)); }
void vh_od_of_ptr(Operand *out, const std::string *v) { new (out) Operand(std::make_shared<std::string>(*v)); }
int32_t vh_od_get_i32(const Operand *a) { return a->GetValue<int32_t>(); }
int64_t vh_od_get_i64(const Operand *a) { return a->GetValue<int64_t>(); }
bool vh_od_get_bool(const Operand *a) { return a->GetValue<bool>(); }
float vh_od_get_f32(const Operand *a) { return a->GetValue<float>(); }
double vh_od_get_f64(const Operand *a) { return a->GetValue<double>(); }
void vh_od_get_str(std::string *out, const Operand *a) { new (out) std::string(*a->GetValue<String>()); }
#define VH_SREL(n, o) bool vh_s_##n(const std::string *a, const std::string *b) { return String(*a) o String(*b); }
VH_SREL(eq, ==)
VH_SREL(ne, !=)
VH_SREL(lt, <)
VH_SREL(le, <=)
VH_SREL(gt, >)
VH_SREL(ge, >=)
size_t vh_s_hash(const std::string *a) { return std::hash<String>()(String(*a)); }
#define VH_ANY(n, T) \
  void vh_any_rt_##n(Operand *out, const Operand *a) { \
    new (out) Operand(any_optional_data_adaptor::ToOperand<T>(any_optional_data_adaptor::FromOperand<T>(*a))); } \
  void vh_any_to_##n(Operand *out, bool has, const T *v) { \
    std::any x = has ? std::optional<T>(*v) : std::optional<T>(); \
    new (out) Operand(any_optional_data_adaptor::ToOperand<T>(x)); } \
  bool vh_any_from_##n(T *out, const Operand *a) { \
    std::any x = any_optional_data_adaptor::FromOperand<T>(*a); \
    const auto o = std::any_cast<const std::optional<T>>(x); \
    if (o.has_value()) { *out = *o; return true; } return false; }
VH_ANY(i32, int32_t)
VH_ANY(i64, int64_t)
VH_ANY(bool, bool)
VH_ANY(f32, float)
VH_ANY(f64, double)
VH_ANY(str, String::ValueType)

//@section rel
void vh_rr_new(RelRunner *r) { new (r) RelRunner(); }
void vh_rr_del(RelRunner *r) { r->~RelRunner(); }
const Byte *vh_rr_decode(RelRunner *r, const Byte *code, size_t len) { return r->Decode(code, len); }
const Tuple *vh_rr_put(RelRunner *r, const Tuple *t) { return r->Put(t); }
const Tuple *vh_rr_get(RelRunner *r) { return r->Get(); }
RelOp *vh_filter_new(Runner *r) { return new op::FilterOp(r); }
RelOp *vh_project_new(Runner *r) { return new op::ProjectOp(r); }
RelOp *vh_tandem_new(const RelOp *a, const RelOp *b) { return new op::TandemOp(a, b); }
RelOp *vh_ungrouped_new(const std::vector<const op::Agg *> *aggs) { return new op::UngroupedAggOp(aggs); }
RelOp *vh_grouped_new(const int *ix, size_t n, const std::vector<const op::Agg *> *aggs) { return new op::GroupedAggOp(ix, n, aggs); }
const Tuple *vh_ro_put(const RelOp *o, const Tuple *t) { return o->Put(t); }
const Tuple *vh_ro_get(const RelOp *o) { return o->Get(); }
void vh_ro_del(const RelOp *o) { delete o; }
std::vector<const op::Agg *> *vh_aggs_new(size_t n) { return new std::vector<const op::Agg *>(n); }
Tuple *vh_tuple_new(size_t n) { return new Tuple(n); }
void vh_agg_add(Operand *out, const op::Agg *a, const Operand *v, const Tuple *t) { new (out) Operand(a->Add(*v, t)); }
void vh_agg_del(const op::Agg *a) { delete a; }
const Byte *vh_agg_decode(const op::Agg **out, const Byte *p, const Byte *end) { return DecodeValue<const op::Agg *>(*out, p, end); }

//@section codec
#define VH_DEC(n, T) const Byte *vh_dec_##n(T *v, const Byte *p, const Byte *e) { return DecodeValue(*v, p, e); }
VH_DEC(i32, int)
VH_DEC(i64, long)
VH_DEC(ll, long long)
VH_DEC(u32, unsigned int)
VH_DEC(u64, unsigned long)
VH_DEC(ull, unsigned long long)
VH_DEC(f32, float)
VH_DEC(f64, double)
void vh_str_new(String *s) { new (s) String(); }
void vh_str_get(std::string *out, const String *s) { new (out) std::string(**s); }
const Byte *vh_dec_str(String *v, const Byte *p, const Byte *e) { return DecodeValue(*v, p, e); }
const Byte *vh_dec_array(int32_t **a, size_t *n, const Byte *p, size_t len) { return DecodeArray(*a, *n, p, len); }
const Byte *vh_dec_aggs(std::vector<const op::Agg *> **v, const Byte *p, size_t len) { return DecodeVector(*v, p, len); }

//@section helper
int vh_hex_nibble(char c) { return HexToNibble(c); }
char vh_nibble_hex(int n) { return NibbleToHex(n); }
void vh_hex_bytes(Byte *buf, const char *hex, size_t len) { HexToBytes(buf, hex, len); }
void vh_bytes_hex(char *hex, const Byte *buf, size_t len) { BytesToHex(hex, buf, len); }
void vh_hex_of(std::string *out, const Byte *data, size_t len) { new (out) std::string(HexOfBytes(data, len)); }
Tuple *vh_concat(const Tuple *a, const Tuple *b) { return ConcatTuple(*a, *b); }
Tuple *vh_map(const Tuple *a, const int *ix, size_t n) { return MapTuple(*a, ix, n); }
}
