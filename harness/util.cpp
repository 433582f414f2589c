// Verification harness: names for the small utilities.  No logic of its own.
#include "cler_utils.hpp"
#define EXP extern "C" __attribute__((used))
EXP size_t u__floor2p2(size_t x) { return cler::floor2p2(x); }
EXP size_t u__ceil2p2(size_t x) { return cler::ceil2p2(x); }
EXP bool u__is_power_of_2(size_t x) { return cler::is_power_of_2(x); }
EXP bool u__is_fatal(int e) { return cler::is_fatal(static_cast<cler::Error>(e)); }
EXP const char *u__to_str(int e) { return cler::to_str(static_cast<cler::Error>(e)); }
EXP const char *u__error_to_cstring(int e) { return cler::error_to_cstring(static_cast<cler::Error>(e)); }
EXP int u__first_fatal() { return static_cast<int>(cler::Error::TERMINATE_FLOWGRAPH); }
EXP int u__err(int k) {
    static const cler::Error all[] = {cler::Error::OK, cler::Error::Unknown, cler::Error::NotEnoughSamples, cler::Error::NotEnoughSpace,
        cler::Error::NotEnoughSpaceOrSamples, cler::Error::ProcedureError, cler::Error::BadData, cler::Error::TERMINATE_FLOWGRAPH,
        cler::Error::TERM_InvalidChannelIndex, cler::Error::TERM_ProcedureError, cler::Error::TERM_IOError, cler::Error::TERM_EOFReached};
    return static_cast<int>(all[k]);
}

#define RES(TAG, T)                                                                                    \
  typedef cler::Result<T, cler::Error> R_##TAG;                                                        \
  EXP size_t TAG##__sizeof() { return sizeof(R_##TAG); }                                               \
  EXP size_t TAG##__vsizeof() { return sizeof(T); }                                                    \
  EXP void TAG##__of_value(R_##TAG *r, const T *v) { new (r) R_##TAG(*v); }                            \
  EXP void TAG##__of_error(R_##TAG *r, const cler::Error *e) { new (r) R_##TAG(*e); }                  \
  EXP void TAG##__copy(R_##TAG *r, const R_##TAG *o) { new (r) R_##TAG(*o); }                          \
  EXP void TAG##__move(R_##TAG *r, R_##TAG *o) { new (r) R_##TAG(std::move(*o)); }                     \
  EXP void TAG##__assign(R_##TAG *r, const R_##TAG *o) { *r = *o; }                                    \
  EXP void TAG##__massign(R_##TAG *r, R_##TAG *o) { *r = std::move(*o); }                              \
  EXP bool TAG##__is_ok(const R_##TAG *r) { return r->is_ok(); }                                       \
  EXP bool TAG##__is_err(const R_##TAG *r) { return r->is_err(); }                                     \
  EXP T *TAG##__unwrap(R_##TAG *r) { return &r->unwrap(); }                                            \
  EXP cler::Error *TAG##__unwrap_err(R_##TAG *r) { return &r->unwrap_err(); }
struct P24 { uint64_t a, b, c; };
RES(re, cler::Empty)
RES(rz, size_t)
RES(rp, P24)
RES(rb, bool)

#define STR(TAG, N)                                                                                    \
  typedef cler::EmbeddableString<N> S_##TAG;                                                           \
  EXP size_t TAG##__sizeof() { return sizeof(S_##TAG); }                                               \
  EXP void *TAG##__at_data(S_##TAG *s) { return s->_data; }                                            \
  EXP void *TAG##__at_len(S_##TAG *s) { return &s->_len; }                                             \
  EXP void TAG##__ctor(S_##TAG *s) { new (s) S_##TAG(); }                                              \
  EXP void TAG##__of_cstr(S_##TAG *s, const char *t) { new (s) S_##TAG(t); }                           \
  EXP void TAG##__of_string(S_##TAG *s, const std::string *t) { new (s) S_##TAG(*t); }                 \
  EXP void TAG##__copy(S_##TAG *s, const S_##TAG *o) { new (s) S_##TAG(*o); }                          \
  EXP void TAG##__assign(S_##TAG *s, const S_##TAG *o) { *s = *o; }                                    \
  EXP void TAG##__assign_cstr(S_##TAG *s, const char *t) { *s = t; }                                   \
  EXP void TAG##__plus_cstr(S_##TAG *r, const S_##TAG *s, const char *t) { new (r) S_##TAG(*s + t); }  \
  EXP void TAG##__plus(S_##TAG *r, const S_##TAG *s, const S_##TAG *t) { new (r) S_##TAG(*s + *t); }   \
  EXP size_t TAG##__length(const S_##TAG *s) { return s->length(); }                                   \
  EXP bool TAG##__empty(const S_##TAG *s) { return s->empty(); }                                       \
  EXP const char *TAG##__c_str(const S_##TAG *s) { return s->c_str(); }                                \
  EXP const char *TAG##__conv(const S_##TAG *s) { return *s; }
STR(s64, 64)
STR(s8, 8)
STR(s2, 2)
STR(s1, 1)
EXP size_t str__off_ptr() { return 0; }
EXP void str__layout(const std::string *s, const char **p, size_t *n) { *p = s->c_str(); *n = s->size(); }
