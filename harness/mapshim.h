/* One face for the three maps. Compiled as C, once per container (-DHT, -DRB, -DAA). */
#ifndef MAPSHIM_H
#define MAPSHIM_H
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef void (*m_free)(void *);
typedef int32_t (*m_cmp)(const void *, const void *);
typedef bool (*m_eq)(const void *, const void *);
typedef uint32_t (*m_hash)(const void *);
int vp_junk(void);                          /* what fresh memory is full of */
void *m_alloc_object(void);                 /* uninitialised memory for the container itself */
void *m_new(size_t size, m_hash h, m_eq eq, m_cmp cmp, m_free fk, m_free fv, void *pool);
void m_init(void *m, size_t size, m_hash h, m_eq eq, m_cmp cmp, m_free fk, m_free fv, void *pool);
void m_destroy(void *m);
void m_free_(void *m);
void m_clear(void *m);
int m_set(void *m, void *key, void *value, bool ow);  /* 0 new, 1 replaced, 2 failed */
int m_remove(void *m, const void *key);
size_t m_count(const void *m);
bool m_exists(const void *m, const void *key);
void *m_lookup(void *m, const void *key);   /* pair or NULL */
void *m_pair_key(void *pair, int macro);
void *m_pair_value(void *pair, int macro);
void m_pair_set(void *pair, void *value);
void *m_iter_alloc(void);
void m_iter_init(const void *m, void *it);
void m_iter_reuse(const void *m, void *it);
void m_iter_free(void *it);
bool m_iter_next(void *it);
void *m_iter_key(void *it, int macro);
void *m_iter_value(void *it, int macro);
size_t m_node_size(void);
size_t m_size(const void *m);               /* buckets / capacity */
const void *m_root(const void *m);          /* red-black tree only */
const void *m_left(const void *n);
const void *m_right(const void *n);
int m_black(const void *n);
const void *m_node_key(const void *n);
extern const int m_has_pool, m_reusable, m_ordered, m_reports;
#ifdef __cplusplus
}
#endif
#endif
