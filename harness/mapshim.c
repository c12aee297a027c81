#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <limits.h>
#include "mapshim.h"
#include "datatypes.h"
#if defined(HT)
#include "hashtable.h"
typedef HashTable M; typedef HashTablePair P; typedef HashTableIter I;
#define F(x) hashtable_##x
const int m_has_pool = 0, m_reusable = 0, m_ordered = 0, m_reports = 0;
void *m_new(size_t size, m_hash h, m_eq eq, m_cmp cmp, m_free fk, m_free fv, void *pool) { return hashtable_new(size, h, eq, fk, fv); }
void m_init(void *m, size_t size, m_hash h, m_eq eq, m_cmp cmp, m_free fk, m_free fv, void *pool) { hashtable_init(m, size, h, eq, fk, fv); }
int m_set(void *m, void *k, void *v, bool ow) { HashTableInsertResult r = hashtable_set(m, k, v, ow); return r == HASHTABLE_INSERT_RESULT_NEW ? 0 : r == HASHTABLE_INSERT_RESULT_REPLACED ? 1 : 2; }
int m_remove(void *m, const void *k) { hashtable_remove(m, k); return 0; }
size_t m_node_size(void) { return 0; }
size_t m_size(const void *m) { return ((const M *)m)->size; }
void m_iter_reuse(const void *m, void *it) { hashtable_iter_init(m, it); }
void m_iter_free(void *it) {}
#elif defined(RB)
#include "rbtree.h"
typedef RBTree M; typedef RBTreePair P; typedef RBTreeIter I;
#define F(x) rbtree_##x
const int m_has_pool = 1, m_reusable = 1, m_ordered = 0, m_reports = 1;
void *m_new(size_t size, m_hash h, m_eq eq, m_cmp cmp, m_free fk, m_free fv, void *pool) { return rbtree_new(cmp, fk, fv, pool); }
void m_init(void *m, size_t size, m_hash h, m_eq eq, m_cmp cmp, m_free fk, m_free fv, void *pool) { rbtree_init(m, cmp, fk, fv, pool); }
int m_set(void *m, void *k, void *v, bool ow) { RBTreeInsertResult r = rbtree_set(m, k, v, ow); return r == RBTREE_INSERT_RESULT_NEW ? 0 : r == RBTREE_INSERT_RESULT_REPLACED ? 1 : 2; }
int m_remove(void *m, const void *k) { return rbtree_remove(m, k); }
size_t m_node_size(void) { return sizeof(RBNode); }
size_t m_size(const void *m) { return 0; }
void m_iter_reuse(const void *m, void *it) { rbtree_iter_reuse(m, it); }
void m_iter_free(void *it) { rbtree_iter_free(it); }
const void *m_root(const void *m) { return ((const M *)m)->root; }
const void *m_left(const void *n) { return ((const RBNode *)n)->left; }
const void *m_right(const void *n) { return ((const RBNode *)n)->right; }
int m_black(const void *n) { return ((const RBNode *)n)->black; }
const void *m_node_key(const void *n) { return ((const RBNode *)n)->key; }
#else
#include "assocarray.h"
typedef AssocArray M; typedef AssocArrayPair P; typedef AssocArrayIter I;
#define F(x) assoc_array_##x
const int m_has_pool = 0, m_reusable = 0, m_ordered = 1, m_reports = 0;
void *m_new(size_t size, m_hash h, m_eq eq, m_cmp cmp, m_free fk, m_free fv, void *pool) { return assoc_array_new(cmp, fk, fv); }
void m_init(void *m, size_t size, m_hash h, m_eq eq, m_cmp cmp, m_free fk, m_free fv, void *pool) { assoc_array_init(m, cmp, fk, fv); }
int m_set(void *m, void *k, void *v, bool ow) { AssocArrayInsertResult r = assoc_array_set(m, k, v, ow); return r == ASSOCARRAY_INSERT_RESULT_NEW ? 0 : r == ASSOCARRAY_INSERT_RESULT_REPLACED ? 1 : 2; }
int m_remove(void *m, const void *k) { assoc_array_remove(m, k); return 0; }
size_t m_node_size(void) { return 0; }
size_t m_size(const void *m) { return assoc_array_size(m); }
void m_iter_reuse(const void *m, void *it) { assoc_array_iter_init(m, it); }
void m_iter_free(void *it) {}
#endif
#ifndef RB
const void *m_root(const void *m) { return 0; }
const void *m_left(const void *n) { return 0; }
const void *m_right(const void *n) { return 0; }
int m_black(const void *n) { return 0; }
const void *m_node_key(const void *n) { return 0; }
#endif
void *m_alloc_object(void) { void *p = malloc(sizeof(M)); memset(p, vp_junk(), sizeof(M)); return p; }
void m_destroy(void *m) { F(destroy)(m); }
void m_free_(void *m) { F(free)(m); }
void m_clear(void *m) { F(clear)(m); }
size_t m_count(const void *m) { return F(count)(m); }
bool m_exists(const void *m, const void *k) { return F(key_exists)(m, k); }
void *m_lookup(void *m, const void *k) { return F(lookup)(m, k); }
void *m_pair_key(void *p, int macro) { P *q = p; return macro ? F(pair_key)(q) : F(pair_get_key)(q); }
void *m_pair_value(void *p, int macro) { P *q = p; return macro ? F(pair_value)(q) : F(pair_get_value)(q); }
void m_pair_set(void *p, void *v) { F(pair_set_value)(p, v); }
void *m_iter_alloc(void) { I *it = malloc(sizeof(I)); memset(it, vp_junk(), sizeof(I)); return it; }
void m_iter_init(const void *m, void *it) { F(iter_init)(m, it); }
bool m_iter_next(void *it) { return F(iter_next)(it); }
#define ITM(x, it) ({ I i_ = *(I *)it; F(x)(i_); })
void *m_iter_key(void *it, int macro) { if(macro) { I i_ = *(I *)it; return F(iter_key)(i_); } return F(iter_get_key)(it); }
void *m_iter_value(void *it, int macro) { if(macro) { I i_ = *(I *)it; return F(iter_value)(i_); } return F(iter_get_value)(it); }
