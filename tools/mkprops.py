#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the statements are easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

H, I, S, F, C = "histories", "inputs", "schedules", "fault_sequences", "configurations"

# ---------------------------------------------------------------- doubly-linked list
p("L01", "A doubly-linked list is the sequence its history defines",
  "After every history of operations on a List, walking it forwards from the head and backwards from the tail yields exactly the sequence of data pointers the history defines (and its reverse), and count, emptiness, head and tail agree with that sequence. An item handle returned by an insertion stays valid and keeps its data until that very item is removed, popped or cleared. Popping returns the first item's data, or NULL on an empty list.",
  [H, I, C], "all histories of append, prepend, sorted insert, remove, remove-by-data, pop, clear, set/free item data, with duplicate and NULL data, with and without free function, with and without a pool",
  "test-list.c runs about two dozen fixed scripts on lists of at most six strings; link repair after mixed insert/remove histories (single item, head, tail, re-filled list) is only sampled.",
  ["list.c", "list.h"], [("append/prepend link repair", "list.c:list_append,list_prepend"), ("detach of head/middle/tail/only item", "list.c:_list_detach"), ("pop", "list.c:list_pop")],
  [("head, tail, next, prev, count", "the linked sequence", "list.h:List,ListItem")], ["list_head", "list_tail", "list_item_next", "list_item_prev", "list_count", "list_empty"])
p("L02", "Sorted insertion into a doubly-linked list keeps it sorted and intact",
  "Inserting data with list_insert_sorted into a list that is sorted by its compare function leaves a list that is still sorted and contains exactly the previous items in their previous relative order plus the new one. The returned handle is the new item, and forward links, backward links, head, tail and count all account for it. This holds wherever the new data belongs: before the head, between two items, among equal items or after the tail.",
  [H, I], "all sorted lists and all inserted values, including values that fall strictly between existing items and duplicates",
  "The only sorted test inserts c, b, a (always a new head), so the middle position is never exercised.",
  ["list.c"], [("position search and link splice", "list.c:_list_prepend_new_sorted"), ("append shortcut / first item", "list.c:list_insert_sorted")], (), ["list_insert_sorted", "list_head", "list_tail"])
p("L03", "List search and removal by data are exact",
  "list_contains is true exactly when some item compares equal to the searched data, and list_find returns an item that compares equal and lies at or after the given start item (the head if none is given), or NULL exactly when no such item exists. list_remove_by_data removes precisely the first item that compares equal, or all of them when asked to, and leaves every other item in place and in order, also when the given data are those of a stored item and are freed by the call.",
  [H, I], "all list contents with duplicates, all start positions, all searched values present or absent",
  "Tests search lists of two items and remove from three fixed six-item lists; lengths, start offsets and match positions interact (the search runs from both ends at once).",
  ["list.c"], [("two-ended search", "list.c:_list_find"), ("remove by data", "list.c:list_remove_by_data")], (), ["list_find", "list_contains", "list_remove_by_data"])
p("L04", "A doubly-linked list frees data and nodes exactly once",
  "The list's free function is applied exactly once to the non-NULL data of every item that is removed, cleared or destroyed, and never to data handed back by pop, to NULL data, or to data of items still in the list. A list that was given a pool takes every node from that pool. Every node obtained from the list's pool (or the heap) is given back exactly once, to the same pool, at the latest when the list is destroyed; a list without a free function never frees data.",
  [H, I, C], "all histories ending in clear, free or destroy, for every combination of free function and pool",
  "Tests never count free calls and never check that pool items or heap memory come back.",
  ["list.c"], [("item release", "list.c:_list_item_free"), ("clear/free/destroy", "list.c:list_clear,list_free,list_destroy"), ("free item data", "list.c:list_item_free_data")], (), ["FreeFunc calls", "Pool alloc/free calls", "heap"])
# ---------------------------------------------------------------- singly-linked list
p("S01", "A singly-linked list is the sequence its history defines",
  "After every history of operations on an SList, walking it from the head yields exactly the sequence of data pointers the history defines, and count, emptiness, head and the tail used by later appends agree with that sequence. An item handle stays valid until that item is removed, popped or cleared. Popping returns the first item's data, or NULL on an empty list.",
  [H, I, C], "all histories of append, prepend, sorted insert, remove, remove-by-data, pop, clear, set/free item data, with duplicate and NULL data, with and without free function and pool",
  "test-slist.c runs fixed scripts on at most six strings; a stale tail after removing the last item only shows when something is appended afterwards.",
  ["slist.c", "slist.h"], [("tail maintenance on removal", "slist.c:slist_remove,slist_remove_by_data,slist_pop"), ("append/prepend", "slist.c:slist_append,slist_prepend")],
  [("head, tail, next, count", "the linked sequence", "slist.h:SList,SListItem")], ["slist_head", "slist_item_next", "slist_count", "slist_empty", "tail"])
p("S02", "Sorted insertion into a singly-linked list keeps it sorted and intact",
  "Inserting data with slist_insert_sorted into a list that is sorted by its compare function leaves a list that is still sorted and contains exactly the previous items in their previous relative order plus the new one. The returned handle is the new item, and links, head, tail and count account for it, wherever the new data belongs.",
  [H, I], "all sorted lists and all inserted values, including values strictly between existing items and duplicates",
  "The only sorted test inserts c, b, a (always a new head).",
  ["slist.c"], [("position search and splice", "slist.c:_slist_prepend_new_sorted"), ("append shortcut", "slist.c:slist_insert_sorted")], (), ["slist_insert_sorted", "slist_head"])
p("S03", "Singly-linked list search and removal by data are exact",
  "slist_contains is true exactly when some item compares equal to the searched data, and slist_find returns the first item at or after the given start item (the head if none is given) that compares equal, or NULL exactly when there is none. slist_remove_by_data removes precisely the first item that compares equal, or all of them when asked to, and leaves every other item in place and in order, also when the given data are those of a stored item and are freed by the call.",
  [H, I], "all list contents with duplicates, all start positions, all searched values",
  "Tests search two-item lists and remove from three fixed six-item lists.",
  ["slist.c"], [("search", "slist.c:_slist_find"), ("remove by data", "slist.c:slist_remove_by_data")], (), ["slist_find", "slist_contains", "slist_remove_by_data"])
p("S04", "A singly-linked list frees data and nodes exactly once",
  "The list's free function is applied exactly once to the non-NULL data of every item that is removed, cleared or destroyed, and never to data handed back by pop, to NULL data, or to data of items still in the list. A list that was given a pool takes every node from that pool. Every node obtained from the list's pool (or the heap) is given back exactly once, to the same pool, at the latest when the list is destroyed; a list without a free function never frees data.",
  [H, I, C], "all histories ending in clear, free or destroy, for every combination of free function and pool",
  "Tests never count free calls and never check that pool items or heap memory come back.",
  ["slist.c"], [("item release", "slist.c:_slist_item_free"), ("clear/free/destroy", "slist.c:slist_clear,slist_free,slist_destroy")], (), ["FreeFunc calls", "Pool alloc/free calls", "heap"])
# ---------------------------------------------------------------- stack & queue
p("K01", "A stack is last-in first-out",
  "For every history of pushes, pops, head reads and clears, stack_pop returns true and yields the most recently pushed data not yet popped (NULL data included), and returns false and yields NULL exactly when the stack is empty. stack_head reports the same element without removing it, stack_count equals pushes minus successful pops since the last clear, and clearing or destroying frees exactly the remaining non-NULL data once. A stack that was given a pool takes every node from it.",
  [H, I, C], "all push/pop/head/clear histories with repeated and NULL data, with and without free function and pool",
  "There is no stack test at all; the stack is only reached through the asynchronous queue.",
  ["stack.c", "stack.h"], [("pop and head", "stack.c:stack_pop,stack_head"), ("push = prepend", "stack.h:stack_push")], (), ["stack_pop", "stack_head", "stack_count"])
p("K02", "A queue is first-in first-out",
  "For every history of pushes, pops, head reads and clears, queue_pop returns true and yields the earliest pushed data not yet popped (NULL data included), and returns false and yields NULL exactly when the queue is empty. queue_head reports the same element without removing it, queue_count equals pushes minus successful pops since the last clear, and a queue that was emptied by pops or a clear accepts new data just like a fresh one. A queue that was given a pool takes every node from it.",
  [H, I, C], "all push/pop/head/clear histories with repeated and NULL data, with and without free function and pool",
  "There is no queue test; only single-threaded-looking FIFO use through the asynchronous queue, whose test checks a sum that is insensitive to order.",
  ["queue.h", "stack.c", "slist.c"], [("push = append", "queue.h:queue_push"), ("pop", "stack.c:stack_pop"), ("tail reset when emptied", "slist.c:slist_pop")], (), ["queue_pop", "queue_head", "queue_count"])
# ---------------------------------------------------------------- pool
p("P01", "Live memory-pool items never overlap or change",
  "Every item returned by a MemoryPool's alloc occupies item_size bytes of valid memory that overlaps no other item that is currently allocated. What a user wrote into an item stays there unchanged until the item is given back, whatever other alloc and free calls happen in between.",
  [H, C], "all alloc/free histories in any order, all item sizes and block sizes (at least two items per block)",
  "There is no pool test; the pool is only used by containers that free a handful of items.",
  ["pool.c", "pool.h"], [("bump allocation in the current block", "pool.c:_memory_pool_try_get_current_item"), ("new block", "pool.c:_memory_pool_get_item_from_new_block"), ("reuse of freed items", "pool.c:_memory_pool_try_get_detached_item")],
  [("block, offset, free_block", "carved items and freed addresses", "pool.h:MemoryPool")], ["pool alloc", "pool free"])
p("P02", "A memory pool reuses freed items before it grows, and releases everything",
  "An alloc returns a fresh address only when no freed item is available, so the number of distinct addresses ever handed out never exceeds the largest number of items that were allocated at the same time, and the memory requested for items never exceeds that maximum rounded up to whole blocks (at least one). Destroying the pool returns every byte it ever requested, whether or not items are still allocated.",
  [H, C], "all alloc/free histories including many frees followed by many allocs, all block sizes",
  "No test looks at addresses or memory use; crossing the boundary of the block that stores freed addresses needs more frees in a row than any test does.",
  ["pool.c"], [("stack of freed addresses", "pool.c:_memory_pool_free,_memory_pool_try_get_detached_item"), ("destroy", "pool.c:memory_pool_destroy")], (), ["addresses returned by alloc", "heap"])
# ---------------------------------------------------------------- hash table
p("H01", "A hash table is the map its history defines",
  "After every history of set, remove, clear and pair updates on a HashTable, a key exists exactly when it was set and not removed or cleared since, a lookup yields the value stored last for it (NULL values included), and count is the number of such keys. hashtable_set reports NEW exactly when the key was absent and REPLACED otherwise, and the stored key is exchanged on replacement exactly when overwriting was requested. Removing an absent key changes nothing, and the stored key itself may be the argument of a removal or of a set without overwriting.",
  [H, I, C], "all histories, any hash function (including one mapping every key to the same value), any fixed table size or automatic resizing",
  "The map tests run one word list and one integer range with good hash functions; collision chains with removals at head, middle and end are reached by chance only.",
  ["hashtable.c", "hashtable.h"], [("set", "hashtable.c:hashtable_set"), ("remove from chain", "hashtable.c:hashtable_remove"), ("chain search", "hashtable.c:_hashtable_find_bucket")],
  [("buckets, count", "chains of key/value pairs", "hashtable.h:HashTable")], ["hashtable_lookup", "hashtable_key_exists", "hashtable_count"])
p("H02", "Growing a hash table loses, duplicates and changes nothing",
  "When an auto-resizing HashTable grows, at every growth step, all keys and values stored before are still found with unchanged values afterwards, exactly once each, and removing, replacing and iterating keep working on them. A table that was cleared or emptied after growing behaves like a fresh one.",
  [H, I], "all insertion histories crossing any number of growth thresholds, with colliding and well-spread hashes",
  "Tests grow the table up to about ten thousand entries and check a sum; later thresholds and the position of each entry in a chain during relinking are not covered.",
  ["hashtable.c"], [("resize and relink", "hashtable.c:_hashtable_resize"), ("growth trigger", "hashtable.c:hashtable_set")], (), ["hashtable_lookup", "hashtable_iter_next", "hashtable_count"])
p("H03", "Hash table iteration visits every entry exactly once",
  "An iterator over an unmodified HashTable yields every stored key with its value exactly once, in any order, and then reports the end, and keeps reporting it when asked again. Iterators are independent of each other and of lookups made meanwhile.",
  [H, I, C], "all table contents, sizes and hash functions, any interleaving of several iterators and lookups",
  "Tests count entries of one table per run with one iterator.",
  ["hashtable.c"], [("next entry", "hashtable.c:hashtable_iter_next,_hashtable_iter_get_next_bucket")], (), ["hashtable_iter_next", "hashtable_iter_get_key", "hashtable_iter_get_value"])
p("H04", "A hash table frees keys and values exactly once",
  "The key free function is applied exactly once to every key that is removed, cleared, destroyed or exchanged by an overwriting set, and the value free function exactly once to every non-NULL value that is removed, cleared, destroyed or replaced; nothing still stored is freed. On a replacement without overwriting the stored key is kept and not freed. Destroying the table gives back all memory it requested.",
  [H, I, C], "all histories ending in clear, free or destroy, for every combination of free functions, table size and hash function",
  "Tests never count free calls and use no value free function.",
  ["hashtable.c"], [("replace", "hashtable.c:hashtable_set"), ("remove", "hashtable.c:hashtable_remove"), ("clear/free", "hashtable.c:_hashtable_free_memory"), ("pair update", "hashtable.c:hashtable_pair_set_value")], (), ["FreeFunc calls", "heap"])
p("H05", "An auto-resizing hash table keeps lookups cheap",
  "A HashTable created with automatic resizing grows along with its contents: the number of stored entries never exceeds the number of buckets by more than one. So, whatever the number of entries, when the keys' hash values are consecutive integers a lookup, successful or not, compares at most two stored keys.",
  [H, I], "all insertion histories of any length",
  "Nothing in the tests measures cost, so a table that stops growing would pass every test.",
  ["hashtable.c"], [("growth trigger", "hashtable.c:hashtable_set"), ("table sizes", "hashtable.c:PRIMES")], (), ["EqualFunc calls per lookup"])
# ---------------------------------------------------------------- red-black tree
p("R01", "A red-black tree is the map its history defines",
  "After every history of set, remove, clear and pair updates on an RBTree, a key exists exactly when it was set and not removed or cleared since, a lookup yields the value stored last for it (NULL values included), and count is the number of such keys. rbtree_set reports NEW exactly when the key was absent and REPLACED otherwise, exchanging the stored key exactly when asked to; rbtree_remove returns true exactly when the key was present and changes nothing otherwise; the stored key itself may be the argument of a removal or of a set without overwriting.",
  [H, I, C], "all histories over all key sets and orders, with and without a node pool",
  "Tests insert one word list or an ascending range and remove a few keys; most rebalancing cases on removal are reached by chance and a lost subtree may go unnoticed.",
  ["rbtree.c", "rbtree.h"], [("insert", "rbtree.c:_rbtree_insert_child"), ("remove with predecessor substitution", "rbtree.c:rbtree_remove"), ("search", "rbtree.c:_rbtree_find_node")],
  [("root, left, right, key, value, count", "the search tree", "rbtree.h:RBTree,RBNode")], ["rbtree_lookup", "rbtree_key_exists", "rbtree_count"])
p("R02", "A red-black tree stays balanced",
  "After every insertion and removal the tree is a binary search tree with a black root, in which no red node has a red child and every path from the root to a missing child passes the same number of black nodes. So no lookup, insertion or removal in a tree of n keys compares more than 2*log2(n+1)+1 keys.",
  [H, I], "all insertion and removal histories, in particular every rebalancing case at every depth",
  "Tests check no structural invariant and measure no cost; a missing rotation or colour change leaves all lookups correct.",
  ["rbtree.c"], [("insert rebalancing", "rbtree.c:_rbtree_insert_case1,_rbtree_insert_case2_to_6"), ("remove rebalancing", "rbtree.c:_rbtree_remove_case1,_rbtree_remove_case2,_rbtree_remove_case3_to_6"), ("ancestor stack", "rbtree.c:_rbtree_stack_push")],
  [("black", "node colour", "rbtree.h:RBNode")], ["root, left, right, black", "CompareFunc calls"])
p("R03", "Red-black tree iteration visits every entry exactly once",
  "An iterator over an unmodified RBTree yields every stored key with its value exactly once and then reports the end, and keeps reporting it; this includes the empty tree, for which an iterator can be created, advanced and freed like any other. A reused iterator behaves like a fresh one on the tree it is given, larger, smaller or empty, and iterators are independent of each other and of lookups.",
  [H, I], "all tree shapes and sizes including empty, any interleaving of iterators, any sequence of reuse",
  "Tests iterate once over a few trees, never use iterator reuse and never free an iterator of an empty tree.",
  ["rbtree.c"], [("iterator set-up and reuse", "rbtree.c:rbtree_iter_init,rbtree_iter_reuse,rbtree_iter_free"), ("next", "rbtree.c:rbtree_iter_next")], (), ["rbtree_iter_next", "rbtree_iter_get_key", "rbtree_iter_get_value"])
p("R04", "A red-black tree frees keys, values and nodes exactly once",
  "The key free function is applied exactly once to every key that is removed, cleared, destroyed or exchanged by an overwriting set, and the value free function exactly once to every non-NULL value that is removed, cleared, destroyed or replaced; nothing still stored is freed. A tree that was given a pool takes every node from that pool. Every node obtained from the tree's pool (or the heap) is given back exactly once, to the same pool, at the latest when the tree is destroyed, together with all other memory of the tree and its freed iterators.",
  [H, I, C], "all histories ending in clear, free or destroy, for every combination of free functions and pool",
  "Tests never count free calls, use no value free function and no pool.",
  ["rbtree.c"], [("node release", "rbtree.c:_rbtree_destroy_node,rbtree_remove"), ("replace", "rbtree.c:_rbtree_replace_node"), ("pair update", "rbtree.c:rbtree_pair_set_value")], (), ["FreeFunc calls", "Pool alloc/free calls", "heap"])
# ---------------------------------------------------------------- assoc array
p("D01", "An associative array is the map its history defines",
  "After every history of set, remove, clear and pair updates on an AssocArray, a key exists exactly when it was set and not removed or cleared since, a lookup yields the value stored last for it (NULL values included), and count is the number of such keys, also across any number of capacity extensions. assoc_array_set reports NEW exactly when the key was absent and REPLACED otherwise, exchanging the stored key exactly when asked to; removing an absent key changes nothing, and the stored key itself may be the argument of a removal or of a set without overwriting.",
  [H, I, C], "all histories over all key sets and insertion orders, at and around every capacity",
  "Tests use one word list and one ascending range; insert positions relative to the probed index and capacity boundaries are only sampled.",
  ["assocarray.c", "assocarray.h"], [("binary search", "assocarray.c:_assoc_array_binary_search"), ("insert before/after", "assocarray.c:_assoc_array_insert_before_offset,_assoc_array_insert_after_offset"), ("capacity", "assocarray.c:_assoc_array_resize_if_necessary"), ("remove", "assocarray.c:assoc_array_remove")],
  [("keys, values, count, size", "parallel sorted arrays", "assocarray.h:AssocArray")], ["assoc_array_lookup", "assoc_array_key_exists", "assoc_array_count"])
p("D02", "An associative array is iterated once, in ascending key order, and searched fast",
  "An iterator over an unmodified AssocArray yields every stored key with its own value exactly once, in strictly ascending order of the compare function, then reports the end and keeps reporting it; iterators are independent of each other and of lookups. A lookup among n keys compares at most floor(log2(n))+1 of them.",
  [H, I], "all histories and key sets, any interleaving of iterators and lookups",
  "Tests check neither order nor cost and use one iterator at a time.",
  ["assocarray.c"], [("iterator", "assocarray.c:assoc_array_iter_next"), ("binary search", "assocarray.c:_assoc_array_binary_search")], (), ["assoc_array_iter_next", "CompareFunc calls"])
p("D03", "An associative array frees keys and values exactly once",
  "The key free function is applied exactly once to every key that is removed, cleared, destroyed or exchanged by an overwriting set, and the value free function exactly once to every non-NULL value that is removed, cleared, destroyed or replaced; nothing still stored is freed. On a replacement without overwriting the stored key is kept and not freed. Destroying the array gives back all memory it requested.",
  [H, I, C], "all histories ending in clear, free or destroy, for every combination of free functions",
  "Tests never count free calls and use no value free function.",
  ["assocarray.c"], [("replace", "assocarray.c:_assoc_array_replace"), ("remove", "assocarray.c:assoc_array_remove"), ("clear/free", "assocarray.c:_assoc_array_free_memory"), ("pair update", "assocarray.c:assoc_array_pair_set_value")], (), ["FreeFunc calls", "heap"])
# ---------------------------------------------------------------- buffer
p("B01", "A buffer holds exactly the bytes written and not yet read",
  "While a Buffer is valid, its content is the concatenation of all bytes successfully written since the last clear, minus the lines read, for any bytes including NUL and newline and across any internal growth. buffer_len, buffer_is_empty, buffer_flush and buffer_to_string report exactly that content without consuming it (flush fails and to_string yields NULL when there is none), the copies ending in a NUL byte. Destroying the buffer gives back all its memory.",
  [H, I], "all byte contents, write sizes and interleavings of writes, line reads, flushes and clears",
  "The single buffer test writes text in 256-byte pieces and reads one line.",
  ["buffer.c", "buffer.h"], [("write and growth", "buffer.c:buffer_fill,_buffer_new_realloc_size"), ("copies", "buffer.c:_buffer_copy_to_string,buffer_to_string")],
  [("data, len, msize, valid", "stored bytes", "buffer.h:Buffer")], ["buffer_len", "buffer_flush", "buffer_to_string"])
p("B02", "A buffer never exceeds its maximum size and becomes invalid instead",
  "A write succeeds exactly when the buffer is valid and the total would not exceed the maximum size (filling it exactly is allowed, for any requested length up to the largest representable one); otherwise it fails and the buffer becomes, or stays, invalid. An invalid buffer reports length 0, is not empty, ignores new data and yields no lines, copies or strings, until it is cleared, which makes it valid and empty.",
  [H, I], "all maximum sizes and all sequences of write lengths, including lengths near the integer limit",
  "One overflow by 256 bytes at 4096 is tested; exact fits, off-by-one lengths and huge lengths are not.",
  ["buffer.c"], [("limit test", "buffer.c:buffer_fill,EXCEEDS_BUFFER_MAX_SIZE"), ("validity guards", "buffer.c:RETURN_IF_INVALID"), ("clear", "buffer.c:buffer_clear")], (), ["buffer_fill", "buffer_is_valid", "buffer_len", "buffer_is_empty"])
p("B03", "Lines are read from a buffer in order, complete and within bounds",
  "buffer_read_line succeeds exactly when the valid buffer holds a newline; it then yields the bytes up to the first newline without it, NUL-terminated, removes line and newline, and leaves everything behind them untouched. Without a complete line it fails and changes neither the buffer nor the destination. Neither it nor buffer_flush ever writes beyond the destination the caller described: the destination is enlarged when too short and the reported length is never smaller than the text it then holds.",
  [H, I], "all contents (empty lines, NUL bytes, several lines, unfinished last line) and all destination lengths, reused over any number of calls",
  "The test reads one line into a fresh destination.",
  ["buffer.c"], [("line extraction", "buffer.c:buffer_read_line"), ("destination growth", "buffer.c:_buffer_copy_to_string")], (), ["buffer_read_line", "buffer_flush"])
p("B04", "Filling a buffer from a descriptor appends exactly the bytes read",
  "buffer_fill_from_fd reads at most the requested number of bytes from the descriptor, appends exactly the bytes it received (also after a short read) and returns their number; end of file returns 0 and a failing read returns -1, both leaving the buffer valid and unchanged. If the received bytes do not fit, it returns -1 and the buffer becomes invalid; an invalid buffer consumes nothing from the descriptor. Any count up to the buffer's maximum size is accepted.",
  [H, I, F], "all counts, amounts available, end-of-file and error points, and fill levels",
  "The test reads full 256-byte blocks from a regular file; short reads, end of file, errors and large counts never occur.",
  ["buffer.c"], [("read and append", "buffer.c:buffer_fill_from_fd")], (), ["buffer_fill_from_fd", "descriptor position", "buffer_len"])
# ---------------------------------------------------------------- async queue
p("A01", "An asynchronous queue delivers every item exactly once, in FIFO order",
  "With any number of threads pushing to and popping from an AsyncQueue concurrently, every pushed item is delivered to exactly one successful pop or is removed by a clear or is still stored, nothing else is ever delivered, and all results (including counts) are explained by executing the calls one at a time in an order consistent with real time on a first-in first-out queue. In particular items pushed by one thread are received in the order pushed.",
  [S, H], "all interleavings of any number of producers and consumers using blocking and timed pops, clears and counts",
  "The test has one producer and one consumer per queue and checks a sum that does not depend on order; the interleavings are whatever the scheduler happened to do.",
  ["asyncqueue.c", "asyncqueue.h", "slist.c", "stack.c"], [("mutual exclusion", "asyncqueue.c:async_queue_push,_async_queue_pop,async_queue_clear,async_queue_count"), ("FIFO queue", "queue.h:queue_push,queue_pop")],
  [("mutex, cond, queue, waiting", "protected queue and waiting consumers", "asyncqueue.h:AsyncQueue")], ["call/return of the async_queue functions"])
p("A02", "No consumer of an asynchronous queue sleeps while items wait",
  "A thread never stays blocked in a pop while the queue holds an item that no running pop is about to take: every push wakes a waiting consumer if there is one, no wake-up is lost or consumed by a thread that does not take an item, and pushing, counting or clearing never blocks forever. A blocking pop returns only with an item; it never reports failure because it was woken spuriously or another consumer was faster.",
  [S], "all interleavings of producers, blocking and timed consumers, clears, spurious wake-ups and time-outs",
  "One consumer per queue; a lost wake-up or stolen item needs several consumers and a particular interleaving.",
  ["asyncqueue.c"], [("wake-up on push", "asyncqueue.c:async_queue_push"), ("waiting for items", "asyncqueue.c:_async_queue_cond_wait,_async_queue_pop")],
  [("waiting", "number of waiting consumers", "asyncqueue.h:AsyncQueue")], ["async_queue_pop", "async_queue_pop_timeout"])
p("A03", "A timed pop waits as long as it was told to, and no longer",
  "On a queue that stays empty, async_queue_pop_timeout with ms milliseconds fails neither before ms milliseconds have passed since the call nor noticeably later than ms milliseconds after it started to wait, for every ms (0 means no waiting) and whatever the time of day it is called at. It never fails earlier because of a spurious wake-up or because another consumer took an item, and it succeeds when an item becomes available in time.",
  [S, I], "all time-outs, all clock readings at the call, all interleavings with producers and other consumers, spurious wake-ups",
  "The test uses one time-out value and never measures the time waited.",
  ["asyncqueue.c"], [("deadline computation", "asyncqueue.c:_async_queue_cond_wait"), ("waiting", "asyncqueue.c:_async_queue_pop")], (), ["async_queue_pop_timeout"])
p("A04", "Asynchronous queue operations exclude each other",
  "No two threads ever access the shared contents of an AsyncQueue at the same time with at least one of them writing, whichever functions they call; the item pool and free function given to the queue are likewise never entered by two threads at once on behalf of that queue. All operations leave the queue unlocked when they return.",
  [S], "all interleavings, at the level of single memory accesses, of push, pop, timed pop, clear and count",
  "Data races show up as rare corruption only; the test has no pool, no clear and no count, and no race detector.",
  ["asyncqueue.c"], [("mutex around every access", "asyncqueue.c")], (), ["memory accesses of the async_queue functions", "Pool alloc/free calls", "FreeFunc calls"])
p("A05", "An asynchronous queue frees undelivered items exactly once",
  "Clearing or destroying an AsyncQueue applies its free function exactly once to every non-NULL item that was pushed and not delivered, and never to an item delivered by a pop, under every interleaving of the clear with pushes and pops. Afterwards the queue is empty and usable (clear), and all its memory and pool items have been given back (destroy).",
  [S, H, C], "all interleavings of clear with pushes and pops, and all histories before destroy, with and without free function and pool",
  "The tests never call clear and use no free function.",
  ["asyncqueue.c", "slist.c"], [("clear", "asyncqueue.c:async_queue_clear"), ("free/destroy", "asyncqueue.c:async_queue_free,async_queue_destroy")], (), ["FreeFunc calls", "Pool alloc/free calls", "heap"])
# ---------------------------------------------------------------- functions
p("C01", "The supplied compare and hash functions are consistent with each other",
  "direct_compare is a strict total order on non-NULL pointers (its sign is that of the address comparison, for any two addresses however far apart) and direct_equal holds exactly for identical pointers. str_equal holds exactly for strings with the same bytes, which is exactly when str_compare yields 0; str_compare is a total order. str_hash and direct_hash are deterministic and depend only on the string's bytes or the pointer, so equal keys always have equal hashes.",
  [I], "all pairs and triples of strings (including empty strings, prefixes and bytes above 127) and of pointers",
  "Only used indirectly with one word list and small integers.",
  ["compare.c", "compare.h", "hash.c", "hash.h"], [("comparison", "compare.c:str_equal,direct_compare,direct_equal"), ("hash", "hash.c:str_hash,direct_hash")], (), ["return values"])
# ---------------------------------------------------------------- cross-cutting
p("X01", "Containers are independent, even when they share a pool",
  "An operation on one container never changes the contents, results, iterators or memory of another container, whether of the same or another type, including containers that draw their nodes from one shared MemoryPool. Destroying or clearing one of them leaves all others fully usable, and nodes given back by one can be reused by another.",
  [H, C], "all interleaved histories over several containers of different types sharing one pool",
  "Every test uses one container at a time.",
  ["pool.c", "list.c", "slist.c", "rbtree.c", "hashtable.c", "assocarray.c"], [("node pools", "pool.c"), ("per-container state", "list.h, slist.h, rbtree.h, hashtable.h, assocarray.h")], (), ["all container observers"])
p("X02", "Running out of memory aborts the process, never corrupts it",
  "When the system refuses a memory request made by any library function, the process is terminated by abort() at that point. The function never returns as if it had succeeded, never dereferences the missing memory and never goes on with a partly built object.",
  [F, H], "every allocation request of every operation failing, one at a time, in any history",
  "No test injects allocation failures.",
  ["list.c", "slist.c", "pool.c", "hashtable.c", "rbtree.c", "assocarray.c", "buffer.c", "asyncqueue.c"], [("checked allocations", "every malloc/calloc/realloc call")], (), ["process termination"])
p("X03", "A container's memory is bounded by its largest content, not by its history",
  "The memory a container, pool or buffer takes depends on how large its content has been at most, not on how long it has been in use. However many elements are added, removed, replaced, popped, searched or iterated over, and however often it is cleared and filled again, it does not take more and more memory as long as the content does not grow beyond what it has been. Nodes of removed elements are used again or given back.",
  [H], "arbitrarily long histories of any container, with any mix of operations, with and without a pool",
  "Tests run a few operations on each object; a node lost by each removal stays unnoticed, since everything is given back by destroy.",
  ["pool.c", "list.c", "slist.c", "hashtable.c", "rbtree.c", "assocarray.c", "buffer.c", "asyncqueue.c"], [("nodes given back", "hashtable_remove, list_remove, slist_remove, rbtree_remove, the pools' free functions"), ("reuse of memory", "pool.c")], (), ["memory requested by the library"])
p("X04", "Separate objects can be used by separate threads without locking",
  "Threads that work on separate objects (containers, pools, buffers, iterators, each thread with objects of its own and pools of its own) need no synchronisation with each other. A call touches only memory reachable from its arguments, memory it allocates, and what is constant or properly locked inside the library. So each thread gets the same results as if it were the only one, whatever the schedule, and no call races with a call of another thread.",
  [S, H], "all schedules of several threads which use separate objects of the same types",
  "Tests of containers have a single thread; hidden common state (a cache, a counter, a spare node) gives the right results there.",
  ["list.c", "slist.c", "stack.c", "pool.c", "hashtable.c", "rbtree.c", "assocarray.c", "buffer.c", "asyncqueue.c"], [("no state outside of objects", "all functions")], (), ["memory and locks which calls use"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
