// a small program embedding the library: linked into lib.so, called by the suites of s_lib.cpp
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include "libzdb.h"

static zdb_settings_t *settings;
static const char *hook; static int noid;
void lp_hook(const char *h, int n) { hook = h; noid = n; }

// 0: open, 1: refused, 2: already initialized
int lp_open(const char *data, const char *index, int seq, unsigned long datasize, int sync, int bits) {
    extern int index_set_buckets_bits(uint8_t);
    if(bits) index_set_buckets_bits(bits);
    zdb_settings_t *opened = zdb_initialize();
    if(!opened) return 2;
    settings = opened;
    if(!noid) zdb_id_set("embedded");
    settings->datapath = (char *) data; settings->indexpath = (char *) index;
    if(seq) settings->mode = ZDB_MODE_SEQUENTIAL;
    if(datasize) settings->datasize = datasize;
    settings->sync = sync;
    if(hook) settings->hook = (char *) hook;
    return zdb_open(settings) ? 0 : 1;
}
void lp_close(void) { zdb_close(settings); }

// the answer as a letter; *out receives the returned bytes (the payload of an entry, the key otherwise)
int lp_op(int op, const char *nsname, const void *key, size_t kl, const void *val, size_t vl, char *out, size_t cap, size_t *outl) {
    namespace_t *ns = nsname ? namespace_get((char *) nsname) : namespace_get_default();
    zdb_api_t *r = NULL; int ret = '?';
    *outl = 0;
    if(!ns) return '-';
    if(op == 's') r = zdb_api_set(ns, (void *) key, kl, (void *) val, vl);
    if(op == 'g') r = zdb_api_get(ns, (void *) key, kl);
    if(op == 'e') r = zdb_api_exists(ns, (void *) key, kl);
    if(op == 'c') r = zdb_api_check(ns, (void *) key, kl);
    if(op == 'd') r = zdb_api_del(ns, (void *) key, kl);
    if(!r) return '0';
    zdb_api_buffer_t *b = NULL;
    switch(r->status) {
        case ZDB_API_SUCCESS: ret = 'S'; break;
        case ZDB_API_FAILURE: ret = 'X'; break;
        case ZDB_API_ENTRY: {
            ret = 'E'; zdb_api_entry_t *e = r->payload; b = &e->payload;
            if(e->key.size != kl || memcmp(e->key.payload, key, kl)) ret = 'k';
            break;
        }
        case ZDB_API_UP_TO_DATE: ret = 'U'; break;
        case ZDB_API_BUFFER: ret = 'B'; b = r->payload; break;
        case ZDB_API_NOT_FOUND: ret = 'N'; break;
        case ZDB_API_DELETED: ret = 'D'; break;
        case ZDB_API_INTERNAL_ERROR: ret = 'I'; break;
        case ZDB_API_TRUE: ret = 'T'; break;
        case ZDB_API_FALSE: ret = 'F'; break;
        case ZDB_API_INSERT_DENIED: ret = 'R'; break;
        default: break;
    }
    if(b) { *outl = b->size; memcpy(out, b->payload, b->size < cap ? b->size : cap); }
    zdb_api_reply_free(r);
    return ret;
}
int lp_ns(int op, const char *name, unsigned long arg) {
    namespace_t *ns = op == 'h' ? NULL : namespace_get((char *) name);
    if(op == 'h') { libzdb_hooks_cleanup(); return 0; }
    if(op == 'n') return namespace_create((char *) name);
    if(!ns) return -100;
    if(op == 'x') return 0;
    if(op == 'd') return namespace_delete(ns);
    if(op == 'j') return namespace_jump(ns);
    if(op == 'r') return namespace_reload(ns);
    if(op == 'f') return namespace_flush(ns);
    if(op == 'l') { ns->maxsize = arg; return namespace_commit(ns); }
    return -101;
}
unsigned long lp_count(void) { return namespace_length(); }
