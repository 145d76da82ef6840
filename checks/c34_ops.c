/* C34: the library calls. Each function makes calls on its own objects (data depend on id) and records every result. Compiled with the
   same instrumentation as the library, because parts of the library are header-only. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <limits.h>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include "c34.h"
#include "sblist.h"
#include "tglist.h"
#include "tgilist.h"
#include "bmap.h"
#include "hbmap.h"
#include "hashlist.h"
#include "kvlist.h"
#include "sptrlist.h"
#include "stringlist.h"
#include "tlist.h"
#include "stringptr.h"
#include "stringptrlist.h"
#include "strlib.h"
#include "format.h"
#include "md5.h"
#include "sha512.h"
#include "crc32.h"
#include "crc32c.h"
#include "filelib.h"
#include "filelist.h"
#include "fileparser.h"
#include "iniparser.h"
#include "optparser.h"
#include "logger.h"
#include "timelib.h"
#include "proclib.h"
#include "bitarray.h"
static void put(outbuf *o, const void *p, size_t n) { const unsigned char *b = p; for(size_t i = 0; i < n && o->n < sizeof o->b; i++) o->b[o->n++] = b[i]; }
static void puti(outbuf *o, long v) { char t[24]; int k = 0; unsigned long x = v < 0 ? -(unsigned long)v : v; do t[k++] = '0' + x % 10; while(x /= 10); if(v < 0) t[k++] = '-'; for(int i = k; i--;) put(o, t + i, 1); put(o, " ", 1); }
static void puts_(outbuf *o, const char *s) { if(!s) put(o, "(null)", 6); else put(o, s, strlen(s)); put(o, "|", 1); }
static void putsp(outbuf *o, stringptr *s) { if(!s) put(o, "(null)", 6); else { put(o, s->ptr, s->size); } put(o, "|", 1); }
static int val(int id, int i) { return id ? (i * 7919 + 13) % 997 - 300 : (i * 104729 + 5) % 1009 - 500; }
static int cmpi(const void *a, const void *b) { c34_callback(); int x = *(const int*)a, y = *(const int*)b; return x < y ? -1 : x > y; }
static int cmpr(const void *a, const void *b, void *c) { c34_callback(); int x = *(const int*)a ^ *(int*)c, y = *(const int*)b ^ *(int*)c; return x < y ? -1 : x > y; }
static int cmpp(const void *a, const void *b) { c34_callback(); return strcmp(*(char**)a, *(char**)b); }
static unsigned hashi(const int k) { c34_callback(); return k * 2654435761u; }
#define OP(N) static void N(int id, outbuf *o)
OP(o_sblist) { sblist *l = sblist_new(sizeof(int), id ? 3 : 8); for(int i = 0; i < 20 + id; i++) { int v = val(id, i); puti(o, sblist_add(l, &v)); puti(o, sblist_addi(l, &v)); } for(int i = 0; i < 5; i++) { int v = i + 1000 * (id + 1); puti(o, sblist_insert(l, &v, i * 3)); sblist_delete(l, i * 2); puti(o, sblist_set(l, &v, i)); } int *p; sblist_iter(l, p) puti(o, *p); p = sblist_pop(l); puti(o, *p); puti(o, sblist_getsize(l)); puti(o, sblist_get(l, 500) == 0); sblist_free(l); sblist s; sblist_init(&s, 8, 4); for(long i = 0; i < 9; i++) sblist_add(&s, &i); for(int i = 0; i < 9; i++) puti(o, *(long*)sblist_item_from_index(&s, i)); sblist_free_items(&s); }
OP(o_sbdata) { int d[6]; for(int i = 0; i < 6; i++) d[i] = val(id, i); int *h = malloc(sizeof d); memcpy(h, d, sizeof d); sblist *l = sblist_new_from_data(sizeof(int), h, 6); if(!l) { puti(o, -1); return; } for(size_t i = 0; i < sblist_getsize(l) && i < 6; i++) puti(o, *(int*)sblist_get(l, i)); puti(o, l->count); sblist_free(l); sblist *q = sblist_new(sizeof(void*), 4); for(int i = 0; i < 5; i++) { char *c = malloc(5); puti(o, sblist_add(q, &c)); } sblist_free_values(q); puti(o, q->count); sblist_free(q); }
OP(o_sbsort) { sblist *l = sblist_new(sizeof(int), 7); for(int i = 0; i < 15 + 2 * id; i++) { int v = val(id, i); sblist_add(l, &v); } sblist_sort(l, cmpi); int *p; sblist_iter(l, p) puti(o, *p); for(int i = 0; i < 6; i++) { int v = val(id, i * 2); puti(o, sblist_bsearch(l, &v, cmpi)); v++; puti(o, sblist_bsearch(l, &v, cmpi)); } sblist_free(l); }
OP(o_sbins) { sblist *l = sblist_new(sizeof(int), 7); for(int i = 0; i < 14 + id; i++) { int v = val(id, i); puti(o, sblist_insert_sorted(l, &v, cmpi)); } int *p; sblist_iter(l, p) puti(o, *p); sblist_free(l); }
OP(o_sbins_r) { int c = id ? 0x2aa : 0x155; sblist *l = sblist_new(sizeof(int), 7); for(int i = 0; i < 14 + id; i++) { int v = val(id, i) + 600; puti(o, sblist_insert_sorted_r(l, &v, cmpr, &c)); } int *p; sblist_iter(l, p) puti(o, *p); for(int i = 0; i < 6; i++) { int v = val(id, i * 2) + 600; puti(o, sblist_bsearch_r(l, &v, cmpr, &c)); v ^= 1; puti(o, sblist_bsearch_r(l, &v, cmpr, &c)); } sblist_free(l); }
typedef struct { int a; char c[5]; } item;
OP(o_tglist) { tglist(int) l; tglist_init(&l); for(int i = 0; i < 13 + id; i++) puti(o, tglist_add(&l, val(id, i))); for(int i = 0; i < 4; i++) { puti(o, tglist_insert(&l, 77 + i + id, i * 2)); puti(o, tglist_delete(&l, i)); } tglist_sort(&l, cmpi); size_t i; tglist_foreach(&l, i) puti(o, tglist_get(&l, i)); for(int k = 0; k < 5; k++) { int v = val(id, k) + 3; puti(o, tglist_insert_sorted(&l, v, cmpi)); } tglist_foreach(&l, i) puti(o, tglist_get(&l, i)); tglist_free_items(&l);
	tglist(item) q; tglist_init(&q); for(int k = 0; k < 6; k++) { item it = { k + id, "abc" }; puti(o, tglist_insert(&q, it, k / 2)); } tglist_foreach(&q, i) { puti(o, tglist_get(&q, i).a); } tglist_free_items(&q); }
OP(o_tgilist) { tgilist(item, unsigned char) l; tgilist_init(&l); for(int k = 0; k < 9 + id; k++) { item it = { val(id, k), "xyz" }; puti(o, k & 1 ? tgilist_add(&l, it) : tgilist_insert(&l, it, k / 2)); } puti(o, tgilist_delete(&l, 2)); for(size_t i = 0; i < tgilist_getsize(&l); i++) puti(o, tgilist_get(&l, i).a); tgilist_free_items(&l); }
OP(o_bmap) { bmap(int, int) b; bmap_init(&b, cmpi); for(int i = 0; i < 12 + id; i++) { int k = val(id, i % 9); puti(o, bmap_insert(&b, k, i + 100 * id)); } for(int i = 0; i < 9; i++) { int k = val(id, i); puti(o, bmap_find(&b, k)); int *p = bmap_get(&b, k); puti(o, p ? *p : -1); k++; puti(o, bmap_contains(&b, k)); } for(int i = 0; i < 3; i++) { puti(o, bmap_delete(&b, i)); int k = 2000 + i + id; puti(o, bmap_insert_nocheck(&b, k, k)); } for(size_t i = 0; i < bmap_getsize(&b); i++) { puti(o, bmap_getkey(&b, i)); puti(o, bmap_getval(&b, i)); } bmap_fini(&b, 0);
	bmap(char*, item) s; bmap_init(&s, cmpp); char ks[6][8]; for(int i = 0; i < 6; i++) { ks[i][0] = 'a' + (i * 5 + id) % 6; ks[i][1] = id ? 'x' : 0; ks[i][2] = 0; char *k = ks[i]; item it = { i, "v" }; puti(o, bmap_insert(&s, k, it)); } for(size_t i = 0; i < bmap_getsize(&s); i++) { puts_(o, bmap_getkey(&s, i)); puti(o, bmap_getval(&s, i).a); } bmap_fini(&s, 0); }
OP(o_hbmap) { hbmap(int, int, 4) *b = hbmap_new(cmpi, (void*)hashi, 4); for(int i = 0; i < 14 + id; i++) { int k = val(id, i % 11); puti(o, hbmap_insert(b, k, i + 50 * id)); } for(int i = 0; i < 11; i++) { int k = val(id, i); puti(o, hbmap_find(b, k)); int *p = hbmap_get(b, k); puti(o, p ? *p : -1); k += 1; puti(o, hbmap_contains(b, k)); } hbmap_iter it; hbmap_foreach(b, it) { puti(o, hbmap_getkey(b, it)); puti(o, hbmap_getval(b, it)); } for(int i = 0; i < 4; i++) { int k = val(id, i); it = hbmap_find(b, k); puti(o, hbmap_delete(b, it)); } hbmap_foreach(b, it) puti(o, hbmap_getkey(b, it)); hbmap_fini(b, 0); free(b); }
OP(o_hashlist) { hashlist *h = hashlist_new(5 + id, sizeof(int)); for(int i = 0; i < 16 + id; i++) { int v = val(id, i); puti(o, hashlist_add(h, v * 31, &v)); } hashlist_iterator it; hashlist_iterator_init(&it); int *p; while((p = hashlist_next(h, &it))) puti(o, *p); for(int i = 0; i < 8; i++) { sblist *l = hashlist_get(h, i); puti(o, l ? (long)l->count : -1); } hashlist_bucket_iterator bi; hashlist_bucket_iterator_init(&bi); sblist *l; while((l = hashlist_bucket_next(h, &bi))) puti(o, l->count); hashlist_free(h); }
OP(o_kv) { kvlist *l = kv_new(3); char ks[8][8]; for(int i = 0; i < 8; i++) { ulz_snprintf(ks[i], 8, "k%d%d", id, i * 3); puti(o, kv_add(l, ks[i], strlen(ks[i]), ks[i] + 1)); } for(int i = 0; i < 9; i++) { char q[8]; ulz_snprintf(q, 8, "k%d%d", id, i * 2); stringptr s = { q, strlen(q) }; void *v = 0; int r = kv_find(l, &s, &v); puti(o, r); if(v) puts_(o, v); } kv_free(l); stringlist *sl = stringlist_new(2); for(int i = 0; i < 5; i++) puti(o, stringlist_add_dup(sl, ks[i])); for(int i = 0; i < 6; i++) puts_(o, stringlist_get(sl, i)); sblist_free_values(sl); stringlist_free(sl); }
OP(o_tlist) { tlist *t = tlist_new(sizeof(int)); for(int i = 0; i < 25 + id; i++) { int v = val(id, i); puti(o, tlist_insert(t, (i * 5 + id) % (i + 1), &v)); } for(int i = 0; i < 5; i++) { int v = i; puti(o, tlist_append(t, &v)); puti(o, tlist_delete(t, i * 3)); } for(size_t i = 0; i < tlist_getsize(t); i++) { int *p = tlist_get(t, i); puti(o, p ? *p : -1); } puti(o, tlist_get(t, 999) == 0); tlist_free_items(t); puti(o, tlist_getsize(t)); tlist_free(t); t = tlist_new(sizeof(char*)); for(int i = 0; i < 6; i++) { char *s = strdup(id ? "one" : "zero"); puti(o, tlist_append(t, &s)); } puti(o, tlist_delete_deep(t, 2)); puts_(o, *(char**)tlist_get(t, 2)); tlist_free_items_deep(t); tlist_free_deep(t); }
static char T0[] = "The quick brown fox, jumps over the lazy dog, again and again, over", T1[] = "pack my box with, five dozen liquor jugs, pack my box with five dozen";
static char *text(int id) { return id ? T1 : T0; }
static stringptr sp(char *s) { stringptr r = { s, strlen(s) }; return r; }
OP(o_spbasic) { stringptr a = sp(text(id)), b = sp(id ? "box" : "over"); stringptr *c = stringptr_copy(&a), *d = stringptr_concat(&a, &b, &a, (stringptr*)0); putsp(o, c); putsp(o, d); puti(o, stringptr_eq(&a, c)); puti(o, stringptr_hash(&a)); puti(o, stringptr_contains(&a, &b)); for(int i = 0; i < 12; i++) puti(o, stringptr_here(&a, i, &b)); char *r = stringptr_rchr(&a, 'o'); puti(o, r - a.ptr); char *s = stringptr_strdup(&a); puts_(o, s); free(s); puti(o, stringptr_shiftright(c, 3 + id)); puti(o, stringptr_shiftleft(c, 5)); putsp(o, c); stringptr f; stringptr_fromchar(text(id), &f); putsp(o, &f); free(d); stringptr *n = stringptr_new(10); puti(o, n->size); free(n); free(c); char ch[] = "line\r\n"; stringptr q = sp(ch); puti(o, stringptr_chomp(&q)); putsp(o, &q); s = strdup_n(text(id), 9 + id); puts_(o, s); free(s); }
OP(o_spsplit) { char b[100]; strcpy(b, text(id)); stringptr a = sp(b); stringptrlist *l = stringptr_splitc(&a, id ? ' ' : ','); for(size_t i = 0; i < sblist_getsize(l); i++) putsp(o, stringptrlist_get(l, i)); stringptr w = sp(id ? "pack" : "again"); puti(o, stringptrlist_find(l, &w)); puti(o, stringptrlist_contains(l, &w)); stringptr *t = stringptrlist_tostring(l); putsp(o, t); free(t); t = stringptrlist_tostring_dos(l); putsp(o, t); free(t); puti(o, stringptrlist_dup_entries(l)); puti(o, stringptrlist_add_strdup(l, &w)); for(size_t i = 0; i < sblist_getsize(l); i++) putsp(o, stringptrlist_get(l, i)); stringptrlist_freestrings(l); stringptrlist_free(l); }
OP(o_spsplits) { char b[100]; strcpy(b, text(id)); stringptr a = sp(b), d = sp(id ? "o" : "th"), w = sp(id ? "OOO" : ""); stringptrlist *l = stringptr_splits(&a, &d); for(size_t i = 0; i < sblist_getsize(l); i++) putsp(o, stringptrlist_get(l, i)); stringptrlist_free(l); strcpy(b, text(id)); stringptr *r = stringptr_replace(&a, &d, &w); putsp(o, r); free(r); }
OP(o_spformat) { stringptr *r = stringptr_format("%s-%d-%x %c %.3d|%lu", text(id), val(id, 3), 0xbeef + id, 'a' + id, 5 + id, 123456789012ul * (id + 1)); putsp(o, r); free(r); r = stringptr_format("%s%s%s%s%s%s%s%s", text(id), text(id), text(id), text(id), text(id), text(id), text(id), text(id)); putsp(o, r); free(r); }
OP(o_format) { char b[300]; puti(o, ulz_snprintf(b, sizeof b, "%d %u %x %X %p %c %s %% %ld %lu %.4d", val(id, 1), 77u * (id + 1), 48879 + id, 0xabcdef + id, (void*)(long)(0x1000 + id), 'q' + id, text(id), -5L - id, 99ul + id, 42 + id)); puts_(o, b); for(int n = 0; n < 20; n += 3) { memset(b, '#', 30); puti(o, ulz_snprintf(b, n, "%s%d", text(id), 10 + id)); put(o, b, 30); } }
OP(o_fprintf) { int fd = memfd_create("f", 0); char b[300]; ulz_fprintf(fd, "%d %s %x\n", val(id, 2), text(id), 4096 + id); ulz_dprintf(fd, "[%s]", id ? "second" : "first"); ssize_t n = pread(fd, b, sizeof b, 0); put(o, b, n < 0 ? 0 : n); close(fd); }
OP(o_itoa) { static const int e[] = { 0, 1, -1, 10, INT_MAX, INT_MIN, 123456 }; for(int i = 0; i < 7; i++) { char b[40], c[40]; puts_(o, itoa(e[i] ^ id, b)); puts_(o, utoa((unsigned)e[i] ^ id, c)); puts_(o, b); puts_(o, c); } }
OP(o_num) { static const int e[] = { 0, 1, -1, 10, INT_MAX, INT_MIN, 123456 }; for(int i = 0; i < 7; i++) { char b[80], c[80]; puts_(o, intToString(e[i] ^ id, b)); puts_(o, uintToString((unsigned)e[i] ^ id, c)); puts_(o, int64ToString((int64_t)(e[i] ^ id) * 1234567, b)); puts_(o, uint64ToString((uint64_t)(e[i] ^ id) * 98765, c)); puts_(o, numberToString(e[i] ^ id, 2 + i * 2 + id, b, 70, i & 7)); puts_(o, numberToString(e[i] ^ id, 16, c, 12, NTS_PAD | (id ? NTS_LOWERCASE_CHARS : 0))); puts_(o, b); puts_(o, c); } }
OP(o_strtoint) { static const char *e[] = { "0", "1", "2147483647", "99999", "4294967296", "123" }; for(int i = 0; i < 6; i++) { puti(o, strtoint((char*)e[(i + id) % 6], strlen(e[(i + id) % 6]))); puti(o, strtoint64((char*)e[(i + 2 * id) % 6], strlen(e[(i + 2 * id) % 6]))); } }
OP(o_chars) { char b[100]; strcpy(b, text(id)); for(char *p = b; *p; p++) { puti(o, isAlpha(p) + 2 * isNumber(p) + 4 * isLetter(p) + 8 * isUpper(p) + 16 * isLower(p)); if(p - b < 20) makeupper(p); else if(p - b < 40) makelower(p); } puts_(o, b); puti(o, containsChar(b, 'x')); puti(o, containsChar(b, '!')); for(int i = 0; i < 22; i++) { char c[2] = { "0123456789abcdefABCDEF"[i], '1' + id }; puti(o, hexval(c)); } puti(o, strends(b, id ? "dozen" : "over")); }
OP(o_hex) { char b[200]; unsigned char r[100]; raw2hex(b, (unsigned char*)text(id), 30 + id); puts_(o, b); size_t n = hex2raw(b, r); puti(o, n); put(o, r, n); }
OP(o_ip) { static const char *e[] = { "1.2.3.4", "255.255.255.255", "10.0.0.1", "1.2.3", "256.1.1.1", "192.168.100.200" }; for(int i = 0; i < 6; i++) { unsigned char q[4] = { 0 }; char b[16]; char *s = (char*)e[(i + id * 5) % 6]; puti(o, isnumericipv4(s)); if(isnumericipv4(s)) { puti(o, ipv4fromstring(s, q)); put(o, q, 4); stringfromipv4(q, b); puts_(o, b); } } }
OP(o_search) { char *t = text(id); puts_(o, strstr_uc(t, id ? "LIQUOR" : "LAZY", id ? 6 : 4)); puts_(o, strstar(t, id ? "b?x" : "q?ick", id ? 3 : 5)); puts_(o, findword(t, id ? "JUGS" : "DOG", id ? 4 : 3)); puts_(o, strstr_uc(t, "ZZZ", 3)); }
OP(o_b64) { char b[200]; unsigned char r[200]; base64enc(b, (unsigned char*)text(id), 25 + id); puts_(o, b); size_t n = base64dec(r, b, sizeof r); puti(o, n); put(o, r, n); puti(o, base64enc_str(b, (unsigned char*)text(id), sizeof b)); puts_(o, b); }
OP(o_rc4) { unsigned char b[100], c[100]; size_t n = strlen(text(id)); rc4(b, (unsigned char*)text(id), n, (unsigned char*)(id ? "other key" : "key"), id ? 9 : 3); put(o, b, n); rc4(c, b, n, (unsigned char*)(id ? "other key" : "key"), id ? 9 : 3); put(o, c, n); }
OP(o_md5) { md5_ctx c; unsigned char d[16]; md5_init(&c); for(int i = 0; i < 4; i++) md5_update(&c, text(id), strlen(text(id)) - i); md5_end(&c, d); put(o, d, 16); char h[33]; md5str(h, (unsigned char*)text(id), 60 + id); puts_(o, h); }
OP(o_sha) { sha512_ctx c; sha512_init(&c); unsigned char b[256]; for(int i = 0; i < 256; i++) b[i] = i * 3 + id; sha512_update(&c, b, 128); sha512_update(&c, b, 128); sha512_update(&c, (unsigned char*)text(id), strlen(text(id))); put(o, sha512_end(&c), 64); }
OP(o_crc) { CRC32_CTX c; CRC32C_CTX d; uint8_t r[4]; CRC32_Init(&c); CRC32C_Init(&d); for(int i = 0; i < 3; i++) { CRC32_Update(&c, (uint8_t*)text(id) + i, 30 + i); CRC32C_Update(&d, (uint8_t*)text(id) + i, 40 + i); } CRC32_Final(r, &c); put(o, r, 4); CRC32C_Final(r, &d); put(o, r, 4); }
OP(o_norm) { static const char *e[] = { "/a/b/../c", "/x//y/./z/..", "/..", "/usr/local/../lib/../../etc/passwd", "/", "relative", "/a/./././b///c/../d/" }; for(int i = 0; i < 7; i++) { char b[8192], c[4200]; const char *s = e[(i + id * 3) % 7]; puts_(o, normalizepath_cstr(s, b)); strcpy(c, s); stringptr p = { c, strlen(c) }; puti(o, normalizepath(&p)); putsp(o, &p); } }
OP(o_pieces) { char b[PATH_MAX + 100] = ""; char ab[40], cb[40]; strcpy(ab, id ? "/srv/www" : "/home/user"); strcpy(cb, id ? "/srv/www/htdocs/img" : "/home/user/src/lib/x.c"); stringptr a = sp(ab), c = sp(cb); ssize_t r = getpathdiff(&a, &c, b); puti(o, r); if(r > 0) put(o, b, r); puts_(o, getFileExt(id ? "x.tar.gz" : "name.txt", 8)); puts_(o, getfilename(&c)); }
static void fname(char *b, int id, const char *suf) { ulz_snprintf(b, 64, "c34-%d-%s", id, suf); }
OP(o_file) { char n[64]; fname(n, id, "a"); stringptr a = sp(text(id)); puti(o, stringptr_tofile(n, &a)); stringptr *r = stringptr_fromfile(n); putsp(o, r); free(r); puti(o, getfilesize(n)); puti(o, getFileModTime(n) > 1000000); struct stat st; stat(n, &st); puti(o, st.st_mode & 0777); unlink(n); }
OP(o_lfile) { char n[64]; fname(n, id, "b"); char b[100]; strcpy(b, text(id)); stringptr a = sp(b); stringptrlist *l = stringptr_splitc(&a, ' '); puti(o, stringptrlist_tofile(l, n, 0644)); stringptrlist_free(l); l = stringptrlist_new(4); puti(o, stringptrlist_fromfile(l, n)); for(size_t i = 0; i < sblist_getsize(l); i++) putsp(o, stringptrlist_get(l, i)); stringptrlist_freeall(l); unlink(n); }
OP(o_fileparser) { char n[64]; fname(n, id, "c"); int fd = open(n, O_CREAT | O_TRUNC | O_WRONLY, 0600); for(int i = 0; i < 30; i++) { write(fd, text(id), 20 + (i * 7 + id) % 40); write(fd, "\n", 1); } close(fd); fileparser p; puti(o, fileparser_open(&p, n)); stringptr l; puti(o, fileparser_getnextlinelength(&p)); while(!fileparser_readline(&p)) { fileparser_getline(&p, &l); put(o, l.ptr, l.size > 8 ? 8 : l.size); puti(o, l.size); } puti(o, fileparser_close(&p)); puti(o, fileparser_open(&p, n)); char ub[64]; for(int i = 0; i < 3; i++) { puti(o, fileparser_readline_userbuf(&p, ub, sizeof ub)); } fileparser_close(&p); unlink(n); }
OP(o_ini) { static const char *f0[] = { "[one]", "a=1", "b = two", "[two]", "a=3", "[one]", "c=9" }, *f1[] = { "x=0", "[sec]", "key=value", "[other]", "key=else", "a=b=c", "" }; stringptrlist *l = stringptrlist_new(4); for(int i = 0; i < 7; i++) { char *s = (char*)(id ? f1[i] : f0[i]); stringptrlist_add(l, s, strlen(s)); } puti(o, iniparser_count_sections(l)); ini_section w = iniparser_file_as_section(l); puti(o, w.startline); puti(o, w.linecount); stringptr n = sp(id ? "other" : "one"), k = sp(id ? "key" : "b"), r; ini_section s = iniparser_get_section(l, &n); puti(o, s.startline); puti(o, s.linecount); iniparser_getvalue(l, &s, &k, &r); putsp(o, &r); puti(o, iniparser_getvalue_at(l, &s, &k, &r, 0)); s = iniparser_get_next_section(l, &n, &s); puti(o, s.startline); puti(o, s.linecount); stringptrlist_free(l); }
OP(o_opt) { char *a0[] = { "prog", "--name=value", "-x", "--flag", "-o=short" }, *a1[] = { "prog", "-abc", "--flag", "--name=other", "-z=1" }; op_state s; op_init(&s, 5, id ? a1 : a0); stringptr n = sp("name"), f = sp("flag"), x = sp("x"), z = sp(id ? "z" : "o"); puts_(o, op_get(&s, &n)); puti(o, op_hasflag(&s, &f)); puti(o, op_hasflag(&s, &x)); puts_(o, op_get(&s, &z)); }
OP(o_filelist) { char d[64]; fname(d, id, "dir"); mkdir(d, 0755); for(int i = 0; i < 4; i++) { char n[64]; ulz_snprintf(n, sizeof n, "%s/f%d.%s", d, i + id, i & 1 ? "c" : "h"); close(open(n, O_CREAT | O_WRONLY, 0600)); } filelist l; stringptr ds = sp(d), m = sp(id ? "*.c" : "*"); puti(o, filelist_search(&l, &ds, &m, id ? FLF_EXCLUDE_PATH : FLF_INCLUDE_DOT)); for(size_t i = 0; i < sblist_getsize(l.files); i++) putsp(o, stringptrlist_get(l.files, i)); filelist_free(&l); for(int i = 0; i < 4; i++) { char n[64]; ulz_snprintf(n, sizeof n, "%s/f%d.%s", d, i + id, i & 1 ? "c" : "h"); unlink(n); } rmdir(d); }
OP(o_tmp) { char t[64]; ulz_snprintf(t, sizeof t, "./c34t%d-XXXXXX", id); char *r = ulz_mkdtemp(t); puti(o, r == t); put(o, t, 8); puti(o, strlen(t)); struct stat st; puti(o, stat(t, &st)); puti(o, st.st_mode & 0777); puti(o, rmdir(t)); }
OP(o_log) { int fd = memfd_create("l", 0); char b[400]; stringptr s = sp(text(id)); log_puts(fd, &s); log_putln(fd); log_putd(fd, -1234 - id, 1); log_putc(fd, id ? "second" : "first"); log_put(fd, VARIS(&s), VARISL("="), VARII(-7 - id), VARIU(7u + id), VARIL(99999999999L + id), VARICC("end"), VNIL); errno = id ? ENOENT : EACCES; log_puterror(fd, "what"); ssize_t n = pread(fd, b, sizeof b, 0); put(o, b, n < 0 ? 0 : n); close(fd); }
OP(o_time) { char b[64]; puti(o, timestamp(b, sizeof b) > 0); puts_(o, b); int fd = memfd_create("l", 0); log_timestamp(fd); ssize_t ln = pread(fd, b, sizeof b, 0); puti(o, ln); put(o, b, ln < 0 ? 0 : ln); close(fd); struct timeval t; gettimestamp(&t); puti(o, mspassed(&t) < 20000); puti(o, getutime() > 1000000); struct timespec x = { 5 + id, 7 }, y = { 3, 9 }; puti(o, timespec_diff(&x, &y)); puti(o, microsleep(10 + id)); puti(o, msleep(id)); }
OP(o_proc) { struct process p; char *a0[] = { "/bin/sh", "-c", "exit 7", 0 }, *a1[] = { "/bin/sh", "-c", "exit 9", 0 }; int r = process_open(&p, id ? a1 : a0); puti(o, r); if(!r) puti(o, process_close(&p)); char *bad[] = { "/nonexistent", 0 }; puti(o, process_open(&p, bad)); }
OP(o_bits) { unsigned char b[8] = { 0 }; for(int i = 0; i < 60; i += 3 + id) BA_SET(b, i, 1); for(int i = 0; i < 64; i++) puti(o, BA_GET(b, i)); for(int i = 0; i < 64; i++) puti(o, BA_GET_SWAPPED(b, i)); }
OP(o_stringlist) { stringlist *sl = stringlist_new(1 + id); char *w[] = { "north", "south", "east", "west", "up", "down" }; for(int i = 0; i < 6; i++) { char *x = w[(i + id * 2) % 6]; puti(o, stringlist_add(sl, x)); } stringlist_delete(sl, 1 + id); char *s; { stringlist_foreach(sl, s) { puts_(o, s); } } size_t i; stringlist_iter(sl, i) { puts_(o, stringlist_get(sl, i)); } puti(o, stringlist_getsize(sl)); sblist_sort(sl, cmpp); { stringlist_foreach(sl, s) { puts_(o, s); } } stringlist_free(sl);
	sptrlist *q = sptrlist_new(2), r; for(int k = 0; k < 6; k++) { void *v = w[(k + id) % 6]; puti(o, sptrlist_add(q, v)); } void *v = w[5 - id]; puti(o, sptrlist_set(q, v, 2)); for(int k = 0; k < 6; k++) puts_(o, sptrlist_get(q, k)); puti(o, sblist_empty(q)); sptrlist_free(q); sptrlist_init(&r, 3); for(int k = 0; k < 4; k++) { v = w[k + id]; puti(o, sptrlist_add(&r, v)); } for(int k = 0; k < 4; k++) puts_(o, sptrlist_get(&r, k)); sptrlist_free_items(&r); }
static int cmpsp(const void *a, const void *b) { c34_callback(); const stringptr *x = a, *y = b; size_t n = x->size < y->size ? x->size : y->size; int r = memcmp(x->ptr, y->ptr, n); return r ? r : (int)x->size - (int)y->size; }
OP(o_splist) { char b[100]; strcpy(b, text(id)); stringptr a = sp(b); stringptrlist *l = stringptr_splitc(&a, ' '), *m = stringptrlist_new(2); for(size_t i = 0; i < stringptrlist_getsize(l); i++) { stringptr *s = stringptrlist_get(l, i); stringptrlist_insert_sorted(m, s->ptr, s->size, cmpsp); } for(int i = 0; i < 3; i++) { stringptrlist_insert(l, i * 2, id ? "ins" : "INSERT", 3 + i); puti(o, stringptrlist_set(l, i + 1, id ? "q" : "zz", 1)); } for(size_t i = 0; i < stringptrlist_getsize(l); i++) putsp(o, stringptrlist_get(l, i)); for(size_t i = 0; i < stringptrlist_getsize(m); i++) putsp(o, stringptrlist_get(m, i)); puti(o, stringptrlist_empty(m)); stringptrlist_free(l); stringptrlist_free(m); }
OP(o_lists2) { tglist(int) *l = tglist_new(); for(int k = 0; k < 18 + id; k++) puti(o, tglist_add(l, val(id, k))); for(int k = 0; k < 5; k++) puti(o, tglist_set(l, k * 100 + id, k * 3)); puti(o, tglist_getsize(l)); size_t i; tglist_foreach(l, i) { puti(o, tglist_get(l, i)); } tglist_free(l); tglist(char*) v; tglist_init(&v); for(int k = 0; k < 5; k++) { char *c = malloc(4); c[0] = k; puti(o, tglist_add(&v, c)); } tglist_free_values(&v); tglist_free_items(&v);
	tgilist(item, unsigned short) *t = tgilist_new(); for(int k = 0; k < 17 + id; k++) { item it = { val(id, k), "pqr" }; puti(o, tgilist_insert(t, it, k / 3)); } item n = { 4242 + id, "new" }; puti(o, tgilist_set(t, n, 7)); puti(o, tgilist_itemsize(t)); for(size_t k = 0; k < tgilist_getsize(t); k++) puti(o, tgilist_get(t, k).a); tgilist_free(t); }
OP(o_maps2) { bmap(int, int) b; bmap_init(&b, cmpi); hbmap(int, int, 4) *h = hbmap_new(cmpi, (void*)hashi, 4); for(int i = 0; i < 10 + id; i++) { int k = val(id, i); puti(o, bmap_insert_nocheck(&b, k, i)); puti(o, hbmap_insert_nocheck(h, k, i)); } for(int i = 0; i < 8; i += 2) { bmap_setvalue(&b, 1000 + i + id, i); int k = val(id, i); hbmap_iter it = hbmap_find(h, k); puti(o, hbmap_iter_valid(h, it)); hbmap_setvalue(h, 3000 + i + id, it); } for(size_t i = 0; i < bmap_getsize(&b); i++) { puti(o, bmap_getkey(&b, i)); puti(o, bmap_getval(&b, i)); } hbmap_iter it; hbmap_foreach(h, it) { puti(o, hbmap_getkey(h, it)); puti(o, hbmap_getval(h, it)); } hbmap_fini(h, 0); free(h); bmap_fini(&b, 0);
	kvlist *l = kv_new(2); char ks[6][8]; for(int i = 0; i < 6; i++) { ulz_snprintf(ks[i], 8, "q%d%d", id, i); puti(o, kv_add(l, ks[i], strlen(ks[i]), ks[i])); } puti(o, kv_set(l, 2, ks[5], 2 + id, ks[0])); for(size_t i = 0; i < kv_getsize(l); i++) { stringptrv *v = kv_get(l, i); put(o, v->ptr, v->size); puts_(o, v->value); } kv_free(l); }
OP(o_mktemp) { char b[80], pre[40]; ulz_snprintf(pre, sizeof pre, "c34m%d-", id); puti(o, mktempdir(pre, b, 10)); size_t n = mktempdir(pre, b, sizeof b); puti(o, n == strlen(b)); if(!n) return; char *p = strrchr(b, '/'); put(o, p, 7); struct stat st; puti(o, stat(b, &st)); puti(o, st.st_mode & 0777); puti(o, rmdir(b)); }
const c34_op c34_ops[] = { { "sblist", o_sblist }, { "sblist data", o_sbdata }, { "sblist sort/bsearch", o_sbsort, 1 }, { "sblist insert_sorted", o_sbins, 1 }, { "sblist *_r", o_sbins_r, 1 }, { "tglist", o_tglist, 1 }, { "tgilist", o_tgilist }, { "bmap", o_bmap, 1 }, { "hbmap", o_hbmap, 1 }, { "hashlist", o_hashlist }, { "kvlist/stringlist", o_kv }, { "tlist", o_tlist },
	{ "stringptr", o_spbasic }, { "splitc/list", o_spsplit }, { "splits/replace", o_spsplits }, { "stringptr_format", o_spformat }, { "ulz_snprintf", o_format }, { "ulz_fprintf", o_fprintf }, { "itoa/utoa", o_itoa }, { "numberToString", o_num }, { "strtoint", o_strtoint }, { "character classes", o_chars }, { "hex", o_hex }, { "ipv4", o_ip }, { "search", o_search }, { "base64", o_b64 }, { "rc4", o_rc4 }, { "md5", o_md5 }, { "sha512", o_sha }, { "crc", o_crc },
	{ "normalizepath", o_norm }, { "path pieces", o_pieces }, { "whole files", o_file }, { "line files", o_lfile }, { "fileparser", o_fileparser }, { "iniparser", o_ini }, { "optparser", o_opt }, { "filelist", o_filelist }, { "mkdtemp", o_tmp }, { "logger", o_log }, { "time", o_time }, { "process", o_proc }, { "bitarray", o_bits },
	{ "stringlist/sptrlist macros", o_stringlist, 1 }, { "stringptrlist macros", o_splist, 1 }, { "tglist/tgilist macros", o_lists2 }, { "map setters, kv", o_maps2, 1 }, { "mktempdir", o_mktemp } };
const int c34_nops = sizeof c34_ops / sizeof *c34_ops;
void c34_prepare(void) { CRC32_InitTables(); CRC32C_InitTables(); umask(022); }
