// Small in-memory base filesystem with fault injection, for the demonstrations.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "evfs.h"
#define DIE(...) do { printf("FAIL line %d: ", __LINE__); printf(__VA_ARGS__); printf("\n"); exit(1); } while(0)
#define NEED(c, ...) do { if(!(c)) DIE(__VA_ARGS__); } while(0)
typedef struct { char path[300]; int dir, used; unsigned char *d; long n, dur; } MNode;
static MNode m_n[400];
enum { M_OPEN, M_STAT, M_DELETE, M_RENAME, M_MKDIR, M_OPENDIR, M_READ, M_WRITE, M_TRUNC, M_SYNC, M_SEEK, M_CLOSE, M_DIRREAD, M_NK };
static int m_fail[M_NK];        // countdown: 1 = next call of that kind fails
static int m_code[M_NK];        // what it returns then
static long m_count[M_NK], m_capacity = 1l << 30, m_open_now; static int m_short; static char m_cwd[300] = "/";
static int m_hit(int k) { m_count[k]++; if(m_fail[k] && --m_fail[k] == 0) return m_code[k] ? m_code[k] : EVFS_ERR_IO; return 0; }
static void m_abs(const char *p, char *o) {
  char t[700]; if(*p == '/') snprintf(t, sizeof t, "%s", p); else snprintf(t, sizeof t, "%s/%s", m_cwd, p);
  char *q = o; *q = 0; for(char *s = strtok(t, "/"); s; s = strtok(0, "/")) { if(!strcmp(s, ".")) continue; if(!strcmp(s, "..")) { char *l = strrchr(o, '/'); if(l) *l = 0; continue; } strcat(o, "/"); strcat(o, s); } if(!*o) strcpy(o, "/"); }
static MNode *m_find(const char *p) { char a[700]; m_abs(p, a); for(int i = 0; i < 400; i++) if(m_n[i].used && !strcmp(m_n[i].path, a)) return &m_n[i]; return 0; }
static MNode *m_make(const char *p, int dir) { char a[700]; m_abs(p, a); for(int i = 0; i < 400; i++) if(!m_n[i].used) { memset(&m_n[i], 0, sizeof m_n[i]); strcpy(m_n[i].path, a); m_n[i].used = 1; m_n[i].dir = dir; return &m_n[i]; } DIE("memfs full"); }
static int m_parent(const char *p) { char a[700]; m_abs(p, a); char *l = strrchr(a, '/'); if(l == a) return 1; *l = 0; MNode *n = m_find(a); return n && n->dir; }
static void m_put(const char *p, const void *d, long n) { MNode *x = m_find(p); if(!x) x = m_make(p, 0); free(x->d); x->d = malloc(n + 1); memcpy(x->d, d, n); x->n = n; }
static long m_used(void) { long t = 0; for(int i = 0; i < 400; i++) if(m_n[i].used) t += m_n[i].n; return t; }
typedef struct { EvfsFile base; MNode *n; long pos; int fl; } MFile;
typedef struct { EvfsDir base; char path[300]; int i; } MDir;
static int mf_ctrl(EvfsFile *f, int c, void *a) { return EVFS_OK; }
static int mf_close(EvfsFile *f) { m_open_now--; return m_hit(M_CLOSE); }
static ptrdiff_t mf_read(EvfsFile *f, void *b, size_t n) { MFile *m = (MFile *)f; int e = m_hit(M_READ); if(e && !m_short) return e; if(e && n > 1) n /= 2; long k = m->n->n - m->pos; if(k < 0) k = 0; if((long)n < k) k = n; memcpy(b, m->n->d + m->pos, k); m->pos += k; return k; }
static ptrdiff_t mf_write(EvfsFile *f, const void *b, size_t n) { MFile *m = (MFile *)f; int e = m_hit(M_WRITE); if(e && !m_short) return e; if(e) n /= 2;
  if(m->fl & EVFS_APPEND) m->pos = m->n->n; long end = m->pos + n; if(end > m->n->n) { if(m_used() + end - m->n->n > m_capacity) return EVFS_ERR_FS_FULL; m->n->d = realloc(m->n->d, end + 1); memset(m->n->d + m->n->n, 0, end - m->n->n); m->n->n = end; } memcpy(m->n->d + m->pos, b, n); m->pos = end; return n; }
static int mf_trunc(EvfsFile *f, evfs_off_t n) { MFile *m = (MFile *)f; int e = m_hit(M_TRUNC); if(e) return e; if(n < m->n->n) m->n->n = n; return 0; }
static int mf_sync(EvfsFile *f) { MFile *m = (MFile *)f; return m_hit(M_SYNC); }
static evfs_off_t mf_size(EvfsFile *f) { return ((MFile *)f)->n->n; }
static int mf_seek(EvfsFile *f, evfs_off_t o, EvfsSeekDir d) { MFile *m = (MFile *)f; int e = m_hit(M_SEEK); if(e) return e; long t = d == EVFS_SEEK_TO ? o : d == EVFS_SEEK_REL ? m->pos + o : m->n->n - o; if(t < 0) t = 0; m->pos = t; return 0; }
static evfs_off_t mf_tell(EvfsFile *f) { return ((MFile *)f)->pos; }
static bool mf_eof(EvfsFile *f) { return ((MFile *)f)->pos >= ((MFile *)f)->n->n; }
static EvfsFileMethods m_fm = { mf_ctrl, mf_close, mf_read, mf_write, mf_trunc, mf_sync, mf_size, mf_seek, mf_tell, mf_eof };
static int md_close(EvfsDir *d) { m_open_now--; return 0; }
static int md_read(EvfsDir *d, EvfsInfo *i) { MDir *m = (MDir *)d; memset(i, 0, sizeof *i); int e = m_hit(M_DIRREAD); if(e) return e; size_t l = strlen(m->path); if(l == 1) l = 0;
  for(; m->i < 400; m->i++) { MNode *n = &m_n[m->i]; if(n->used && strlen(n->path) > l + 1 && !strncmp(n->path, m->path, l) && n->path[l] == '/' && !strchr(n->path + l + 1, '/')) { i->name = n->path + l + 1; i->size = n->n; if(n->dir) i->type = EVFS_FILE_DIR; m->i++; return EVFS_OK; } } return EVFS_DONE; }
static int md_rew(EvfsDir *d) { ((MDir *)d)->i = 0; return 0; }
static EvfsDirMethods m_dm = { md_close, md_read, md_rew };
static int m_open(Evfs *v, const char *p, EvfsFile *f, int fl) { MFile *m = (MFile *)f; int e = m_hit(M_OPEN); memset(m, 0, sizeof *m); m->base.methods = &m_fm; if(e) return e; MNode *n = m_find(p); if(n && n->dir) return EVFS_ERR_IS_DIR; if(n && (fl & EVFS_NO_EXIST)) return EVFS_ERR_EXISTS;
  if(!n) { if(!(fl & (EVFS_NO_EXIST | EVFS_OVERWRITE | EVFS_APPEND | EVFS_OPEN_OR_NEW)) && !((fl & EVFS_WRITE) && !(fl & EVFS_READ))) return EVFS_ERR_NO_FILE; if(!m_parent(p)) return EVFS_ERR_NO_PATH; n = m_make(p, 0); } else if((fl & EVFS_OVERWRITE)) n->n = 0; m->n = n; m->fl = fl; m_open_now++; return 0; }
static int m_stat(Evfs *v, const char *p, EvfsInfo *i) { memset(i, 0, sizeof *i); int e = m_hit(M_STAT); if(e) return e; char a[700]; m_abs(p, a); if(!strcmp(a, "/")) { i->type = EVFS_FILE_DIR; return 0; } MNode *n = m_find(p); if(!n) return EVFS_ERR_NO_FILE; i->size = n->n; if(n->dir) i->type = EVFS_FILE_DIR; return 0; }
static int m_del(Evfs *v, const char *p) { int e = m_hit(M_DELETE); if(e) return e; MNode *n = m_find(p); if(!n) return EVFS_ERR_NO_FILE; size_t l = strlen(n->path); if(n->dir) for(int i = 0; i < 400; i++) if(m_n[i].used && !strncmp(m_n[i].path, n->path, l) && m_n[i].path[l] == '/') return EVFS_ERR_NOT_EMPTY; n->used = 0; return 0; }
static int m_ren(Evfs *v, const char *p, const char *q) { int e = m_hit(M_RENAME); if(e) return e; MNode *n = m_find(p); if(!n) return EVFS_ERR_NO_FILE; if(m_find(q)) return EVFS_ERR_EXISTS; char o[300], t[700]; strcpy(o, n->path); size_t l = strlen(o); m_abs(q, t); for(int i = 0; i < 400; i++) if(m_n[i].used && (!strcmp(m_n[i].path, o) || (!strncmp(m_n[i].path, o, l) && m_n[i].path[l] == '/'))) { char b[1000]; snprintf(b, sizeof b, "%s%s", t, m_n[i].path + l); strcpy(m_n[i].path, b); } return 0; }
static int m_mkd(Evfs *v, const char *p) { int e = m_hit(M_MKDIR); if(e) return e; char a[700]; m_abs(p, a); if(m_find(p) || !strcmp(a, "/")) return EVFS_ERR_EXISTS; if(!m_parent(p)) return EVFS_ERR_NO_PATH; m_make(p, 1); return 0; }
static int m_opd(Evfs *v, const char *p, EvfsDir *d) { MDir *m = (MDir *)d; int e = m_hit(M_OPENDIR); memset(m, 0, sizeof *m); m->base.methods = &m_dm; if(e) return e; m_abs(p, m->path); if(strcmp(m->path, "/")) { MNode *n = m_find(p); if(!n || !n->dir) return EVFS_ERR_NO_PATH; } m_open_now++; return 0; }
static int m_gcd(Evfs *v, StringRange *r) { if(strlen(m_cwd) + 1 > range_size(r)) return EVFS_ERR_OVERFLOW; strcpy((char *)r->start, m_cwd); return 0; }
static int m_scd(Evfs *v, const char *p) { char a[700]; m_abs(p, a); if(strcmp(a, "/")) { MNode *n = m_find(p); if(!n || !n->dir) return EVFS_ERR_NO_PATH; } strcpy(m_cwd, a); return 0; }
static int m_ctl(Evfs *v, int c, void *a) { return c == EVFS_CMD_UNREGISTER ? EVFS_OK : EVFS_ERR_NO_SUPPORT; }
static Evfs m_vfs = { .vfs_name = "base", .vfs_file_size = sizeof(MFile), .vfs_dir_size = sizeof(MDir), .m_open = m_open, .m_stat = m_stat, .m_delete = m_del, .m_rename = m_ren, .m_make_dir = m_mkd, .m_open_dir = m_opd, .m_get_cur_dir = m_gcd, .m_set_cur_dir = m_scd, .m_vfs_ctrl = m_ctl };
static void m_start(void) { evfs_init(); NEED(evfs_register(&m_vfs, true) == EVFS_OK, "register"); }
