/* Stand-in for ncluaw (the NCLua wrapper), which is not installed here.  The
   interpreter is replaced by a mailbox: what the player sends is recorded,
   what the "script" posts is queued by the harness. */
#ifndef VERIF_NCLUAW_H
#define VERIF_NCLUAW_H
#include <cairo.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct _ncluaw_t ncluaw_t;
typedef enum
{
  NCLUAW_EVENT_UNKNOWN = 0,
  NCLUAW_EVENT_KEY,
  NCLUAW_EVENT_NCL,
  NCLUAW_EVENT_POINTER,
  NCLUAW_EVENT_USER,
} ncluaw_event_class_t;
typedef struct _ncluaw_event_t
{
  ncluaw_event_class_t cls;
  union
  {
    struct { const char *type; const char *key; } key;
    struct { const char *type; const char *action; const char *name; const char *value; } ncl;
  } u;
} ncluaw_event_t;
ncluaw_t *ncluaw_open (const char *path, int w, int h, char **errmsg);
void ncluaw_close (ncluaw_t *nw);
void ncluaw_cycle (ncluaw_t *nw);
void *ncluaw_debug_get_surface (ncluaw_t *nw);
void ncluaw_send_ncl_event (ncluaw_t *nw, const char *type, const char *action, const char *name, const char *value);
void ncluaw_send_key_event (ncluaw_t *nw, const char *type, const char *key);
ncluaw_event_t *ncluaw_receive (ncluaw_t *nw);
void ncluaw_event_free (ncluaw_event_t *evt);
#ifdef __cplusplus
}
#endif
#endif
