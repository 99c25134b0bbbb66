// Stand-ins for the two libraries that are not installed here.
#include "stubs.h"
#include <deque>
#include <glib-object.h>
#include <string.h>
#include <libgssdp/gssdp.h>

std::vector<NcluaMsg> nclua_sent;
void *nclua_owner = NULL;

struct _ncluaw_t
{
  cairo_surface_t *sfc;
  void *who;
  std::deque<NcluaMsg> in;
};

static std::vector<ncluaw_t *> running;

bool
nclua_post (const NcluaMsg &m)
{
  for (auto nw : running)
    if (nw->who == m.who)
      {
        nw->in.push_back (m);
        return true;
      }
  return false;
}

extern "C" {
ncluaw_t *
ncluaw_open (const char *, int w, int h, char **)
{
  ncluaw_t *nw = new _ncluaw_t;
  nw->sfc = cairo_image_surface_create (CAIRO_FORMAT_ARGB32, w > 0 ? w : 1,
                                        h > 0 ? h : 1);
  nw->who = nclua_owner;
  running.push_back (nw);
  return nw;
}
void
ncluaw_close (ncluaw_t *nw)
{
  for (auto it = running.begin (); it != running.end (); ++it)
    if (*it == nw)
      {
        running.erase (it);
        break;
      }
  cairo_surface_destroy (nw->sfc);
  delete nw;
}
void
ncluaw_cycle (ncluaw_t *)
{
}
void *
ncluaw_debug_get_surface (ncluaw_t *nw)
{
  return nw->sfc;
}
void
ncluaw_send_ncl_event (ncluaw_t *nw, const char *type, const char *action,
                       const char *name, const char *value)
{
  nclua_sent.push_back (
      { nw->who, type, action, name ? name : "", value ? value : "" });
}
void
ncluaw_send_key_event (ncluaw_t *nw, const char *type, const char *key)
{
  nclua_sent.push_back ({ nw->who, "key", type, key ? key : "", "" });
}
ncluaw_event_t *
ncluaw_receive (ncluaw_t *nw)
{
  if (nw->in.empty ())
    return NULL;
  NcluaMsg m = nw->in.front ();
  nw->in.pop_front ();
  ncluaw_event_t *e = new ncluaw_event_t;
  memset (e, 0, sizeof *e);
  if (m.type == "presentation" || m.type == "attribution"
      || m.type == "selection")
    e->cls = NCLUAW_EVENT_NCL;
  else
    e->cls = NCLUAW_EVENT_USER;
  e->u.ncl.type = strdup (m.type.c_str ());
  e->u.ncl.action = strdup (m.action.c_str ());
  e->u.ncl.name = strdup (m.name.c_str ());
  e->u.ncl.value = strdup (m.value.c_str ());
  return e;
}
void
ncluaw_event_free (ncluaw_event_t *e)
{
  free ((void *) e->u.ncl.type);
  free ((void *) e->u.ncl.action);
  free ((void *) e->u.ncl.name);
  free ((void *) e->u.ncl.value);
  delete e;
}

GSSDPClient *
gssdp_client_new (const char *, GError **)
{
  return (GSSDPClient *) g_object_new (G_TYPE_OBJECT, NULL);
}
void
gssdp_client_set_server_id (GSSDPClient *, const char *)
{
}
const char *
gssdp_client_get_host_ip (GSSDPClient *)
{
  return "127.0.0.1";
}
gboolean
gssdp_client_get_active (GSSDPClient *)
{
  return TRUE;
}
GSSDPResourceGroup *
gssdp_resource_group_new (GSSDPClient *)
{
  return (GSSDPResourceGroup *) g_object_new (G_TYPE_OBJECT, NULL);
}
void
gssdp_resource_group_set_available (GSSDPResourceGroup *, gboolean)
{
}
gboolean
gssdp_resource_group_get_available (GSSDPResourceGroup *)
{
  return TRUE;
}
guint
gssdp_resource_group_add_resource_simple (GSSDPResourceGroup *, const char *,
                                          const char *, const char *)
{
  return 1;
}
}
