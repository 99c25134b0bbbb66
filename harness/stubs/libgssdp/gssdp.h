/* Stand-in for libgssdp-1.2, which is not installed here: SSDP discovery is
   announced to nobody.  Only what lib/WebServices.cpp uses. */
#ifndef VERIF_GSSDP_H
#define VERIF_GSSDP_H
#include <glib-object.h>
G_BEGIN_DECLS
typedef GObject GSSDPClient;
typedef GObject GSSDPResourceGroup;
GSSDPClient *gssdp_client_new (const char *iface, GError **error);
void gssdp_client_set_server_id (GSSDPClient *c, const char *id);
const char *gssdp_client_get_host_ip (GSSDPClient *c);
gboolean gssdp_client_get_active (GSSDPClient *c);
GSSDPResourceGroup *gssdp_resource_group_new (GSSDPClient *c);
void gssdp_resource_group_set_available (GSSDPResourceGroup *g, gboolean b);
gboolean gssdp_resource_group_get_available (GSSDPResourceGroup *g);
guint gssdp_resource_group_add_resource_simple (GSSDPResourceGroup *g,
                                                const char *target,
                                                const char *usn,
                                                const char *location);
G_END_DECLS
#endif
