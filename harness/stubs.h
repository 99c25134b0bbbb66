#ifndef VERIF_STUBS_H
#define VERIF_STUBS_H
#include <string>
#include <vector>
#include <ncluaw.h>
// A message to (or, posted, from) the script of the media `who'.
struct NcluaMsg { void *who; std::string type, action, name, value; };
// Everything the players sent to the interpreters, in order.
extern std::vector<NcluaMsg> nclua_sent;
// The media whose player is being started (set by the driver).
extern void *nclua_owner;
// Queues an event as if the script of a media had posted it; false if it is
// not running.
bool nclua_post (const NcluaMsg &m);
#endif
