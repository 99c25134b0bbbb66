// Stand-in for the running part of GStreamer.
//
// The code under test creates real elements and sets real properties; but its
// pipelines never run.  The calls it makes on them are interposed: a pipeline
// is ready (prerolled) when the call of the schedule that started it returns
// or when its state is waited for, messages go to the real bus, and position,
// duration, frames and the end of the contents are what the schedule says.
#include "Media.h"
#include "Player.h"
#include "stubs.h"
#include <dlfcn.h>
#include <gst/app/gstappsink.h>
#include <gst/gst.h>
#include <json/json.h>
#include <math.h>
#include <string.h>
#include <unistd.h>
using namespace ginga;
using namespace std;

map<Media *, Player *> &drive_players ();
vector<Object *> &drive_objs ();

struct Pipe
{
  GstElement *top;
  void *owner;
  GstState cur, target;
  bool changing;
  gint64 pos, dur;
  GstSample *queued;
  bool hasCallbacks;
  GstAppSinkCallbacks cb;
  gpointer cbData;
  GstElement *cbSink;
};

static list<Pipe> pipes;
static Json::Value seeks (Json::arrayValue);
static int abandoned = 0; // disposed of while active

#define REAL(name)                                                            \
  static decltype (&name) real = (decltype (&name)) dlsym (RTLD_NEXT, #name); \
  if (!real)                                                                  \
  _exit (98)

static void
gone (gpointer, GObject *o)
{
  for (auto it = pipes.begin (); it != pipes.end (); ++it)
    if ((GObject *) it->top == o)
      {
        if (it->cur != GST_STATE_NULL || it->changing)
          abandoned++;
        if (it->queued)
          gst_sample_unref (it->queued);
        pipes.erase (it);
        return;
      }
}

static Pipe *
pipe_of_top (gpointer e)
{
  for (auto &p : pipes)
    if ((gpointer) p.top == e)
      return &p;
  return nullptr;
}

static bool
inside (GstElement *e, GstElement *top)
{
  return e == top
         || gst_object_has_as_ancestor (GST_OBJECT (e), GST_OBJECT (top));
}

static bool
has_property (gpointer o, const char *n)
{
  return g_object_class_find_property (G_OBJECT_GET_CLASS (o), n) != nullptr;
}

static GstElement *
part (Pipe *p, const char *n)
{
  GstElement *e = nullptr;
  if (has_property (p->top, n))
    g_object_get (p->top, n, &e, nullptr);
  if (e)
    gst_object_unref (e); // kept by the pipeline
  return e;
}

// The pipeline element e is a part of.
static Pipe *
pipe_of (GstElement *e)
{
  for (auto &p : pipes)
    {
      if (inside (e, p.top))
        return &p;
      for (auto n : { "video-sink", "audio-sink" })
        {
          GstElement *x = part (&p, n);
          if (x && inside (e, x))
            return &p;
        }
    }
  return nullptr;
}

// A pipeline met for the first time belongs to the media a player has last
// been created for.
static Pipe *
record (GstElement *e)
{
  Pipe *p = pipe_of_top (e);
  if (!p)
    {
      pipes.push_back ({ e, nclua_owner, GST_STATE_NULL, GST_STATE_NULL, false,
                         0, -1, nullptr, false, {}, nullptr, nullptr });
      p = &pipes.back ();
      g_object_weak_ref (G_OBJECT (e), gone, nullptr);
    }
  return p;
}

static void
said (Pipe *p, GstState a, GstState b)
{
  if (a != b)
    gst_element_post_message (
        p->top, gst_message_new_state_changed (GST_OBJECT (p->top), a, b,
                                               p->target == b
                                                   ? GST_STATE_VOID_PENDING
                                                   : p->target));
}

// Steps from the current state to s.
static void
go (Pipe *p, GstState s)
{
  while (p->cur != s)
    {
      GstState n = (GstState) (p->cur < s ? p->cur + 1 : p->cur - 1);
      GstState o = p->cur;
      p->cur = n;
      said (p, o, n);
    }
}

// The contents have arrived.
static void
settle (Pipe *p)
{
  if (!p->changing)
    return;
  p->changing = false;
  if (p->hasCallbacks && p->cbSink)
    {
      // What appsink calls, if it is there, before the first buffer.
      GstCaps *caps = gst_caps_new_empty_simple ("video/x-raw");
      GstQuery *q = gst_query_new_allocation (caps, FALSE);
      if (p->cb.propose_allocation)
        p->cb.propose_allocation (GST_APP_SINK (p->cbSink), q, p->cbData);
      gst_query_unref (q);
      gst_caps_unref (caps);
      if (p->cb.new_event)
        p->cb.new_event (GST_APP_SINK (p->cbSink), p->cbData);
      if (p->cb.new_preroll)
        p->cb.new_preroll (GST_APP_SINK (p->cbSink), p->cbData);
    }
  go (p, p->target);
}

static GstStateChangeReturn
change (Pipe *p, GstState s)
{
  GstBus *bus = gst_element_get_bus (p->top);
  if (s == GST_STATE_NULL)
    {
      p->changing = false;
      p->cur = p->target = s;
      p->pos = 0;
      p->dur = -1;
      if (p->queued)
        gst_sample_unref (p->queued);
      p->queued = nullptr;
      gst_bus_set_flushing (bus, TRUE);
      gst_object_unref (bus);
      return GST_STATE_CHANGE_SUCCESS;
    }
  if (p->cur == GST_STATE_NULL)
    gst_bus_set_flushing (bus, FALSE);
  gst_object_unref (bus);
  p->target = s;
  if (p->changing)
    return GST_STATE_CHANGE_ASYNC;
  if (p->cur <= GST_STATE_READY && s >= GST_STATE_PAUSED)
    {
      go (p, GST_STATE_READY);
      p->changing = true;
      return GST_STATE_CHANGE_ASYNC;
    }
  go (p, s);
  return GST_STATE_CHANGE_SUCCESS;
}

extern "C" {
GstStateChangeReturn
gst_element_set_state (GstElement *e, GstState s)
{
  REAL (gst_element_set_state);
  if (!GST_IS_PIPELINE (e))
    return real (e, s);
  Pipe *p = pipe_of_top (e);
  if (!p && s == GST_STATE_NULL)
    return real (e, s);
  return change (record (e), s);
}

GstStateChangeReturn
gst_element_get_state (GstElement *e, GstState *s, GstState *pending,
                       GstClockTime timeout)
{
  REAL (gst_element_get_state);
  if (!GST_IS_PIPELINE (e))
    return real (e, s, pending, timeout);
  Pipe *p = record (e);
  if (timeout == GST_CLOCK_TIME_NONE)
    settle (p);
  if (s)
    *s = p->cur;
  if (pending)
    *pending = p->changing ? p->target : GST_STATE_VOID_PENDING;
  return p->changing ? GST_STATE_CHANGE_ASYNC : GST_STATE_CHANGE_SUCCESS;
}

static gboolean
sought (GstElement *e, gdouble rate, GstFormat f, GstSeekType t1, gint64 start,
        GstSeekType t2, gint64 stop)
{
  Pipe *p = pipe_of (e);
  if (!p || p->cur < GST_STATE_PAUSED || f != GST_FORMAT_TIME || rate == 0)
    return FALSE;
  Media *m = (Media *) p->owner;
  // Without video, there is no video sink.
  GstElement *v = part (p, "video-sink");
  if (v && inside (e, v)
      && m->getProperty ("type").compare (0, 5, "audio") == 0)
    return FALSE;
  Json::Value x (Json::arrayValue);
  int o = 0;
  for (size_t i = 0; i < drive_objs ().size (); i++)
    if (drive_objs ()[i] == m)
      o = i + 1;
  gint64 a = t1 == GST_SEEK_TYPE_SET ? start : -1;
  gint64 b = t2 == GST_SEEK_TYPE_SET ? stop : -1;
  x.append (o);
  x.append (Json::Int64 (a < 0 ? -1 : (a + 500000) / 1000000));
  x.append (Json::Int64 (b < 0 ? -1 : (b + 500000) / 1000000));
  x.append ((int) lround (rate * 100));
  seeks.append (x);
  gint64 at = rate > 0 ? a : b;
  if (at >= 0)
    p->pos = at;
  return TRUE;
}

gboolean
gst_element_seek (GstElement *e, gdouble rate, GstFormat f, GstSeekFlags,
                  GstSeekType t1, gint64 start, GstSeekType t2, gint64 stop)
{
  return sought (e, rate, f, t1, start, t2, stop);
}

gboolean
gst_element_seek_simple (GstElement *e, GstFormat f, GstSeekFlags, gint64 pos)
{
  return sought (e, 1., f, GST_SEEK_TYPE_SET, pos, GST_SEEK_TYPE_NONE, 0);
}

gboolean
gst_element_send_event (GstElement *e, GstEvent *ev)
{
  REAL (gst_element_send_event);
  if (!pipe_of (e) || GST_EVENT_TYPE (ev) != GST_EVENT_SEEK)
    return real (e, ev);
  gdouble rate;
  GstFormat f;
  GstSeekFlags fl;
  GstSeekType t1, t2;
  gint64 a, b;
  gst_event_parse_seek (ev, &rate, &f, &fl, &t1, &a, &t2, &b);
  gboolean r = sought (e, rate, f, t1, a, t2, b);
  gst_event_unref (ev);
  return r;
}

gboolean
gst_element_query_position (GstElement *e, GstFormat f, gint64 *cur)
{
  Pipe *p = pipe_of (e);
  if (!p || p->cur < GST_STATE_PAUSED || f != GST_FORMAT_TIME)
    return FALSE;
  if (cur)
    *cur = p->pos;
  return TRUE;
}

gboolean
gst_element_query_duration (GstElement *e, GstFormat f, gint64 *dur)
{
  Pipe *p = pipe_of (e);
  if (!p || p->cur < GST_STATE_PAUSED || f != GST_FORMAT_TIME || p->dur < 0)
    return FALSE;
  if (dur)
    *dur = p->dur;
  return TRUE;
}

static GstSample *
pull (GstAppSink *s)
{
  Pipe *p = pipe_of (GST_ELEMENT (s));
  if (!p || p->cur < GST_STATE_PAUSED)
    return nullptr;
  GstSample *x = p->queued;
  p->queued = nullptr;
  return x;
}

GstSample *
gst_app_sink_pull_sample (GstAppSink *s)
{
  return pull (s);
}

GstSample *
gst_app_sink_try_pull_sample (GstAppSink *s, GstClockTime)
{
  return pull (s);
}

void
gst_app_sink_set_callbacks (GstAppSink *s, GstAppSinkCallbacks *cb,
                            gpointer data, GDestroyNotify)
{
  // The pipeline it is in, if it is in one already.
  GstObject *o = GST_OBJECT (s), *up;
  gst_object_ref (o);
  while ((up = gst_object_get_parent (o)) != nullptr)
    {
      gst_object_unref (o);
      o = up;
    }
  gst_object_unref (o);
  if (GST_IS_PIPELINE (o))
    {
      Pipe *p = record (GST_ELEMENT (o));
      p->hasCallbacks = true;
      p->cb = *cb;
      p->cbData = data;
      p->cbSink = GST_ELEMENT (s);
    }
}
}

// ---------------------------------------------------------------------------
// For the driver.

void
gst_prepare ()
{
  gst_init (nullptr, nullptr);
  // Load what is going to be used.
  for (auto n :
       { "playbin", "capsfilter", "appsink", "volume", "audiopanorama",
         "equalizer-3bands", "audioconvert", "autoaudiosink", "audiotestsrc",
         "tee", "queue", "spectrascope", "videoconvert" })
    {
      GstElement *e = gst_element_factory_make (n, nullptr);
      if (e)
        gst_object_unref (gst_object_ref_sink (e));
    }
}

static void
dispatch ()
{
  for (int i = 0; i < 100 && g_main_context_iteration (nullptr, FALSE); i++)
    ;
}

void
gst_after_step ()
{
  for (auto &p : pipes)
    settle (&p);
  dispatch ();
}

static Pipe *
pipe_owned (Object *o)
{
  Pipe *r = nullptr;
  for (auto &p : pipes)
    if (p.owner == (void *) dynamic_cast<Media *> (o))
      r = &p;
  return r;
}

static bool
alive (Pipe *p)
{
  for (auto o : drive_objs ())
    if ((void *) dynamic_cast<Media *> (o) == p->owner)
      {
        Media *m = (Media *) p->owner;
        return !m->isSleeping () && drive_players ().count (m)
               && p == pipe_owned (o);
      }
  return false;
}

// What the world does: the contents end, a frame arrives, time passes.
bool
gst_op (const string &op, Object *o, const Json::Value &step)
{
  Pipe *p = o ? pipe_owned (o) : nullptr;
  if (!p || p->cur < GST_STATE_PAUSED)
    return false;
  if (op == "at") // [op, id, position, duration]
    {
      p->pos = (gint64) step[2].asInt () * 1000000;
      p->dur = step[3].asInt () < 0 ? -1
                                    : (gint64) step[3].asInt () * 1000000;
      return true;
    }
  if (p->cur != GST_STATE_PLAYING)
    return false;
  if (op == "eos")
    gst_element_post_message (p->top,
                              gst_message_new_eos (GST_OBJECT (p->top)));
  else if (op == "frame") // [op, id, four colours as rrggbb]
    {
      const int n = 240, nh = 160; // width and height
      GstBuffer *b = gst_buffer_new_allocate (nullptr, n * nh * 4, nullptr);
      GstMapInfo mi;
      gst_buffer_map (b, &mi, GST_MAP_WRITE);
      for (int y = 0; y < nh; y++)
        for (int x = 0; x < n; x++)
          {
            int q = 2 * (y >= nh / 2) + (x >= n / 2);
            uint32_t c = 0xff000000u
                         | (uint32_t) strtoul (
                               step[2][q].asString ().c_str (), nullptr, 16);
            memcpy (mi.data + 4 * (y * n + x), &c, 4);
          }
      gst_buffer_unmap (b, &mi);
      GstCaps *caps = gst_caps_new_simple (
          "video/x-raw", "format", G_TYPE_STRING, "BGRA", "width", G_TYPE_INT,
          n, "height", G_TYPE_INT, nh, "framerate", GST_TYPE_FRACTION, 25, 1,
          nullptr);
      if (p->queued)
        gst_sample_unref (p->queued);
      p->queued = gst_sample_new (b, caps, nullptr, nullptr);
      gst_buffer_unref (b);
      gst_caps_unref (caps);
      if (p->hasCallbacks && p->cb.new_sample)
        p->cb.new_sample (GST_APP_SINK (p->cbSink), p->cbData);
    }
  else
    return false;
  dispatch ();
  return true;
}

// The element of a factory within e.
static GstElement *
find (GstElement *e, const char *factory)
{
  GstElementFactory *f = gst_element_get_factory (e);
  if (f && !strcmp (GST_OBJECT_NAME (f), factory))
    return e;
  if (!GST_IS_BIN (e))
    return nullptr;
  for (GList *l = GST_BIN_CHILDREN (e); l; l = l->next)
    {
      GstElement *r = find (GST_ELEMENT (l->data), factory);
      if (r)
        return r;
    }
  return nullptr;
}

static double
get (GstElement *e, const char *n, double dv)
{
  double d = dv;
  if (e && has_property (e, n))
    {
      GValue v = G_VALUE_INIT, w = G_VALUE_INIT;
      g_object_get_property (G_OBJECT (e), n, &v);
      g_value_init (&w, G_TYPE_DOUBLE);
      if (g_value_transform (&v, &w))
        d = g_value_get_double (&w);
      else if (G_VALUE_HOLDS_BOOLEAN (&v))
        d = g_value_get_boolean (&v);
      else if (G_VALUE_HOLDS_ENUM (&v))
        d = g_value_get_enum (&v);
      g_value_unset (&v);
    }
  return d;
}

static int
cents (double d)
{
  return (int) lround (d * 100);
}

void
gst_observe (Json::Value &v, bool playing)
{
  int lost = abandoned;
  for (auto &p : pipes)
    if (p.cur != GST_STATE_NULL || p.changing)
      if (!playing || !alive (&p))
        lost++;
  v["gl"] = lost;
  v["sk"] = seeks;
  seeks = Json::Value (Json::arrayValue);
  if (!playing)
    return;
  Json::Value gs (Json::arrayValue), sv (Json::arrayValue),
      su (Json::arrayValue);
  for (auto o : drive_objs ())
    {
      Pipe *p = pipe_owned (o);
      if (p && !alive (p))
        p = nullptr;
      gs.append (!p || p->cur < GST_STATE_PAUSED
                     ? 0
                     : p->cur == GST_STATE_PLAYING ? 1 : 2);
      Json::Value x (Json::arrayValue);
      string uri;
      GstElement *a;
      if (p && (a = part (p, "audio-sink")) != nullptr)
        {
          GstElement *vol = find (a, "volume");
          GstElement *eq = find (a, "equalizer-3bands");
          x.append (
              cents (get (p->top, "volume", 1) * get (vol, "volume", 1)));
          x.append ((int) (get (p->top, "mute", 0) + get (vol, "mute", 0)
                           > 0));
          x.append (cents (get (find (a, "audiopanorama"), "panorama", 0)));
          for (auto n : { "band0", "band1", "band2" })
            x.append (cents (get (eq, n, 0)));
          gchar *u = nullptr;
          g_object_get (p->top, "uri", &u, nullptr);
          uri = u ? u : "";
          g_free (u);
        }
      else if (p && (a = find (p->top, "audiotestsrc")) != nullptr)
        {
          x.append (cents (get (a, "volume", -1)));
          x.append (cents (get (a, "freq", -1)));
          x.append ((int) get (a, "wave", -1));
        }
      sv.append (x);
      su.append (uri);
    }
  v["gs"] = gs;
  v["sv"] = sv;
  v["su"] = su;
}
