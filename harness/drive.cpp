// Conformance driver: runs scripted schedules on the real implementation and
// records, after every public call, the abstract state the TLA+ specification
// talks about.  Input: a file with one JSON scenario per line.  Output: one
// JSON record per line (a "doc" record, then one "obs" record per step).
//
// Each scenario runs in a child process of its own, so that an abort, a crash
// or a hang of the code under test is an observation like any other.
#include "ginga.h"
#include "aux-ginga.h"
#include "Context.h"
#include "Document.h"
#include "Event.h"
#include "Formatter.h"
#include "Media.h"
#include "MediaSettings.h"
#include "Object.h"
#include "Parser.h"
#include "ParserLua.h"
#include "Player.h"
#include "PlayerAnimator.h"
#include "Predicate.h"
#include "Switch.h"
#include "WebServices.h"
#include "stubs.h"

#include <dlfcn.h>
#include <json/json.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <signal.h>
#include <sstream>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

using namespace ginga;
using namespace std;

// ---------------------------------------------------------------------------
// Recording.

static int out_fd = 1;
static string out_buf;

static void
out_flush ()
{
  size_t n = 0;
  while (n < out_buf.size ())
    {
      ssize_t k = write (out_fd, out_buf.data () + n, out_buf.size () - n);
      if (k <= 0)
        _exit (97);
      n += k;
    }
  out_buf.clear ();
}

static void
emit (const Json::Value &v)
{
  static Json::StreamWriterBuilder b;
  b["indentation"] = "";
  b["emitUTF8"] = true;
  out_buf += Json::writeString (b, v);
  out_buf += "\n";
  if (out_buf.size () > 60000)
    out_flush ();
}

static map<Event *, int> evt_idx;   // 1-based
static map<Object *, int> obj_idx;  // 1-based
static vector<Event *> evts;
static vector<Object *> objs;
static vector<pair<int, string>> tracked; // (object, property name)
static vector<pair<Event *, int>> trans_log; // successful transitions, in order
static map<Media *, Player *> players;
static int trans_budget = 3000;
static int trans_tried = 0;
static bool log_players = false;

static const char TRC[] = "apRse"; // unused

static int
trcode (Event::Transition t)
{
  switch (t)
    {
    case Event::START:
      return 1;
    case Event::PAUSE:
      return 2;
    case Event::RESUME:
      return 3;
    case Event::STOP:
      return 4;
    case Event::ABORT:
      return 5;
    }
  return 0;
}

static int
stcode (Event::State s)
{
  return s == Event::SLEEPING ? 0 : s == Event::OCCURRING ? 1 : 2;
}

static Event::Transition
str2tr (const string &s)
{
  if (s == "start")
    return Event::START;
  if (s == "pause")
    return Event::PAUSE;
  if (s == "resume")
    return Event::RESUME;
  if (s == "stop")
    return Event::STOP;
  return Event::ABORT;
}

static void
diverged ()
{
  Json::Value v (Json::objectValue);
  v["r"] = "diverge";
  emit (v);
  out_flush ();
  _exit (0);
}

// The public Event::transition and Player::createPlayer of the library are
// interposed by the two definitions below (the library is a shared object), so
// that every transition that succeeds is recorded, in order, whoever asks for
// it, without touching the library's sources.
namespace ginga {
bool
Event::transition (Event::Transition t)
{
  typedef bool (*fn) (Event *, Event::Transition);
  static fn real
      = (fn) dlsym (RTLD_NEXT, "_ZN5ginga5Event10transitionENS0_10TransitionE");
  if (!real)
    _exit (98);
  trans_tried++;
  if (--trans_budget < 0)
    diverged ();
  bool r = real (this, t);
  if (r)
    trans_log.push_back (make_pair (this, trcode (t)));
  return r;
}

Player *
Player::createPlayer (Formatter *f, Media *m, const string &uri,
                      const string &type)
{
  typedef Player *(*fn) (Formatter *, Media *, const string &,
                         const string &);
  static fn real = (fn) dlsym (
      RTLD_NEXT, "_ZN5ginga6Player12createPlayerEPNS_9FormatterEPNS_"
                 "5MediaERKNSt7__cxx1112basic_stringIcSt11char_"
                 "traitsIcESaIcEEESC_");
  if (!real)
    _exit (98);
  nclua_owner = m;
  Player *p = real (f, m, uri, type);
  players[m] = p;
  return p;
}
}

// Set by the interposed parser functions: the document just parsed.
static void document_ready (Document *doc);

namespace ginga {
Document *
Parser::parseFile (const string &path, int w, int h, string *err)
{
  typedef Document *(*fn) (const string &, int, int, string *);
  static fn real = (fn) dlsym (
      RTLD_NEXT, "_ZN5ginga6Parser9parseFileERKNSt7__cxx1112basic_stringIcSt"
                 "11char_traitsIcESaIcEEEiiPS6_");
  if (!real)
    _exit (98);
  Document *d = real (path, w, h, err);
  document_ready (d);
  return d;
}

Document *
ParserLua::parseFile (const string &path, string *err)
{
  typedef Document *(*fn) (const string &, string *);
  static fn real = (fn) dlsym (
      RTLD_NEXT, "_ZN5ginga9ParserLua9parseFileERKNSt7__cxx1112basic_stringIc"
                 "St11char_traitsIcESaIcEEEPS6_");
  if (!real)
    _exit (98);
  Document *d = real (path, err);
  document_ready (d);
  return d;
}
}

// ---------------------------------------------------------------------------
// Document projection.

static double
ms (Time t)
{
  if (t == GINGA_TIME_NONE)
    return -1;
  return (double) (guint64) ((t + 500000) / 1000000);
}

static Json::Value
jtime (Time t)
{
  double d = ms (t);
  if (d > 1e9)
    d = 1e9;
  return Json::Value ((int) d);
}

static Json::Value
dump_pred (Predicate *p)
{
  Json::Value v (Json::objectValue);
  if (p == nullptr)
    {
      v["k"] = "none";
      return v;
    }
  switch (p->getType ())
    {
    case Predicate::FALSUM:
      v["k"] = "false";
      break;
    case Predicate::VERUM:
      v["k"] = "true";
      break;
    case Predicate::ATOM:
      {
        string l, r;
        Predicate::Test t;
        static const char *nm[] = { "eq", "ne", "lt", "lte", "gt", "gte" };
        p->getTest (&l, &t, &r);
        v["k"] = "atom";
        v["l"] = l;
        v["t"] = nm[(int) t];
        v["r"] = r;
        break;
      }
    default:
      {
        v["k"] = p->getType () == Predicate::NEGATION
                     ? "not"
                     : p->getType () == Predicate::CONJUNCTION ? "and" : "or";
        Json::Value c (Json::arrayValue);
        for (auto ch : *p->getChildren ())
          c.append (dump_pred (ch));
        v["c"] = c;
      }
    }
  return v;
}

static int
E (Event *e)
{
  auto it = evt_idx.find (e);
  return it == evt_idx.end () ? 0 : it->second;
}

static int
O (Object *o)
{
  auto it = obj_idx.find (o);
  return it == obj_idx.end () ? 0 : it->second;
}

static const char *known_props[]
    = { "uri",      "type",      "left",      "top",     "width",
        "height",   "right",     "bottom",    "zIndex",  "zOrder",
        "focusIndex", "moveUp",  "moveDown",  "moveLeft", "moveRight",
        "explicitDur", "duration", "visible", "transparency", "background",
        "bounds", "location", "size", "device", "transIn", "transOut",
        "fontColor", "fontSize", "fontFamily", "fontStyle", "fontWeight",
        "freq", "wave", "volume", "rate", "freeze", "service.currentFocus" };

static void
index_doc (Document *doc)
{
  evt_idx.clear ();
  obj_idx.clear ();
  evts.clear ();
  objs.clear ();
  for (auto o : *doc->getObjects ())
    {
      objs.push_back (o);
      obj_idx[o] = objs.size ();
      for (auto e : *o->getEvents ())
        {
          evts.push_back (e);
          evt_idx[e] = evts.size ();
        }
    }
}

static Json::Value
dump_doc (Document *doc, const Json::Value &scn)
{
  Json::Value d (Json::objectValue);
  index_doc (doc);
  d["r"] = "doc";
  d["id"] = doc->getId ();
  d["root"] = O (doc->getRoot ());
  d["settings"] = O (doc->getSettings ());
  Json::Value jo (Json::arrayValue);
  tracked.clear ();
  Json::Value jp (Json::arrayValue);
  for (auto o : objs)
    {
      Json::Value v (Json::objectValue);
      v["id"] = o->getId ();
      v["parent"] = O (o->getParent ());
      Json::Value ev (Json::arrayValue);
      for (auto e : *o->getEvents ())
        ev.append (E (e));
      v["evs"] = ev;
      v["lambda"] = E (o->getLambda ());
      Json::Value al (Json::arrayValue);
      for (auto &a : *o->getAliases ())
        {
          Json::Value x (Json::objectValue);
          x["n"] = a.first;
          x["c"] = O (a.second);
          al.append (x);
        }
      v["aliases"] = al;
      Json::Value kids (Json::arrayValue), ports (Json::arrayValue),
          links (Json::arrayValue), rules (Json::arrayValue),
          sports (Json::arrayValue);
      Composition *comp = dynamic_cast<Composition *> (o);
      if (comp)
        for (auto c : *comp->getChildren ())
          kids.append (O (c));
      Context *ctx = dynamic_cast<Context *> (o);
      Switch *sw = dynamic_cast<Switch *> (o);
      if (ctx)
        {
          v["type"] = "ctx";
          for (auto p : *ctx->getPorts ())
            ports.append (E (p));
          for (auto &l : *ctx->getLinks ())
            {
              Json::Value jl (Json::objectValue), cs (Json::arrayValue),
                  as (Json::arrayValue);
              for (auto &c : l.first)
                {
                  Json::Value x (Json::objectValue);
                  x["e"] = E (c.event);
                  x["t"] = trcode (c.transition);
                  x["p"] = dump_pred (c.predicate);
                  cs.append (x);
                }
              for (auto &a : l.second)
                {
                  Json::Value x (Json::objectValue);
                  x["e"] = E (a.event);
                  x["t"] = trcode (a.transition);
                  x["v"] = a.value;
                  x["du"] = a.duration;
                  x["dl"] = a.delay;
                  as.append (x);
                }
              jl["conds"] = cs;
              jl["acts"] = as;
              links.append (jl);
            }
          v["on"] = ctx->getLinksStatus ();
        }
      else if (sw)
        {
          v["type"] = "switch";
          for (auto &r : *sw->getRules ())
            {
              Json::Value x (Json::objectValue);
              x["o"] = O (r.first);
              x["p"] = dump_pred (r.second);
              rules.append (x);
            }
          for (auto &sp : *sw->getSwitchPorts ())
            {
              Json::Value x (Json::objectValue), es (Json::arrayValue);
              x["id"] = sp.first;
              x["e"] = E (sw->getEvent (Event::PRESENTATION, sp.first));
              for (auto e : sp.second)
                es.append (E (e));
              x["evs"] = es;
              sports.append (x);
            }
        }
      else if (dynamic_cast<MediaSettings *> (o))
        v["type"] = "settings";
      else
        v["type"] = "media";
      v["kids"] = kids;
      v["ports"] = ports;
      v["links"] = links;
      v["rules"] = rules;
      v["sports"] = sports;
      jo.append (v);

      set<string> names;
      for (auto e : *o->getEvents ())
        if (e->getType () == Event::ATTRIBUTION)
          names.insert (e->getId ());
      for (auto n : known_props)
        if (o->getProperty (n) != "")
          names.insert (n);
      for (auto &n : scn["track"])
        if (o->getProperty (n.asString ()) != "")
          names.insert (n.asString ());
      for (auto &n : names)
        {
          tracked.push_back (make_pair (O (o), n));
          Json::Value x (Json::objectValue);
          x["o"] = O (o);
          x["n"] = n;
          x["v"] = o->getProperty (n);
          jp.append (x);
        }
    }
  d["objs"] = jo;
  d["props"] = jp;
  Json::Value je (Json::arrayValue);
  for (auto e : evts)
    {
      Json::Value v (Json::objectValue);
      Time b, n;
      string key;
      e->getInterval (&b, &n);
      v["o"] = O (e->getObject ());
      v["ty"] = e->getType () == Event::PRESENTATION
                    ? "p"
                    : e->getType () == Event::ATTRIBUTION
                          ? "a"
                          : e->getType () == Event::SELECTION ? "s" : "l";
      v["id"] = e->getId ();
      v["label"] = e->getLabel ();
      v["b"] = jtime (b);
      v["n"] = jtime (n);
      e->getParameter ("key", &key);
      v["key"] = key;
      je.append (v);
    }
  d["evs"] = je;
  return d;
}

static Json::Value current_scn;
static bool dumped = false;
static bool with_gst = false;

// gst.cpp
void gst_prepare ();
void gst_after_step ();
bool gst_op (const string &op, Object *o, const Json::Value &step);
void gst_observe (Json::Value &v, bool playing);

static void
document_ready (Document *doc)
{
  dumped = doc != nullptr;
  if (dumped)
    {
      trans_log.clear ();
      emit (dump_doc (doc, current_scn));
      out_flush ();
    }
}

static Json::Value
observe (Formatter *fmt)
{
  Json::Value v (Json::objectValue);
  v["r"] = "obs";
  if (with_gst)
    gst_after_step ();
  bool playing = fmt->getState () == GINGA_STATE_PLAYING;
  v["g"] = playing;
  if (with_gst)
    gst_observe (v, playing);
  Json::Value lg (Json::arrayValue);
  for (auto &x : trans_log)
    {
      auto it = evt_idx.find (x.first);
      if (it == evt_idx.end ())
        continue;
      Json::Value p (Json::arrayValue);
      p.append (it->second);
      p.append (x.second);
      lg.append (p);
    }
  v["log"] = lg;
  v["nt"] = trans_tried;
  trans_tried = 0;
  trans_log.clear ();
  Json::Value msg (Json::arrayValue);
  if (playing)
    for (auto &m : nclua_sent)
      {
        Json::Value p (Json::arrayValue);
        p.append (O ((Object *) m.who));
        p.append (m.type);
        p.append (m.action);
        p.append (m.name);
        p.append (m.value);
        msg.append (p);
      }
  nclua_sent.clear ();
  v["msg"] = msg;
  if (!playing)
    return v;
  Json::Value st (Json::arrayValue), tm (Json::arrayValue),
      pr (Json::arrayValue), pl (Json::arrayValue);
  for (auto e : evts)
    st.append (stcode (e->getState ()));
  for (auto o : objs)
    tm.append (jtime (o->getTime ()));
  for (auto &t : tracked)
    pr.append (objs[t.first - 1]->getProperty (t.second));
  v["st"] = st;
  v["tm"] = tm;
  v["pr"] = pr;
  // Player states: 0 no player, 1 occurring, 2 paused, 3 sleeping.
  for (auto o : objs)
    {
      Media *m = dynamic_cast<Media *> (o);
      int code = 0;
      if (m && !m->isSleeping () && players.count (m))
        {
          Player *p = players[m];
          code = p->getState () == Player::OCCURRING
                     ? 1
                     : p->getState () == Player::PAUSED ? 2 : 3;
        }
      pl.append (code);
    }
  v["pl"] = pl;
  v["foc"] = Player::getCurrentFocus ();
  Json::Value fo (Json::arrayValue);
  for (auto o : objs)
    {
      Media *m = dynamic_cast<Media *> (o);
      fo.append (m ? m->isFocused () : false);
    }
  v["fo"] = fo;
  return v;
}

// Implemented in other files of the harness.
bool extra_op (const string &op, const Json::Value &step, Formatter *fmt,
               Json::Value *res);
void run_other (const Json::Value &scn, const string &dir);

void
drive_emit (const Json::Value &v)
{
  emit (v);
}
map<Media *, Player *> &
drive_players ()
{
  return players;
}
vector<Object *> &
drive_objs ()
{
  return objs;
}
Json::Value
drive_dump_doc (Document *d, const Json::Value &scn)
{
  return dump_doc (d, scn);
}
void
drive_budget (int n)
{
  trans_budget = n;
}

static string
write_tmp (const string &dir, const string &name, const string &txt)
{
  string path = dir + "/" + name;
  ofstream f (path.c_str ());
  if (txt.compare (0, 7, "base64:") == 0)
    {
      gsize n;
      guchar *b = g_base64_decode (txt.c_str () + 7, &n);
      f.write ((const char *) b, n);
      g_free (b);
    }
  else
    f << txt;
  f.close ();
  return path;
}

static void
run_play (const Json::Value &scn, const string &dir)
{
  string file;
  if (scn.isMember ("file"))
    file = scn["file"].asString ();
  else
    file = write_tmp (dir, "doc.ncl", scn["ncl"].asString ());
  for (auto &n : scn["files"].getMemberNames ())
    write_tmp (dir, n, scn["files"][n].asString ());

  GingaOptions opts;
  opts.width = scn.get ("w", 800).asInt ();
  opts.height = scn.get ("h", 600).asInt ();
  opts.debug = false;
  opts.opengl = false;
  opts.experimental = false;
  opts.webservices = scn.get ("ws", false).asBool ();
  Formatter *fmt = new Formatter (&opts);
  current_scn = scn;
  with_gst = scn.get ("gst", false).asBool ();
  uint64_t total = 0, frame = 0;

  for (auto &step : scn["steps"])
    {
      string op = step[0].asString ();
      trans_budget = scn.get ("budget", 3000).asInt ();
      Json::Value res (Json::objectValue);
      bool skip = false;
      if (op == "start")
        {
          string err;
          string f = step.size () > 1 ? dir + "/" + step[1].asString () : file;
          GingaState before = fmt->getState ();
          dumped = false;
          bool ret = fmt->start (f, &err);
          if (ret && !dumped)
            emit (dump_doc (fmt->getDocument (), scn));
          res = observe (fmt);
          res["ret"] = ret;
          if (!ret && before == GINGA_STATE_STOPPED)
            res["err"] = err;
        }
      else if (op == "stop")
        {
          // Destroying the document: no state is left to talk about.
          bool ret = fmt->stop ();
          trans_log.clear ();
          players.clear ();
          res = observe (fmt);
          res["ret"] = ret;
        }
      else if (op == "tick")
        {
          uint64_t d = (uint64_t) step[1].asInt () * 1000000ull;
          total += d;
          bool ret = fmt->sendTick (total, d, frame++);
          if (fmt->getState () != GINGA_STATE_PLAYING)
            trans_log.clear ();
          res = observe (fmt);
          res["ret"] = ret;
        }
      else if (op == "key")
        {
          bool ret = fmt->sendKey (step[1].asString (), step[2].asBool ());
          if (fmt->getState () != GINGA_STATE_PLAYING)
            trans_log.clear ();
          res = observe (fmt);
          res["ret"] = ret;
        }
      else if (op == "act" || op == "trans")
        {
          // [op, object id, type, event id, transition, value]
          int n = 0;
          if (fmt->getState () == GINGA_STATE_PLAYING)
            {
              Document *doc = fmt->getDocument ();
              Object *o = doc->getObjectByIdOrAlias (step[1].asString ());
              Event *e = nullptr;
              if (o)
                {
                  string ty = step[2].asString (), id = step[3].asString ();
                  e = o->getEvent (ty == "p" ? Event::PRESENTATION
                                   : ty == "a"
                                       ? Event::ATTRIBUTION
                                       : ty == "s" ? Event::SELECTION
                                                   : Event::LOOKAT,
                                   id);
                }
              if (e)
                {
                  if (op == "act")
                    n = doc->evalAction (e, str2tr (step[4].asString ()),
                                         step.size () > 5
                                             ? step[5].asString ()
                                             : "");
                  else
                    n = e->transition (str2tr (step[4].asString ())) ? 1 : 0;
                }
              else
                n = -1;
            }
          res = observe (fmt);
          res["ret"] = n > 0;
          res["n"] = n;
        }
      else if (op == "post")
        {
          // [op, object id, type, action, name, value]
          bool ret = false;
          if (fmt->getState () == GINGA_STATE_PLAYING)
            {
              Object *o = fmt->getDocument ()->getObjectByIdOrAlias (
                  step[1].asString ());
              ret = o
                    && nclua_post ({ o, step[2].asString (),
                                     step[3].asString (),
                                     step[4].asString (),
                                     step[5].asString () });
            }
          res = observe (fmt);
          res["ret"] = ret;
        }
      else if (op == "eos" || op == "frame" || op == "at")
        {
          // [op, object id, ...]
          bool ret = fmt->getState () == GINGA_STATE_PLAYING
                     && gst_op (op,
                                fmt->getDocument ()->getObjectByIdOrAlias (
                                    step[1].asString ()),
                                step);
          res = observe (fmt);
          res["ret"] = ret;
        }
      else if (extra_op (op, step, fmt, &res))
        {
          if (res.isNull ())
            skip = true;
          else
            {
              Json::Value x = observe (fmt);
              for (auto &k : x.getMemberNames ())
                res[k] = x[k];
            }
        }
      else
        {
          cerr << "unknown op " << op << endl;
          _exit (99);
        }
      if (!skip)
        emit (res);
      out_flush ();
    }
  if (!scn.get ("nodel", false).asBool ())
    {
      fmt->stop ();
      Json::Value v (Json::objectValue);
      v["r"] = "fin";
      emit (v);
    }
}

static void
run_scn (const Json::Value &scn, const string &dir)
{
  string kind = scn.get ("kind", "play").asString ();
  if (kind == "play")
    run_play (scn, dir);
  else
    run_other (scn, dir);
  out_flush ();
}

// Removes a file, or a directory and what is in it; follows no links.
static void
wipe (const string &path)
{
  if (unlink (path.c_str ()) == 0)
    return;
  GDir *gd = g_dir_open (path.c_str (), 0, nullptr);
  const gchar *nm;
  while (gd && (nm = g_dir_read_name (gd)) != nullptr)
    wipe (path + "/" + nm);
  if (gd)
    g_dir_close (gd);
  rmdir (path.c_str ());
}

int
main (int argc, char **argv)
{
  if (argc < 3)
    {
      cerr << "usage: gvdrive IN OUT" << endl;
      return 2;
    }
  // Quiet: messages of the library are not observations.
  int devnull = open ("/dev/null", O_WRONLY);
  ifstream in (argv[1]);
  int ofd = open (argv[2], O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (!in || ofd < 0)
    return 2;
  char tmpl[] = "/tmp/gvdriveXXXXXX";
  string dir = mkdtemp (tmpl);
  string line;
  bool prepared = false;
  int limit = getenv ("GV_TIMEOUT") ? atoi (getenv ("GV_TIMEOUT")) : 20;
  while (getline (in, line))
    {
      Json::Value scn;
      Json::CharReaderBuilder rb;
      string errs;
      istringstream is (line);
      if (!Json::parseFromStream (rb, is, &scn, &errs))
        {
          cerr << "bad scenario: " << errs << endl;
          return 2;
        }
      if (scn.get ("gst", false).asBool () && !prepared)
        {
          gst_prepare ();
          prepared = true;
        }
      int pfd[2];
      if (pipe (pfd) < 0)
        return 2;
      pid_t pid = fork ();
      if (pid < 0)
        return 2;
      if (pid == 0)
        {
          close (pfd[0]);
          out_fd = pfd[1];
          if (!getenv ("GV_VERBOSE"))
            {
              dup2 (devnull, 1);
              dup2 (devnull, 2);
            }
          struct rlimit rl = { 0, 0 };
          setrlimit (RLIMIT_CORE, &rl);
          alarm (limit);
          string d = dir + "/s";
          mkdir (d.c_str (), 0755);
          run_scn (scn, d);
          _exit (0);
        }
      close (pfd[1]);
      string data;
      char buf[65536];
      ssize_t k;
      while ((k = read (pfd[0], buf, sizeof buf)) > 0)
        data.append (buf, k);
      close (pfd[0]);
      int status;
      waitpid (pid, &status, 0);
      Json::Value hd (Json::objectValue);
      hd["r"] = "scn";
      hd["id"] = scn["id"];
      Json::Value tl (Json::objectValue);
      tl["r"] = "end";
      if (WIFSIGNALED (status))
        {
          tl["sig"] = WTERMSIG (status);
        }
      else
        {
          int rc = WEXITSTATUS (status);
          tl["sig"] = 0;
          tl["rc"] = rc;
          if (rc == 97 || rc == 98 || rc == 99)
            {
              cerr << "harness failure " << rc << endl;
              return 2;
            }
        }
      Json::StreamWriterBuilder b;
      b["indentation"] = "";
      string o = Json::writeString (b, hd) + "\n" + data
                 + (data.size () && data[data.size () - 1] != '\n' ? "\n" : "")
                 + Json::writeString (b, tl) + "\n";
      size_t n = 0;
      while (n < o.size ())
        {
          k = write (ofd, o.data () + n, o.size () - n);
          if (k <= 0)
            return 2;
          n += k;
        }
      wipe (dir + "/s"); // scratch files of the scenario
    }
  rmdir (dir.c_str ());
  return 0;
}
