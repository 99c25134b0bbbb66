#include "Formatter.h"
#include "Parser.h"
#include "ParserLua.h"
#include "Document.h"
#include <glib.h>
#include <json/json.h>
#include <unistd.h>
using namespace ginga;
using namespace std;

void drive_emit (const Json::Value &v);
Json::Value drive_dump_doc (Document *d, const Json::Value &scn);

static void
options (Formatter *fmt, Json::Value *res)
{
  (*res)["ret"] = true;
  (*res)["opt"].append (fmt->getOptionInt ("width"));
  (*res)["opt"].append (fmt->getOptionInt ("height"));
  (*res)["opt"].append (fmt->getOptionString ("background"));
}

bool
extra_op (const string &op, const Json::Value &step, Formatter *fmt,
          Json::Value *res)
{
  if (op == "redraw")
    {
      // [op, (w, h)]: draws; with a size, returns the picture.
      int w = step.size () > 1 ? step[1].asInt () : 1;
      int h = step.size () > 2 ? step[2].asInt () : 1;
      cairo_surface_t *sfc
          = cairo_image_surface_create (CAIRO_FORMAT_ARGB32, w, h);
      cairo_t *cr = cairo_create (sfc);
      bool playing = fmt->getState () == GINGA_STATE_PLAYING;
      fmt->redraw (cr);
      cairo_destroy (cr);
      cairo_surface_flush (sfc);
      if (step.size () > 2 && playing)
        {
          // Rows of runs: [count, colour, count, colour, ...].
          Json::Value rows (Json::arrayValue);
          for (int y = 0; y < h; y++)
            {
              const uint32_t *p
                  = (const uint32_t *) (cairo_image_surface_get_data (sfc)
                                        + y
                                              * cairo_image_surface_get_stride (
                                                    sfc));
              Json::Value row (Json::arrayValue);
              for (int x = 0; x < w;)
                {
                  int x0 = x;
                  while (x < w && p[x] == p[x0])
                    x++;
                  row.append (x - x0);
                  row.append ((int) (p[x0] & 0xffffff));
                }
              rows.append (row);
            }
          (*res)["px"] = rows;
        }
      cairo_surface_destroy (sfc);
      (*res)["ret"] = playing;
      return true;
    }
  if (op == "resize")
    {
      fmt->resize (step[1].asInt (), step[2].asInt ());
      options (fmt, res);
      return true;
    }
  if (op == "opt")
    {
      // [op, name, value]: sets an option.
      if (step[2].isInt ())
        fmt->setOptionInt (step[1].asString (), step[2].asInt ());
      else
        fmt->setOptionString (step[1].asString (), step[2].asString ());
      options (fmt, res);
      return true;
    }
  return false;
}

// "@/" stands for the scratch directory where a value begins with it.
static void
expand (string &data, const string &dir)
{
  for (string pre : { "\"@/", "\"file://@/" })
    for (size_t i = 0; (i = data.find (pre, i)) != string::npos;)
      data.replace (i + pre.length () - 2, 1, dir);
}

// Writes the files of a scenario into its scratch directory and goes there.
static void
put_files (const Json::Value &scn, const string &dir)
{
  for (auto &n : scn["files"].getMemberNames ())
    {
      string path = dir + "/" + n;
      gchar *d = g_path_get_dirname (path.c_str ());
      g_mkdir_with_parents (d, 0755);
      g_free (d);
      string data = scn["files"][n].asString ();
      expand (data, dir);
      if (!g_file_set_contents (path.c_str (), data.c_str (), data.size (),
                                nullptr))
        _exit (97);
    }
  if (chdir (dir.c_str ()) < 0)
    _exit (97);
}

void
run_other (const Json::Value &scn, const string &dir)
{
  string kind = scn["kind"].asString ();
  Json::Value v (Json::objectValue);
  v["r"] = "res";
  if (kind == "parse" || kind == "parselua")
    {
      string err, buf = scn["ncl"].asString ();
      expand (buf, dir);
      Document *doc;
      put_files (scn, dir);
      if (scn["main"].asString () != "") // parse from a file
        {
          string path = dir + "/" + scn["main"].asString ();
          gchar *d = g_path_get_dirname (path.c_str ());
          g_mkdir_with_parents (d, 0755);
          g_free (d);
          if (!g_file_set_contents (path.c_str (), buf.c_str (), buf.size (),
                                    nullptr))
            _exit (97);
          if (kind == "parse")
            doc = Parser::parseFile (path, scn.get ("w", 800).asInt (),
                                     scn.get ("h", 600).asInt (), &err);
          else
            doc = ParserLua::parseFile (path, &err);
        }
      else if (kind == "parse")
        doc = Parser::parseBuffer (buf.data (), buf.size (),
                                   scn.get ("w", 800).asInt (),
                                   scn.get ("h", 600).asInt (), &err);
      else
        doc = ParserLua::parseBuffer (buf.data (), buf.size (), &err);
      v["ok"] = doc != nullptr;
      v["err"] = err;
      if (doc)
        drive_emit (drive_dump_doc (doc, scn));
    }
  drive_emit (v);
}
