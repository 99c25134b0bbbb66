From f5ecaa258ed4f6f10fbe377856424b369310dee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 01/69] fix: evaluate negated predicates instead of aborting

Document::evalPredicate reached g_assert_not_reached() on any negated
statement accepted by the parser.
---
 lib/Document.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/Document.cpp b/lib/Document.cpp
index e366275..083b6c9 100644
--- a/lib/Document.cpp
+++ b/lib/Document.cpp
@@ -501,8 +501,14 @@ Document::evalPredicate (Predicate *pred)
         return result;
       }
     case Predicate::NEGATION:
-      g_assert_not_reached ();
-      break;
+      {
+        bool result;
+
+        g_assert (pred->getChildren ()->size () == 1);
+        result = !this->evalPredicate (pred->getChildren ()->front ());
+        TRACE ("not -> %s", strbool (result));
+        return result;
+      }
     case Predicate::CONJUNCTION:
       {
         for (auto child : *pred->getChildren ())
-- 
2.43.0


From 0e5cd81fbe842ead056d774f793892c185e707d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 02/69] fix: start the ports of a context again after an
 implicit start

The 'fromport' mark set when a child brings its sleeping context up was
never removed, so that no later start of the context started its ports.
---
 lib/Context.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Context.cpp b/lib/Context.cpp
index c79e503..f95b020 100644
--- a/lib/Context.cpp
+++ b/lib/Context.cpp
@@ -254,6 +254,7 @@ Context::afterTransition (Event *evt, Event::Transition transition)
 
           // Start all ports in the next tick if not started from port
           evt->getParameter ("fromport", &param_test);
+          evt->setParameter ("fromport", "");
           if (param_test != "")
             break;
           for (auto port : _ports)
@@ -261,7 +262,6 @@ Context::afterTransition (Event *evt, Event::Transition transition)
               if (port->getType () == Event::PRESENTATION)
                 this->addDelayedAction (port, Event::START, "", 0);
             }
-          evt->setParameter ("fromport", "");
           TRACE ("start %s at %" GINGA_TIME_FORMAT,
                  evt->getFullId ().c_str (), GINGA_TIME_ARGS (_time));
           break;
-- 
2.43.0


From 8ae3ece58bb2779b379fed25301fb3b1126694fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 03/69] fix: do not abort at a tick when the settings are not
 occurring

The body aborted at a tick in which its only awake child was not the
settings (stopped by a link), or in which the settings were paused.
---
 lib/Context.cpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/lib/Context.cpp b/lib/Context.cpp
index f95b020..2bf8bb5 100644
--- a/lib/Context.cpp
+++ b/lib/Context.cpp
@@ -150,16 +150,10 @@ Context::sendTick (Time total, Time diff, Time frame)
   Object::sendTick (total, diff, frame);
 
   // Check for EOS.
-  if (_parent == nullptr && _awakeChildren == 1)
+  if (_parent == nullptr && _awakeChildren == 1
+      && !_doc->getSettings ()->isSleeping ())
     {
-      if (_doc->getSettings ()->isOccurring ())
-        {
-          _doc->evalAction (_lambda, Event::STOP);
-        }
-      else
-        {
-          g_assert_not_reached ();
-        }
+      _doc->evalAction (_lambda, Event::STOP);
     }
   else if (_awakeChildren == 0)
     {
-- 
2.43.0


From ec9a35fbf5e77dc40c6c4c3b416359cb21b3396c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 04/69] fix: allow an area to be stopped while its media is
 paused

---
 lib/Media.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Media.cpp b/lib/Media.cpp
index fd444c2..f4926f7 100644
--- a/lib/Media.cpp
+++ b/lib/Media.cpp
@@ -383,7 +383,7 @@ Media::afterTransition (Event *evt, Event::Transition transition)
           else // non-lambda area
             {
               Time end;
-              g_assert (this->isOccurring ());
+              g_assert (!this->isSleeping ());
               evt->getInterval (nullptr, &end);
               if (transition == Event::ABORT)
                 TRACE ("abort %s (end=%" GINGA_TIME_FORMAT
-- 
2.43.0


From 8a4ac0c23fc20763d14a2400aa5e3cd9e79ac776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 05/69] fix: starting a paused object resumes its player and
 counts it once

The player stayed paused (so that the next pause aborted), and the parent
context counted the object as awake twice, so that it never ended.
---
 lib/Media.cpp  | 6 ++++++
 lib/Object.cpp | 6 ++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/Media.cpp b/lib/Media.cpp
index f4926f7..b087b82 100644
--- a/lib/Media.cpp
+++ b/lib/Media.cpp
@@ -266,6 +266,12 @@ Media::beforeTransition (Event *evt, Event::Transition transition)
                       }
                   }
               }
+            else if (evt->isLambda ())
+              {
+                // Start from paused.
+                g_assert_nonnull (_player);
+                _player->resume ();
+              }
             break;
           }
 
diff --git a/lib/Object.cpp b/lib/Object.cpp
index 85d36e6..9693e01 100644
--- a/lib/Object.cpp
+++ b/lib/Object.cpp
@@ -412,9 +412,11 @@ Object::getTime ()
 void
 Object::doStart ()
 {
-  _time = 0;
-  if (_parent != nullptr && instanceof (Context *, _parent))
+  // The object is already awake if it is being started from paused.
+  if (!GINGA_TIME_IS_VALID (_time) && _parent != nullptr
+      && instanceof (Context *, _parent))
     cast (Context *, _parent)->incAwakeChildren ();
+  _time = 0;
 
   // schedule set currentFocus if the object have focusIndex
   if (!this->getProperty ("focusIndex").empty ())
-- 
2.43.0


From dcbbbfcdbc8d8a88192b4a5c9decbd7b22b33af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 06/69] fix: keep the duration of a delayed link action

---
 lib/Document.cpp | 3 ++-
 lib/Object.cpp   | 4 +++-
 lib/Object.h     | 3 ++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/Document.cpp b/lib/Document.cpp
index 083b6c9..04a09a7 100644
--- a/lib/Document.cpp
+++ b/lib/Document.cpp
@@ -293,7 +293,8 @@ Document::evalActionInContext (Action act, Context *ctx)
                   g_assert_nonnull (next_obj);
 
                   ctx->addDelayedAction (next_evt, next_act.transition,
-                                         next_act.value, delay);
+                                         next_act.value, delay,
+                                         next_act.duration);
                 }
             }
         }
diff --git a/lib/Object.cpp b/lib/Object.cpp
index 9693e01..311e28a 100644
--- a/lib/Object.cpp
+++ b/lib/Object.cpp
@@ -351,13 +351,15 @@ Object::getDelayedActions ()
 
 void
 Object::addDelayedAction (Event *event, Event::Transition transition,
-                          const string &value, Time delay)
+                          const string &value, Time delay,
+                          const string &duration)
 {
   Action act;
 
   act.event = event;
   act.transition = transition;
   act.value = value;
+  act.duration = duration;
   _delayed.push_back (std::make_pair (act, _time + delay));
 }
 
diff --git a/lib/Object.h b/lib/Object.h
index fba94f9..3c58569 100644
--- a/lib/Object.h
+++ b/lib/Object.h
@@ -70,7 +70,8 @@ public:
 
   const list<pair<Action, Time> > *getDelayedActions ();
   void addDelayedAction (Event *, Event::Transition,
-                         const string &value = "", Time delay = 0);
+                         const string &value = "", Time delay = 0,
+                         const string &duration = "");
 
   virtual void sendKey (const string &, bool);
   virtual void sendTick (Time, Time, Time);
-- 
2.43.0


From eded3dc295b9f9cdbda7af78d9aba305287932e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 07/69] fix: do not lose or resurrect delayed actions due at
 the same tick

If one of several delayed actions due at a tick paused their object, the
remaining ones were lost; if it stopped and restarted the object, the
remaining ones of its former life were still run.
---
 lib/Object.cpp | 27 +++++++++++++--------------
 lib/Object.h   |  1 +
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/lib/Object.cpp b/lib/Object.cpp
index 311e28a..ead0abd 100644
--- a/lib/Object.cpp
+++ b/lib/Object.cpp
@@ -377,30 +377,28 @@ Object::sendTick (unused (Time total), Time diff, unused (Time frame))
   g_assert (GINGA_TIME_IS_VALID (_time));
   _time += diff;
 
-  list<Action> trigger;
-  for (auto &it : _delayed)
+  for (auto it = _delayed.begin (); it != _delayed.end ();)
     {
-      if (_time >= it.second)
+      if (it->second != GINGA_TIME_NONE && _time < it->second)
         {
-          it.second = GINGA_TIME_NONE;
-          trigger.push_back (it.first);
+          ++it;
+          continue;
         }
+      if (it->second != GINGA_TIME_NONE)
+        _due.push_back (it->first);
+      it = _delayed.erase (it);
     }
 
-  for (auto action : trigger)
+  // If an action pauses the object, the remaining actions wait for it to be
+  // resumed; if an action stops the object, they are discarded.
+  while (!_due.empty ())
     {
+      Action action = _due.front ();
+      _due.pop_front ();
       _doc->evalAction (action);
       if (!this->isOccurring ())
         return;
     }
-
-  for (auto it = _delayed.begin (); it != _delayed.end ();)
-    {
-      if (it->second == GINGA_TIME_NONE)
-        it = _delayed.erase (it);
-      else
-        ++it;
-    }
 }
 
 Time
@@ -432,6 +430,7 @@ Object::doStop ()
   for (auto evt : _events)
     evt->reset ();
   _delayed.clear ();
+  _due.clear ();
   if (_parent != nullptr && instanceof (Context *, _parent))
     cast (Context *, _parent)->decAwakeChildren ();
 }
diff --git a/lib/Object.h b/lib/Object.h
index 3c58569..bd3fac8 100644
--- a/lib/Object.h
+++ b/lib/Object.h
@@ -118,6 +118,7 @@ protected:
   Event *_lambda;                              // lambda event
   set<Event *> _events;                        // all events
   list<pair<Action, Time> > _delayed;          // delayed actions
+  list<Action> _due;                           // delayed actions being run
 
   virtual void doStart ();
   virtual void doStop ();
-- 
2.43.0


From d5ba7d41c88f7ed398b2a8a7dd78eed545d61378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 08/69] fix: end the attributions made to a sleeping object

The end of an attribution was scheduled in the sleeping object itself, with
an undefined time, and never run: later attributions to the same property
were refused, even after the object was started.
---
 lib/Object.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/Object.cpp b/lib/Object.cpp
index ead0abd..f058870 100644
--- a/lib/Object.cpp
+++ b/lib/Object.cpp
@@ -356,6 +356,15 @@ Object::addDelayedAction (Event *event, Event::Transition transition,
 {
   Action act;
 
+  // A sleeping object sees no ticks: leave the action to the innermost
+  // composition that is awake.
+  if (!GINGA_TIME_IS_VALID (_time))
+    {
+      if (_parent != nullptr)
+        _parent->addDelayedAction (event, transition, value, delay, duration);
+      return;
+    }
+
   act.event = event;
   act.transition = transition;
   act.value = value;
-- 
2.43.0


From bc5577f47a199d83a2d57c2862b0cc24a0806010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 09/69] fix: do not schedule delayed actions in a context that
 has ended

A link of a context on the end of the context itself left its delayed
actions to the next life of the context.
---
 lib/Document.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Document.cpp b/lib/Document.cpp
index 04a09a7..cb7f433 100644
--- a/lib/Document.cpp
+++ b/lib/Document.cpp
@@ -285,7 +285,7 @@ Document::evalActionInContext (Action act, Context *ctx)
                 {
                   stack.push_back (*ri);
                 }
-              else
+              else if (!ctx->isSleeping ())
                 {
                   Event *next_evt = next_act.event;
                   g_assert_nonnull (next_evt);
-- 
2.43.0


From ec77d644aa9cd96ded76867bc25f08719201e692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 10/69] fix: do not crash on unusual transitions of
 attributions and selections

Links may abort, pause or resume an attribution, selection or look-at
event; these transitions reached g_assert_not_reached().
---
 lib/Context.cpp | 10 +++++++---
 lib/Media.cpp   | 21 +++++++++++----------
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/lib/Context.cpp b/lib/Context.cpp
index 2bf8bb5..f6e910d 100644
--- a/lib/Context.cpp
+++ b/lib/Context.cpp
@@ -215,9 +215,12 @@ Context::beforeTransition (Event *evt, Event::Transition transition)
       break;
 
     case Event::ATTRIBUTION:
-      break; // nothing to do
+      if (transition == Event::PAUSE || transition == Event::RESUME)
+        return false; // fail
+      break;
 
-    case Event::SELECTION:
+    case Event::SELECTION: // fall through
+    case Event::LOOKAT:
       return false; // fail
 
     default:
@@ -308,7 +311,8 @@ Context::afterTransition (Event *evt, Event::Transition transition)
                    value.c_str (), (s != "") ? s.c_str () : "0s");
             break;
           }
-        case Event::STOP:
+        case Event::STOP: // fall through
+        case Event::ABORT:
           {
             TRACE ("stop %s:=...", evt->getFullId ().c_str ());
             break;
diff --git a/lib/Media.cpp b/lib/Media.cpp
index b087b82..5e29eb2 100644
--- a/lib/Media.cpp
+++ b/lib/Media.cpp
@@ -306,14 +306,12 @@ Media::beforeTransition (Event *evt, Event::Transition transition)
         }
       break;
 
-    case Event::ATTRIBUTION:
-      break; // nothing to do
-
-    case Event::SELECTION:
-      break; // nothing to do
-
+    case Event::ATTRIBUTION: // fall through
+    case Event::SELECTION:   // fall through
     case Event::LOOKAT:
-      break; // nothing to do
+      if (transition == Event::PAUSE || transition == Event::RESUME)
+        return false; // fail
+      break;
 
     default:
       g_assert_not_reached ();
@@ -439,7 +437,8 @@ Media::afterTransition (Event *evt, Event::Transition transition)
               break;
             }
 
-          case Event::STOP:
+          case Event::STOP: // fall through
+          case Event::ABORT:
             TRACE ("stop %s:='%s'", evt->getFullId ().c_str (),
                    value.c_str ());
             break;
@@ -458,7 +457,8 @@ Media::afterTransition (Event *evt, Event::Transition transition)
           case Event::START:
             TRACE ("start %s", evt->getFullId ().c_str ());
             break;
-          case Event::STOP:
+          case Event::STOP: // fall through
+          case Event::ABORT:
             TRACE ("stop %s", evt->getFullId ().c_str ());
             break;
           default:
@@ -472,7 +472,8 @@ Media::afterTransition (Event *evt, Event::Transition transition)
         case Event::START:
           TRACE ("start %s", evt->getFullId ().c_str ());
           break;
-        case Event::STOP:
+        case Event::STOP: // fall through
+        case Event::ABORT:
           TRACE ("stop %s", evt->getFullId ().c_str ());
           break;
         default:
-- 
2.43.0


From 8fe531e5bbb34b286fe0682d42ac52e37f257072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 11/69] fix: refuse selections and other non-presentation
 events of a switch

They are not switch interfaces, and looking them up as such aborted.
---
 lib/Switch.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/Switch.cpp b/lib/Switch.cpp
index 1533299..e76b150 100644
--- a/lib/Switch.cpp
+++ b/lib/Switch.cpp
@@ -68,6 +68,10 @@ bool
 Switch::beforeTransition (Event *evt, Event::Transition transition)
 {
   set<Event *> switchPort_evts; // The possible selected events.
+
+  if (evt->getType () != Event::PRESENTATION)
+    return false; // fail
+
   if (evt->isLambda ())
     {
       // If we are acting on the switch's @lambda all the @lambda children
-- 
2.43.0


From 49990efc9f638b1774889547408f2ab3bd2fb41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 12/69] fix: keep the selected component of an active switch

A pause or resume made the switch forget its component, which was then not
resumed or stopped with it, and starting an active switch through another
interface (or from paused) aborted.
---
 lib/Switch.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/Switch.cpp b/lib/Switch.cpp
index e76b150..33d1d3d 100644
--- a/lib/Switch.cpp
+++ b/lib/Switch.cpp
@@ -98,7 +98,15 @@ Switch::beforeTransition (Event *evt, Event::Transition transition)
       switch (transition)
         {
         case Event::START:
-          g_assert_null (_selected);
+          if (_selected != nullptr)
+            {
+              // Already active: keep the selected component.
+              for (Event *e : switchPort_evts)
+                if (e->getObject () == _selected)
+                  return e->getState () == Event::OCCURRING
+                         || e->transition (transition);
+              return false;
+            }
           for (auto item : _rules)
             {
               Object *obj;
@@ -149,7 +157,8 @@ Switch::beforeTransition (Event *evt, Event::Transition transition)
               Event *lambda = _selected->getLambda ();
               g_assert_nonnull (lambda);
               lambda->transition (transition);
-              _selected = nullptr;
+              if (transition == Event::STOP || transition == Event::ABORT)
+                _selected = nullptr;
             }
           break;
 
-- 
2.43.0


From 4ea9c4c5ce0f5c89e871795aa386c31ec4981468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 13/69] fix: keep a switch, its interfaces and its component in
 step

A switch started through an interface stayed itself sleeping: it was not
stopped, paused or counted by its context.  A switch whose component had no
interface never ended.  Any transition of any event of the component (a key
release, the end of an area) acted on all interfaces that map to it and, from
there, on the component itself.  Now starting an interface starts the switch
as a whole, an interface acts on the event it maps to and follows that event
(and the end of its object), and the switch ends with its component.
---
 lib/Document.cpp |  9 +++++-
 lib/Switch.cpp   | 77 ++++++++++++++++++++++++++++++++++++++++--------
 lib/Switch.h     |  2 ++
 3 files changed, 75 insertions(+), 13 deletions(-)

diff --git a/lib/Document.cpp b/lib/Document.cpp
index cb7f433..698a56c 100644
--- a/lib/Document.cpp
+++ b/lib/Document.cpp
@@ -383,7 +383,14 @@ Document::evalAction (Action init)
             {
               for (const auto &mapped_evt : swtchPort.second)
                 {
-                  if (mapped_evt->getObject () == evt->getObject ()
+                  // An interface follows the event it maps to, and ends
+                  // with the object of this event.
+                  if (swtch->getSelected () == obj
+                      && mapped_evt->getObject () == obj
+                      && (mapped_evt == evt
+                          || (evt->isLambda ()
+                              && (act.transition == Event::STOP
+                                  || act.transition == Event::ABORT)))
                       && swtch->getParent () != nullptr)
                     {
                       Event *label_evt = swtch->getEvent (
diff --git a/lib/Switch.cpp b/lib/Switch.cpp
index 33d1d3d..bfe5719 100644
--- a/lib/Switch.cpp
+++ b/lib/Switch.cpp
@@ -18,6 +18,7 @@ along with Ginga.  If not, see <https://www.gnu.org/licenses/>.  */
 #include "aux-ginga.h"
 #include "Switch.h"
 
+#include "Context.h"
 #include "Document.h"
 
 namespace ginga {
@@ -64,6 +65,18 @@ Switch::toString ()
   return str;
 }
 
+void
+Switch::sendTick (Time total, Time diff, Time frame)
+{
+  // Update object time.
+  Object::sendTick (total, diff, frame);
+
+  // The switch ends with its selected component.
+  if (this->isOccurring () && _selected != nullptr
+      && _selected->isSleeping ())
+    _doc->evalAction (_lambda, Event::STOP);
+}
+
 bool
 Switch::beforeTransition (Event *evt, Event::Transition transition)
 {
@@ -152,14 +165,12 @@ Switch::beforeTransition (Event *evt, Event::Transition transition)
         case Event::RESUME:
         case Event::ABORT:
         case Event::STOP:
-          if (_selected != nullptr)
-            {
-              Event *lambda = _selected->getLambda ();
-              g_assert_nonnull (lambda);
-              lambda->transition (transition);
-              if (transition == Event::STOP || transition == Event::ABORT)
-                _selected = nullptr;
-            }
+          for (Event *e : switchPort_evts)
+            if (e->getObject () == _selected)
+              e->transition (transition);
+          if (evt->isLambda ()
+              && (transition == Event::STOP || transition == Event::ABORT))
+            _selected = nullptr;
           break;
 
         default:
@@ -186,29 +197,65 @@ Switch::afterTransition (Event *evt, Event::Transition transition)
       switch (transition)
         {
         case Event::START:
+          if (!evt->isLambda ())
+            {
+              // Start switch as a whole.
+              _lambda->transition (Event::START);
+              break;
+            }
           Object::doStart ();
+
+          if (instanceof (Context *, _parent) && _parent->isSleeping ())
+            {
+              _parent->getLambda ()->setParameter ("fromport", "true");
+              _parent->getLambda ()->transition (Event::START);
+            }
           TRACE ("start %s at %" GINGA_TIME_FORMAT,
                  evt->getFullId ().c_str (), GINGA_TIME_ARGS (_time));
-          if (_selected == nullptr)
-            _doc->evalAction (evt, Event::STOP);
           break;
         case Event::PAUSE:
           TRACE ("pause %s at %" GINGA_TIME_FORMAT,
                  evt->getFullId ().c_str (), GINGA_TIME_ARGS (_time));
+          if (evt->isLambda ())
+            {
+              for (auto e : _events)
+                if (e->getType () == Event::PRESENTATION && !e->isLambda ())
+                  e->transition (transition);
+            }
+          else if (_selected != nullptr && _selected->isPaused ())
+            {
+              _lambda->transition (transition);
+            }
           break;
         case Event::RESUME:
           TRACE ("resume %s at %" GINGA_TIME_FORMAT,
                  evt->getFullId ().c_str (), GINGA_TIME_ARGS (_time));
+          if (evt->isLambda ())
+            {
+              for (auto e : _events)
+                if (e->getType () == Event::PRESENTATION && !e->isLambda ())
+                  e->transition (transition);
+            }
+          else if (_selected != nullptr && _selected->isOccurring ())
+            {
+              _lambda->transition (transition);
+            }
           break;
         case Event::STOP:
           TRACE ("stop %s at %" GINGA_TIME_FORMAT,
                  evt->getFullId ().c_str (), GINGA_TIME_ARGS (_time));
-          Object::doStop ();
+          if (evt->isLambda ())
+            Object::doStop ();
+          else if (_selected != nullptr && _selected->isSleeping ())
+            _doc->evalAction (_lambda, transition);
           break;
         case Event::ABORT:
           TRACE ("abort %s at %" GINGA_TIME_FORMAT,
                  evt->getFullId ().c_str (), GINGA_TIME_ARGS (_time));
-          Object::doStop ();
+          if (evt->isLambda ())
+            Object::doStop ();
+          else if (_selected != nullptr && _selected->isSleeping ())
+            _doc->evalAction (_lambda, transition);
           break;
 
         default:
@@ -226,6 +273,12 @@ Switch::afterTransition (Event *evt, Event::Transition transition)
 
 // Public.
 
+Object *
+Switch::getSelected ()
+{
+  return _selected;
+}
+
 const list<pair<Object *, Predicate *> > *
 Switch::getRules ()
 {
diff --git a/lib/Switch.h b/lib/Switch.h
index 8d2574a..38d92cc 100644
--- a/lib/Switch.h
+++ b/lib/Switch.h
@@ -32,10 +32,12 @@ public:
   // Object:
   string getObjectTypeAsString () override;
   string toString () override;
+  void sendTick (Time, Time, Time) override;
   bool beforeTransition (Event *, Event::Transition) override;
   bool afterTransition (Event *, Event::Transition) override;
 
   // Switch:
+  Object *getSelected ();
   const list<pair<Object *, Predicate *> > *getRules ();
   void addRule (Object *, Predicate *);
   const map<string, list<Event *> > *getSwitchPorts ();
-- 
2.43.0


From 8b6588b4a86bac26a71c56219a058f6a3c522cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:30 +0000
Subject: [PATCH 14/69] fix: fire a link at most once per transition

The links of a context were fired once for each of its ports that expose the
object, for each reference to the object in the context, in addition to those
fired as its parent, and for each duplicate of the condition; they were fired
even in referring contexts that are not occurring.
---
 lib/Document.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/Document.cpp b/lib/Document.cpp
index 698a56c..3d58cf0 100644
--- a/lib/Document.cpp
+++ b/lib/Document.cpp
@@ -297,6 +297,7 @@ Document::evalActionInContext (Action act, Context *ctx)
                                          next_act.duration);
                 }
             }
+          break; // a link is fired at most once
         }
     }
   return stack;
@@ -321,6 +322,7 @@ Document::evalAction (Action init)
       Object *obj;
       Composition *comp;
       Context *ctx_parent, *ctx_grandparent;
+      set<Context *> done; // contexts whose links were triggered
 
       act = stack.back ();
       stack.pop_back ();
@@ -354,6 +356,7 @@ Document::evalAction (Action init)
           // Trigger links in the parent context
           list<Action> ret = evalActionInContext (act, ctx_parent);
           stack.insert (stack.end (), ret.begin (), ret.end ());
+          done.insert (ctx_parent);
 
           // If the event object is pointed by a port in the parent context,
           // trigger links in the its grantparent context ( and ancestors)
@@ -369,6 +372,8 @@ Document::evalAction (Action init)
                       list<Action> ret
                           = evalActionInContext (act, ctx_grandparent);
                       stack.insert (stack.end (), ret.begin (), ret.end ());
+                      done.insert (ctx_grandparent);
+                      break;
                     }
                 }
             }
@@ -420,7 +425,8 @@ Document::evalAction (Action init)
           for (const auto &alias : *obj->getAliases ())
             {
               ctx_parent = cast (Context *, alias.second);
-              if (ctx_parent)
+              if (ctx_parent && ctx_parent->isOccurring ()
+                  && done.insert (ctx_parent).second)
                 {
                   list<Action> ret = evalActionInContext (act, ctx_parent);
                   stack.insert (stack.end (), ret.begin (), ret.end ());
-- 
2.43.0


From 6edc51bff830f669fa23fecf6cdc25ab5c54640d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:30 +0000
Subject: [PATCH 15/69] fix: run the delayed actions of a link in the order of
 the link

Those with the same delay were run in reverse order.
---
 lib/Document.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/Document.cpp b/lib/Document.cpp
index 3d58cf0..ea45eb1 100644
--- a/lib/Document.cpp
+++ b/lib/Document.cpp
@@ -267,10 +267,9 @@ Document::evalActionInContext (Action act, Context *ctx)
             continue;
 
           // Success.
-          auto acts = link.second;
-          for (auto ri = acts.rbegin (); ri != acts.rend (); ++ri)
+          list<Action> undelayed;
+          for (auto next_act : link.second)
             {
-              Action next_act = *(ri);
               string s;
               Time delay;
 
@@ -283,7 +282,7 @@ Document::evalActionInContext (Action act, Context *ctx)
 
               if (delay == 0 || delay == GINGA_TIME_NONE)
                 {
-                  stack.push_back (*ri);
+                  undelayed.push_front (next_act);
                 }
               else if (!ctx->isSleeping ())
                 {
@@ -297,6 +296,7 @@ Document::evalActionInContext (Action act, Context *ctx)
                                          next_act.duration);
                 }
             }
+          stack.splice (stack.end (), undelayed);
           break; // a link is fired at most once
         }
     }
-- 
2.43.0


From 77e682bc6769dbee375b687bd6d928d778a307ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:51 +0000
Subject: [PATCH 16/69] fix: forget the focus of the previous presentation

The current focus survived the end of a presentation, so that an object of the
next one could be focused from the start.
---
 lib/Formatter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/Formatter.cpp b/lib/Formatter.cpp
index 8153da2..8e5bb15 100644
--- a/lib/Formatter.cpp
+++ b/lib/Formatter.cpp
@@ -154,6 +154,7 @@ Formatter::start (const string &file, string *errmsg)
   _lastTickTotal = 0;
   _lastTickDiff = 0;
   _lastTickFrameNo = 0;
+  Player::setCurrentFocus ("");
 
   // Run document.
   TRACE ("%s", file.c_str ());
-- 
2.43.0


From 178bd1d51013716ffcd91279e50526ea222cf84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:04 +0000
Subject: [PATCH 17/69] fix: keep focus updates scheduled while the focus is
 being updated

A focusable object started by a link on the focus itself did not cause the
focus to be computed again.
---
 lib/MediaSettings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/MediaSettings.cpp b/lib/MediaSettings.cpp
index c820fd9..3ba3cac 100644
--- a/lib/MediaSettings.cpp
+++ b/lib/MediaSettings.cpp
@@ -58,8 +58,8 @@ MediaSettings::sendTick (Time total, Time diff, Time frame)
 {
   if (_hasNextFocus) // effectuate pending focus index update
     {
-      this->updateCurrentFocus (_nextFocus);
       _hasNextFocus = false;
+      this->updateCurrentFocus (_nextFocus);
     }
   Media::sendTick (total, diff, frame);
 }
-- 
2.43.0


From 96e50b8bfea8af65cc8fa6ab762d2b59560ea746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:14 +0000
Subject: [PATCH 18/69] fix: do not let a link fired by an anchor corrupt its
 media or context

---
 lib/Event.cpp | 5 +++++
 lib/Media.cpp | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/lib/Event.cpp b/lib/Event.cpp
index 514f2f6..45a71c5 100644
--- a/lib/Event.cpp
+++ b/lib/Event.cpp
@@ -217,6 +217,11 @@ Event::transition (Event::Transition trans)
   if (unlikely (!_object->beforeTransition (this, trans)))
     return false;
 
+  // The transition of a part of the object may have fired a link that has
+  // already acted upon this event.
+  if (unlikely (_state != curr))
+    return false;
+
   // Update event state.
   _state = next;
 
diff --git a/lib/Media.cpp b/lib/Media.cpp
index 5e29eb2..e366ba4 100644
--- a/lib/Media.cpp
+++ b/lib/Media.cpp
@@ -286,6 +286,12 @@ Media::beforeTransition (Event *evt, Event::Transition transition)
               if (!e->isLambda () && e->getType () == Event::PRESENTATION)
                 _doc->evalAction (e, transition);
 
+            // A link triggered by an anchor may have already acted upon the
+            // media.
+            if (transition == Event::PAUSE ? !this->isOccurring ()
+                                           : !this->isPaused ())
+              return false; // fail
+
             // Pause/resume the underlying player.
             g_assert_nonnull (_player);
             if (transition == Event::PAUSE)
-- 
2.43.0


From 7eae99980d316bd64c47ba67c22fba2a101a23b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:40 +0000
Subject: [PATCH 19/69] fix: end the attributions made to sleeping objects when
 their context ends

---
 lib/Composition.cpp | 26 ++++++++++++++++++++++++++
 lib/Composition.h   |  4 ++++
 lib/Context.cpp     |  4 ++--
 lib/Object.cpp      | 12 ++++++++++++
 lib/Object.h        |  2 ++
 lib/Switch.cpp      |  4 ++--
 6 files changed, 48 insertions(+), 4 deletions(-)

diff --git a/lib/Composition.cpp b/lib/Composition.cpp
index 75ac6b3..37f1e8d 100644
--- a/lib/Composition.cpp
+++ b/lib/Composition.cpp
@@ -68,4 +68,30 @@ Composition::addChild (Object *child)
     }
 }
 
+/**
+ * @brief Resets the events left active in a sleeping composition.
+ */
+void
+Composition::reset ()
+{
+  if (!this->isSleeping ())
+    return; // nothing to do
+  Object::reset ();
+  for (auto child : _children)
+    child->reset ();
+}
+
+// Protected.
+
+void
+Composition::doStop ()
+{
+  Object::doStop ();
+
+  // The actions that would end the attributions made to sleeping children
+  // have been discarded: end these attributions too.
+  for (auto child : _children)
+    child->reset ();
+}
+
 }
diff --git a/lib/Composition.h b/lib/Composition.h
index 708ed45..34abc92 100644
--- a/lib/Composition.h
+++ b/lib/Composition.h
@@ -33,7 +33,11 @@ public:
   Object *getChildByIdOrAlias (const string &);
   void addChild (Object *);
 
+  void reset () override;
+
 protected:
+  void doStop () override;
+
   set<Object *> _children;
 };
 
diff --git a/lib/Context.cpp b/lib/Context.cpp
index f6e910d..b8b82d2 100644
--- a/lib/Context.cpp
+++ b/lib/Context.cpp
@@ -273,12 +273,12 @@ Context::afterTransition (Event *evt, Event::Transition transition)
         case Event::STOP:
           TRACE ("stop %s at %" GINGA_TIME_FORMAT,
                  evt->getFullId ().c_str (), GINGA_TIME_ARGS (_time));
-          Object::doStop ();
+          Composition::doStop ();
           break;
         case Event::ABORT:
           TRACE ("abort %s at %" GINGA_TIME_FORMAT,
                  evt->getFullId ().c_str (), GINGA_TIME_ARGS (_time));
-          Object::doStop ();
+          Composition::doStop ();
           break;
         default:
           g_assert_not_reached ();
diff --git a/lib/Object.cpp b/lib/Object.cpp
index f058870..aaa0573 100644
--- a/lib/Object.cpp
+++ b/lib/Object.cpp
@@ -416,6 +416,18 @@ Object::getTime ()
   return _time;
 }
 
+/**
+ * @brief Resets the events left active in a sleeping object.
+ */
+void
+Object::reset ()
+{
+  if (!this->isSleeping ())
+    return; // nothing to do
+  for (auto evt : _events)
+    evt->reset ();
+}
+
 // Private.
 
 void
diff --git a/lib/Object.h b/lib/Object.h
index bd3fac8..aad829e 100644
--- a/lib/Object.h
+++ b/lib/Object.h
@@ -78,6 +78,8 @@ public:
 
   Time getTime ();
 
+  virtual void reset ();
+
   /**
    * @brief Initiates event transition.
    *
diff --git a/lib/Switch.cpp b/lib/Switch.cpp
index bfe5719..65bf418 100644
--- a/lib/Switch.cpp
+++ b/lib/Switch.cpp
@@ -245,7 +245,7 @@ Switch::afterTransition (Event *evt, Event::Transition transition)
           TRACE ("stop %s at %" GINGA_TIME_FORMAT,
                  evt->getFullId ().c_str (), GINGA_TIME_ARGS (_time));
           if (evt->isLambda ())
-            Object::doStop ();
+            Composition::doStop ();
           else if (_selected != nullptr && _selected->isSleeping ())
             _doc->evalAction (_lambda, transition);
           break;
@@ -253,7 +253,7 @@ Switch::afterTransition (Event *evt, Event::Transition transition)
           TRACE ("abort %s at %" GINGA_TIME_FORMAT,
                  evt->getFullId ().c_str (), GINGA_TIME_ARGS (_time));
           if (evt->isLambda ())
-            Object::doStop ();
+            Composition::doStop ();
           else if (_selected != nullptr && _selected->isSleeping ())
             _doc->evalAction (_lambda, transition);
           break;
-- 
2.43.0


From 50cbce162d25b703be9635a354a77c6795314b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:40 +0000
Subject: [PATCH 20/69] fix: read the target values when animating bounds,
 location and size

---
 lib/PlayerAnimator.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/PlayerAnimator.cpp b/lib/PlayerAnimator.cpp
index e091e0d..285ffb8 100644
--- a/lib/PlayerAnimator.cpp
+++ b/lib/PlayerAnimator.cpp
@@ -61,7 +61,7 @@ PlayerAnimator::schedule (const string &name, const string &from,
         list_pre = ginga::parse_list (from, ',', 4, 4);
       list_pos = ginga::parse_list (to, ',', 4, 4);
       auto pre = list_pre.begin ();
-      auto pos = list_pos.end ();
+      auto pos = list_pos.begin ();
       this->doSchedule ("left", *pre++, *pos++, dur);
       this->doSchedule ("top", *pre++, *pos++, dur);
       this->doSchedule ("width", *pre++, *pos++, dur);
@@ -73,7 +73,7 @@ PlayerAnimator::schedule (const string &name, const string &from,
         list_pre = ginga::parse_list (from, ',', 2, 2);
       list_pos = ginga::parse_list (to, ',', 2, 2);
       auto pre = list_pre.begin ();
-      auto pos = list_pos.end ();
+      auto pos = list_pos.begin ();
       this->doSchedule ("left", *pre++, *pos++, dur);
       this->doSchedule ("top", *pre++, *pos++, dur);
     }
@@ -83,7 +83,7 @@ PlayerAnimator::schedule (const string &name, const string &from,
         list_pre = ginga::parse_list (from, ',', 2, 2);
       list_pos = ginga::parse_list (to, ',', 2, 2);
       auto pre = list_pre.begin ();
-      auto pos = list_pos.end ();
+      auto pos = list_pos.begin ();
       this->doSchedule ("width", *pre++, *pos++, dur);
       this->doSchedule ("height", *pre++, *pos++, dur);
     }
-- 
2.43.0


From f90899f45dbd78c7f738988af72a75446b6c2c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 21/69] fix: animate the background through the colors in
 between

---
 lib/PlayerAnimator.cpp | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/lib/PlayerAnimator.cpp b/lib/PlayerAnimator.cpp
index 285ffb8..00ced9a 100644
--- a/lib/PlayerAnimator.cpp
+++ b/lib/PlayerAnimator.cpp
@@ -92,22 +92,25 @@ PlayerAnimator::schedule (const string &name, const string &from,
       Color pre = { 0, 0, 0, 255 };
       Color pos;
 
-      string pre_r, pre_g, pre_b;
-      string pos_r, pos_g, pos_b;
+      string pre_r, pre_g, pre_b, pre_a;
+      string pos_r, pos_g, pos_b, pos_a;
 
       pre = ginga::parse_color (from);
-      pre_r = xstrbuild ("%d", (int) CLAMP (pre.red * 255, 0, 255));
-      pre_g = xstrbuild ("%d", (int) CLAMP (pre.green * 255, 0, 255));
-      pre_b = xstrbuild ("%d", (int) CLAMP (pre.blue * 255, 0, 255));
+      pre_r = xstrbuild ("%d", (int) CLAMP (lround (pre.red * 255), 0, 255));
+      pre_g = xstrbuild ("%d", (int) CLAMP (lround (pre.green * 255), 0, 255));
+      pre_b = xstrbuild ("%d", (int) CLAMP (lround (pre.blue * 255), 0, 255));
+      pre_a = xstrbuild ("%d", (int) CLAMP (lround (pre.alpha * 255), 0, 255));
 
       pos = ginga::parse_color (to);
-      pos_r = xstrbuild ("%d", (int) CLAMP (pos.red * 255, 0, 255));
-      pos_g = xstrbuild ("%d", (int) CLAMP (pos.green * 255, 0, 255));
-      pos_b = xstrbuild ("%d", (int) CLAMP (pos.blue * 255, 0, 255));
+      pos_r = xstrbuild ("%d", (int) CLAMP (lround (pos.red * 255), 0, 255));
+      pos_g = xstrbuild ("%d", (int) CLAMP (lround (pos.green * 255), 0, 255));
+      pos_b = xstrbuild ("%d", (int) CLAMP (lround (pos.blue * 255), 0, 255));
+      pos_a = xstrbuild ("%d", (int) CLAMP (lround (pos.alpha * 255), 0, 255));
 
       this->doSchedule ("background:r", pre_r, pos_r, dur);
       this->doSchedule ("background:g", pre_g, pos_g, dur);
       this->doSchedule ("background:b", pre_b, pos_b, dur);
+      this->doSchedule ("background:a", pre_a, pos_a, dur);
     }
   else
     {
@@ -121,6 +124,13 @@ isDone (AnimInfo *info)
   return info->isDone ();
 }
 
+// Converts color component to the range used by Color.
+static double
+fromByte (double x)
+{
+  return x / 255.;
+}
+
 void
 PlayerAnimator::update (Rect *rect, Color *bgColor, guint8 *alpha,
                         list<int> *cropPolygon)
@@ -229,15 +239,19 @@ PlayerAnimator::update (Rect *rect, Color *bgColor, guint8 *alpha,
         }
       else if (name == "background:r")
         {
-          UPDATE (info, double, bgColor->red, round, 0., 1.);
+          UPDATE (info, double, bgColor->red, fromByte, 0., 1.);
         }
       else if (name == "background:g")
         {
-          UPDATE (info, double, bgColor->green, round, 0., 1.);
+          UPDATE (info, double, bgColor->green, fromByte, 0., 1.);
         }
       else if (name == "background:b")
         {
-          UPDATE (info, double, bgColor->blue, round, 0., 1.);
+          UPDATE (info, double, bgColor->blue, fromByte, 0., 1.);
+        }
+      else if (name == "background:a")
+        {
+          UPDATE (info, double, bgColor->alpha, fromByte, 0., 1.);
         }
       else if (name == "transparency")
         {
-- 
2.43.0


From 14f586fb4919fc32311d34ef88c2052f164f49d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:18 +0000
Subject: [PATCH 22/69] fix: animate the transparency in the right direction

---
 lib/PlayerAnimator.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lib/PlayerAnimator.cpp b/lib/PlayerAnimator.cpp
index 00ced9a..250fcc4 100644
--- a/lib/PlayerAnimator.cpp
+++ b/lib/PlayerAnimator.cpp
@@ -253,7 +253,7 @@ PlayerAnimator::update (Rect *rect, Color *bgColor, guint8 *alpha,
         {
           UPDATE (info, double, bgColor->alpha, fromByte, 0., 1.);
         }
-      else if (name == "transparency")
+      else if (name == "transparency" || name == "opacity")
         {
           UPDATE (info, guint8, *alpha, lround, 0, 255);
         }
@@ -377,7 +377,7 @@ PlayerAnimator::scheduleTransition (const string &notificationType,
         }
       else
         {
-          this->schedule ("transparency", "0", to_string (*alpha),
+          this->schedule ("opacity", "0", to_string (*alpha),
                           _transIn->dur);
         }
     }
@@ -462,11 +462,13 @@ PlayerAnimator::doSchedule (const string &name, const string &from,
         current = ginga::parse_percent (from, width, 0, G_MAXINT);
       target = ginga::parse_percent (to, width, 0, G_MAXINT);
     }
-  else if (name == "transparency" || name == "background")
+  else if (name == "transparency")
     {
+      // What is animated is the opacity.
+      current = 255;
       if (from != "")
-        current = ginga::parse_percent (from, 255, 0, 255);
-      target = ginga::parse_percent (to, 255, 0, 255);
+        current = 255 - ginga::parse_percent (from, 255, 0, 255);
+      target = 255 - ginga::parse_percent (to, 255, 0, 255);
     }
   else
     {
-- 
2.43.0


From 2aabf75ffa7283532f6bde255c64870bbd0b7867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:47 +0000
Subject: [PATCH 23/69] fix: set at once the properties that cannot be animated

---
 lib/Player.cpp         |  5 ++++-
 lib/PlayerAnimator.cpp | 12 ++++++++++++
 lib/PlayerAnimator.h   |  1 +
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/lib/Player.cpp b/lib/Player.cpp
index 6280960..aa3a2c1 100644
--- a/lib/Player.cpp
+++ b/lib/Player.cpp
@@ -349,7 +349,10 @@ void
 Player::schedulePropertyAnimation (const string &name, const string &from,
                                    const string &to, Time dur)
 {
-  _animator->schedule (name, from, to, dur);
+  if (PlayerAnimator::canAnimate (name))
+    _animator->schedule (name, from, to, dur);
+  else
+    this->setProperty (name, to);
 }
 
 void
diff --git a/lib/PlayerAnimator.cpp b/lib/PlayerAnimator.cpp
index 250fcc4..41f08dc 100644
--- a/lib/PlayerAnimator.cpp
+++ b/lib/PlayerAnimator.cpp
@@ -44,6 +44,18 @@ PlayerAnimator::clear ()
   _scheduled.clear ();
 }
 
+/**
+ * @brief Tests whether property can be animated.
+ */
+bool
+PlayerAnimator::canAnimate (const string &name)
+{
+  static const set<string> names
+      = { "background", "bounds", "height",       "left", "location",
+          "size",       "top",    "transparency", "width" };
+  return names.find (name) != names.end ();
+}
+
 void
 PlayerAnimator::schedule (const string &name, const string &from,
                           const string &to, Time dur)
diff --git a/lib/PlayerAnimator.h b/lib/PlayerAnimator.h
index b71cf74..e420718 100644
--- a/lib/PlayerAnimator.h
+++ b/lib/PlayerAnimator.h
@@ -87,6 +87,7 @@ public:
   PlayerAnimator (Formatter *, Time *);
   ~PlayerAnimator ();
   void clear ();
+  static bool canAnimate (const string &);
   void schedule (const string &, const string &, const string &, Time);
   void update (Rect *, Color *, guint8 *, list<int> *);
   void setTransitionProperties (const string &, const string &);
-- 
2.43.0


From 43ccad1555c05bd4d401b0dcd30cf01038471ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:53 +0000
Subject: [PATCH 24/69] fix: the last value set to a property prevails over its
 animations

---
 lib/Player.cpp         |  1 +
 lib/PlayerAnimator.cpp | 23 +++++++++++++++++++++++
 lib/PlayerAnimator.h   |  1 +
 3 files changed, 25 insertions(+)

diff --git a/lib/Player.cpp b/lib/Player.cpp
index aa3a2c1..729f412 100644
--- a/lib/Player.cpp
+++ b/lib/Player.cpp
@@ -303,6 +303,7 @@ Player::setProperty (const string &name, const string &value)
   _value = value;
 
   code = Player::getPlayerProperty (name, &defval);
+  _animator->cancel (code == Player::PROP_BACKGROUND ? "background" : name);
 
   // NCLua media should perform the doSetProperty to trigger registred funcs
   if (code == Player::PROP_UNKNOWN
diff --git a/lib/PlayerAnimator.cpp b/lib/PlayerAnimator.cpp
index 41f08dc..c269f8e 100644
--- a/lib/PlayerAnimator.cpp
+++ b/lib/PlayerAnimator.cpp
@@ -44,6 +44,28 @@ PlayerAnimator::clear ()
   _scheduled.clear ();
 }
 
+/**
+ * @brief Cancels the animations of property.
+ */
+void
+PlayerAnimator::cancel (const string &name)
+{
+  for (auto it = _scheduled.begin (); it != _scheduled.end ();)
+    {
+      string curr = (*it)->getName ();
+      if (curr == name || xstrhasprefix (curr, name + ":")
+          || (name == "transparency" && curr == "opacity"))
+        {
+          delete *it;
+          it = _scheduled.erase (it);
+        }
+      else
+        {
+          ++it;
+        }
+    }
+}
+
 /**
  * @brief Tests whether property can be animated.
  */
@@ -489,6 +511,7 @@ PlayerAnimator::doSchedule (const string &name, const string &from,
       target = ginga::parse_percent (to, 100, 0, G_MAXINT);
     }
 
+  this->cancel (name); // the last animation prevails
   info = new AnimInfo (name, current, target, dur);
   if (from != "")
     info->init (current, *_time);
diff --git a/lib/PlayerAnimator.h b/lib/PlayerAnimator.h
index e420718..44ebac9 100644
--- a/lib/PlayerAnimator.h
+++ b/lib/PlayerAnimator.h
@@ -87,6 +87,7 @@ public:
   PlayerAnimator (Formatter *, Time *);
   ~PlayerAnimator ();
   void clear ();
+  void cancel (const string &);
   static bool canAnimate (const string &);
   void schedule (const string &, const string &, const string &, Time);
   void update (Rect *, Color *, guint8 *, list<int> *);
-- 
2.43.0


From c8f817073d621a3493a31ac70ee56e1b1ad985e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:55 +0000
Subject: [PATCH 25/69] fix: pause and resume NCLua players instead of aborting

---
 lib/PlayerLua.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/lib/PlayerLua.cpp b/lib/PlayerLua.cpp
index 86d4a19..ddb192f 100644
--- a/lib/PlayerLua.cpp
+++ b/lib/PlayerLua.cpp
@@ -106,18 +106,26 @@ PlayerLua::stop ()
   Player::stop ();
 }
 
-void G_GNUC_NORETURN
+void
 PlayerLua::pause ()
 {
   g_assert (_state != PAUSED && _state != SLEEPING);
-  g_assert_not_reached ();
+  g_assert_nonnull (_nw);
+  TRACE ("pausing");
+
+  evt_ncl_send_presentation (_nw, "pause", "");
+  Player::pause ();
 }
 
-void G_GNUC_NORETURN
+void
 PlayerLua::resume ()
 {
-  g_assert (_state != PAUSED && _state != SLEEPING);
-  g_assert_not_reached ();
+  g_assert (_state == PAUSED);
+  g_assert_nonnull (_nw);
+  TRACE ("resuming");
+
+  evt_ncl_send_presentation (_nw, "resume", "");
+  Player::resume ();
 }
 
 void
-- 
2.43.0


From b0c86025dd852ea61b86d582d071fb1e325e3aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:55 +0000
Subject: [PATCH 26/69] fix: ignore unknown events posted by NCLua scripts

---
 lib/PlayerLua.cpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/lib/PlayerLua.cpp b/lib/PlayerLua.cpp
index ddb192f..f8a74b8 100644
--- a/lib/PlayerLua.cpp
+++ b/lib/PlayerLua.cpp
@@ -62,7 +62,7 @@ PlayerLua::start ()
 
   g_assert (_state != OCCURRING);
   g_assert_null (_nw);
-  GError *err;
+  GError *err = nullptr;
   char *filename = g_filename_from_uri (_prop.uri.c_str (), NULL, &err);
   if (filename == NULL)
     {
@@ -199,20 +199,19 @@ PlayerLua::redraw (cairo_t *cr)
           else
             nclEvt = _media->getPresentationEventByLabel (label);
 
-          g_assert_nonnull (nclEvt);
-          g_assert (nclua_act_to_ncl.count (evt->u.ncl.action) != 0);
-          _media->addDelayedAction (
-              nclEvt, nclua_act_to_ncl.at (evt->u.ncl.action));
+          if (nclEvt != nullptr
+              && nclua_act_to_ncl.count (evt->u.ncl.action) != 0)
+            _media->addDelayedAction (
+                nclEvt, nclua_act_to_ncl.at (evt->u.ncl.action));
         }
       else if (g_str_equal (evt->u.ncl.type, "attribution"))
         {
           Event *nclEvt = _media->getAttributionEvent (evt->u.ncl.name);
-          g_assert_nonnull (nclEvt);
-
-          g_assert (nclua_act_to_ncl.count (evt->u.ncl.action));
-          _media->addDelayedAction (nclEvt,
-                                    nclua_act_to_ncl.at (evt->u.ncl.action),
-                                    evt->u.ncl.value);
+          if (nclEvt != nullptr
+              && nclua_act_to_ncl.count (evt->u.ncl.action) != 0)
+            _media->addDelayedAction (
+                nclEvt, nclua_act_to_ncl.at (evt->u.ncl.action),
+                evt->u.ncl.value);
         }
       ncluaw_event_free (evt);
     }
-- 
2.43.0


From c010b46cfb8506f1cbad3b46a0ee27137d04c41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:17 +0000
Subject: [PATCH 27/69] fix: do not abort when a link of the body starts the
 settings

---
 lib/Formatter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/Formatter.cpp b/lib/Formatter.cpp
index 8e5bb15..438a8aa 100644
--- a/lib/Formatter.cpp
+++ b/lib/Formatter.cpp
@@ -163,10 +163,11 @@ Formatter::start (const string &file, string *errmsg)
   if (_doc->evalAction (evt, Event::START) == 0)
     return false;
 
-  // Start settings.
+  // Start settings, unless a link triggered by the body has already done so.
   evt = _doc->getSettings ()->getLambda ();
   g_assert_nonnull (evt);
-  g_assert (evt->transition (Event::START));
+  if (evt->getState () == Event::SLEEPING)
+    g_assert (evt->transition (Event::START));
 
   // Sets formatter state.
   _state = GINGA_STATE_PLAYING;
-- 
2.43.0


From f4ff63eac9c5117c6949d3ec662942297b9f32ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:35 +0000
Subject: [PATCH 28/69] fix: report an error when there is nothing to parse

---
 lib/Parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index ab8d927..ed97bd6 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -49,7 +49,8 @@ xmlGetLastErrorAsString ()
   string errmsg;
 
   err = xmlGetLastError ();
-  g_assert_nonnull (err);
+  if (err == nullptr)
+    return "XML error"; // e.g., nothing to read
 
   errmsg = (err->file != nullptr) ? toCPPString (err->file) + ": " : "";
   errmsg += "XML error";
-- 
2.43.0


From 55297b761875c3abcbfb5079677f313bce6cf51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:35 +0000
Subject: [PATCH 29/69] fix: report an error when a font cannot be loaded

---
 lib/Parser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index ed97bd6..7899196 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -4264,7 +4264,10 @@ ParserState::pushFont (ParserState *st, ParserElt *elt)
       //      FcPatternPrint (new_font);
     }
 
-  return (fontAddStatus == FcTrue);
+  if (unlikely (fontAddStatus != FcTrue))
+    return st->errEltBadAttribute (elt->getNode (), "src", src,
+                                   "cannot load font");
+  return true;
 }
 
 // External API.
-- 
2.43.0


From c02e205aadc017db9c78b96e796fb1d04c4a6cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:35 +0000
Subject: [PATCH 30/69] fix: refuse documents that use the reserved object ids

---
 lib/Parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 7899196..b466f5a 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -2237,6 +2237,10 @@ ParserState::ParserState (int width, int height)
   _error = ParserState::ERROR_NONE;
   _errorMsg = "no error";
   this->rectStackPush ({ 0, 0, width, height });
+
+  // Ids of the root and settings objects, which always exist.
+  this->addToUniqueSet ("__root__");
+  this->addToUniqueSet ("__settings__");
 }
 
 /**
-- 
2.43.0


From 856f60b0c421aa25c71ddc5eaab858f3b7f3def8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:35 +0000
Subject: [PATCH 31/69] fix: report an error when the URI of a media or font is
 malformed

---
 lib/Parser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index b466f5a..6ac130b 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -3982,6 +3982,9 @@ ParserState::pushMedia (ParserState *st, ParserElt *elt)
               // Makes uri based in the main document uri
               xmlChar *s = xmlBuildURI (toXmlChar (src),
                                         toXmlChar (st->getURI ()));
+              if (unlikely (s == nullptr))
+                return st->errEltBadAttribute (elt->getNode (), "src", src,
+                                               "malformed URI");
               src = toCPPString (s);
               if (!xpathisuri (src))
                 {
@@ -4224,6 +4227,9 @@ ParserState::pushFont (ParserState *st, ParserElt *elt)
   if (st->getURI () != "")
     {
       xmlChar *s = xmlBuildURI (toXmlChar (src), toXmlChar (st->getURI ()));
+      if (unlikely (s == nullptr))
+        return st->errEltBadAttribute (elt->getNode (), "src", src,
+                                       "malformed URI");
       src = toCPPString (s);
       xmlFree (s);
       src = xpathfromuri (src.c_str ());
-- 
2.43.0


From 3a37b5fce1cc8b0194ea58b1435916c44a269852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:57 +0000
Subject: [PATCH 32/69] fix: check the reference of a media before using its
 descriptor

---
 lib/Parser.cpp | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 6ac130b..98041ea 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -2446,6 +2446,26 @@ borderColor='%s'}",
           string desc_id;
           string refer;
 
+          // Check refer.
+          if (media_elt->getAttribute ("refer", &refer))
+            {
+              ParserElt *refer_elt;
+
+              if (unlikely (!st->eltCacheIndexById (refer, &refer_elt,
+                                                    { "media" })))
+                {
+                  return st->errEltBadAttribute (media_elt->getNode (),
+                                                 "refer", refer,
+                                                 "no such media object");
+                }
+              if (refer_elt->getAttribute ("refer", nullptr))
+                {
+                  return st->errEltBadAttribute (
+                      media_elt->getNode (), "refer", refer,
+                      "cannot refer to a reference");
+                }
+            }
+
           // Move descriptor attributes.
           if (media_elt->getAttribute ("descriptor", &desc_id))
             {
@@ -2474,26 +2494,6 @@ borderColor='%s'}",
                   media->setProperty (it.first, it.second);
                 }
             }
-
-          // Check refer.
-          if (media_elt->getAttribute ("refer", &refer))
-            {
-              ParserElt *refer_elt;
-
-              if (unlikely (!st->eltCacheIndexById (refer, &refer_elt,
-                                                    { "media" })))
-                {
-                  return st->errEltBadAttribute (media_elt->getNode (),
-                                                 "refer", refer,
-                                                 "no such media object");
-                }
-              if (refer_elt->getAttribute ("refer", nullptr))
-                {
-                  return st->errEltBadAttribute (
-                      media_elt->getNode (), "refer", refer,
-                      "cannot refer to a reference");
-                }
-            }
         }
     }
 
-- 
2.43.0


From 3cb9ab58dc70932a291d7ad28d1db444e50db3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:36 +0000
Subject: [PATCH 33/69] fix: let references to the settings precede it

---
 lib/Parser.cpp | 64 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 41 insertions(+), 23 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 98041ea..0586029 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -89,6 +89,33 @@ xmlFindAllChildren (xmlNode *node, const string &tag)
   return children;
 }
 
+/// Finds the descendant of node with the given tag and id.
+static xmlNode *
+xmlFindDescendant (xmlNode *node, const string &tag, const string &id)
+{
+  for (xmlNode *child = node->children; child; child = child->next)
+    {
+      string str;
+      if (child->type != XML_ELEMENT_NODE)
+        continue;
+      if (toCPPString (child->name) == tag
+          && xmlGetPropAsString (child, "id", &str) && str == id)
+        return child;
+      xmlNode *found = xmlFindDescendant (child, tag, id);
+      if (found != nullptr)
+        return found;
+    }
+  return nullptr;
+}
+
+/// Tests whether type is that of the settings object.
+static bool
+isSettingsType (const string &type)
+{
+  return type == "application/x-ginga-settings"
+         || type == "application/x-ncl-settings";
+}
+
 /// Tests whether value is a valid XML name.
 static bool
 xmlIsValidName (const string &value, char *offending)
@@ -3916,10 +3943,19 @@ ParserState::pushMedia (ParserState *st, ParserElt *elt)
           // try if is an multiple refer, if not create Media
           if (!st->referMapIndex (refer, &media))
             {
-              // when Parser find the reffered Media
-              // (a) if an Media, the Parser will set uri, type and parent
-              // (b) if an MediaSettings, the Parser will replace
-              media = new Media (refer);
+              // (a) if an Media, when Parser find the reffered Media, the
+              //     Parser will set uri, type and parent
+              // (b) if an MediaSettings, it already exists
+              string refer_type;
+              xmlNode *refer_node
+                  = xmlFindDescendant (xmlDocGetRootElement (st->_xml),
+                                       "media", refer);
+              if (refer_node != nullptr
+                  && xmlGetPropAsString (refer_node, "type", &refer_type)
+                  && isSettingsType (refer_type))
+                media = st->_doc->getSettings ();
+              else
+                media = new Media (refer);
             }
 
           st->referMapAdd (refer, media);
@@ -3935,29 +3971,11 @@ ParserState::pushMedia (ParserState *st, ParserElt *elt)
   else
     {
       // case it is a MediaSettings
-      if (type == "application/x-ginga-settings" || type == "application/x-ncl-settings")
+      if (isSettingsType (type))
         {
-          Media *tmpMedia = nullptr;
-
           // there is only one MediaSettings
           media = st->_doc->getSettings ();
 
-          // if there are refers to this MediaSettings, those refers
-          // are using a tmp Media, which should be this MediaSettings
-          st->referMapIndex (id, &tmpMedia);
-          if (tmpMedia)
-            {
-              auto it = st->_referMap.begin ();
-              while ((*it).second == tmpMedia)
-                {
-                  st->_referMap[(*it).first] = media;
-                  media->addAlias ((*it).first);
-                  it++;
-                }
-              if (it != st->_referMap.begin ())
-                delete tmpMedia;
-            }
-
           gchar *scheme = g_uri_parse_scheme (src.c_str ());
           if (g_strcmp0 (scheme, "streambuf") == 0)
             {
-- 
2.43.0


From d6fa83492e39210ec6d1789f4fd07ad13dae293c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:36 +0000
Subject: [PATCH 34/69] fix: do not abort when evaluating a negation of nothing

---
 lib/Document.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/Document.cpp b/lib/Document.cpp
index ea45eb1..64da34b 100644
--- a/lib/Document.cpp
+++ b/lib/Document.cpp
@@ -518,7 +518,11 @@ Document::evalPredicate (Predicate *pred)
       {
         bool result;
 
-        g_assert (pred->getChildren ()->size () == 1);
+        if (pred->getChildren ()->empty ())
+          {
+            TRACE ("not (nothing) -> false");
+            return false; // as any rule without children
+          }
         result = !this->evalPredicate (pred->getChildren ()->front ());
         TRACE ("not -> %s", strbool (result));
         return result;
-- 
2.43.0


From 95643ca125c5bedd8005c1604df77fa245a3a59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:36 +0000
Subject: [PATCH 35/69] fix: resolve the transitions of imported descriptors

---
 lib/Parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 0586029..a3c6f8a 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -536,8 +536,8 @@ static map<string, ParserSyntaxElt> parser_syntax_table = {
             { "focusSrc", 0 },
             { "focusSelSrc", 0 },
             { "selBorderColor", 0 },
-            { "transIn", 0 },
-            { "transOut", 0 },
+            { "transIn", PARSER_SYNTAX_ATTR_TYPE_IDREF },
+            { "transOut", PARSER_SYNTAX_ATTR_TYPE_IDREF },
             // extra attributes
             { "left", 0 },
             { "right", 0 },
-- 
2.43.0


From d36865b6fcc9a0de8f7ae3faab4266e17355b7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:05 +0000
Subject: [PATCH 36/69] fix: keep the attributes of transitions apart

---
 lib/Parser.cpp | 56 ++++++++++++++------------------------------------
 1 file changed, 15 insertions(+), 41 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index a3c6f8a..c72c0b2 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -2414,48 +2414,22 @@ ParserState::popNcl (ParserState *st, unused (ParserElt *elt))
                                                  "no such transition");
                 }
 
+              static const pair<string, string> fields[]
+                  = { { "subtype", "" },        { "dur", "0" },
+                      { "startProgress", "0" }, { "endProgress", "0" },
+                      { "direction", "forward" }, { "fadeColor", "" },
+                      { "horzRepeat", "0" },    { "vertRepeat", "0" },
+                      { "borderWidth", "0" },   { "borderColor", "" } };
+
               g_assert (trans_elt->getAttribute ("type", &str));
-              val = "{type='" + str + "',";
-              val += xstrbuild (
-                  "\
-subtype='%s',\
-dur='%s',\
-startProgress='%s',\
-endProgress='%s',\
-direction='%s',\
-fadeColor='%s',\
-horzRepeat='%s',\
-vertRepeat='%s',\
-borderWidth='%s',\
-borderColor='%s'}",
-                  (trans_elt->getAttribute ("subtype", &str)) ? str.c_str ()
-                                                              : "",
-                  +(trans_elt->getAttribute ("dur", &str)) ? str.c_str ()
-                                                           : "0",
-                  +(trans_elt->getAttribute ("startProgress", &str))
-                      ? str.c_str ()
-                      : "0",
-                  +(trans_elt->getAttribute ("endProgress", &str))
-                      ? str.c_str ()
-                      : "0",
-                  +(trans_elt->getAttribute ("direction", &str))
-                      ? str.c_str ()
-                      : "forward",
-                  +(trans_elt->getAttribute ("fadeColor", &str))
-                      ? str.c_str ()
-                      : "",
-                  +(trans_elt->getAttribute ("horzRepeat", &str))
-                      ? str.c_str ()
-                      : "0",
-                  +(trans_elt->getAttribute ("vertRepeat", &str))
-                      ? str.c_str ()
-                      : "0",
-                  +(trans_elt->getAttribute ("borderWidth", &str))
-                      ? str.c_str ()
-                      : "0",
-                  +(trans_elt->getAttribute ("borderColor", &str))
-                      ? str.c_str ()
-                      : "");
+              val = "{type='" + str + "'";
+              for (auto &field : fields)
+                {
+                  if (!trans_elt->getAttribute (field.first, &str))
+                    str = field.second;
+                  val += "," + field.first + "='" + str + "'";
+                }
+              val += "}";
               desc_elt->setAttribute (trans_attr[i], val);
             }
         }
-- 
2.43.0


From d3c6bf8f0e9c9d179455dd8f5f0694b00fff1d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:16 +0000
Subject: [PATCH 37/69] fix: resolve ports and switch ports when all interfaces
 are known

---
 lib/Parser.cpp | 111 ++++++++++++++++++++++++++++---------------------
 1 file changed, 64 insertions(+), 47 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index c72c0b2..8110328 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -2366,6 +2366,7 @@ ParserState::popNcl (ParserState *st, unused (ParserElt *elt))
   list<ParserElt *> desc_list;
   list<ParserElt *> media_list;
   list<ParserElt *> switch_list;
+  list<ParserElt *> ctx_list;
   list<ParserElt *> link_list;
 
   // Resolve descriptor references to region/transition.
@@ -2498,6 +2499,61 @@ ParserState::popNcl (ParserState *st, unused (ParserElt *elt))
         }
     }
 
+  // Resolve switchPort references, innermost switches first (each
+  // switchPort is added as a new PresentationEvent, which will be handled
+  // internally by the switch).
+  st->eltCacheIndexByTag ({ "switch" }, &switch_list);
+  switch_list.reverse ();
+  for (auto switch_elt : switch_list)
+    {
+      Switch *swtch;
+      list<string> *switchPorts;
+
+      UDATA_GET (switch_elt, "switch", &swtch);
+      UDATA_GET (switch_elt, "switchPorts", &switchPorts);
+      for (auto switchPort_id : *switchPorts)
+        {
+          ParserElt *switchPort_elt;
+          list<ParserElt *> *mappings;
+          list<Event *> mapping_evts;
+
+          g_assert (st->eltCacheIndexById (switchPort_id, &switchPort_elt,
+                                           { "switchPort" }));
+          UDATA_GET (switchPort_elt, "mappings", &mappings);
+          for (auto &mapping_elt : *mappings)
+            {
+              Event *evt;
+              if (unlikely (
+                      !st->resolveInterface (swtch, mapping_elt, &evt)))
+                return false;
+              mapping_evts.push_back (evt);
+            }
+          swtch->addSwitchPort (switchPort_id, mapping_evts);
+        }
+    }
+  switch_list.clear ();
+
+  // Resolve port references.
+  st->eltCacheIndexByTag ({ "body", "context" }, &ctx_list);
+  for (auto ctx_elt : ctx_list)
+    {
+      Context *ctx;
+      list<string> *ports;
+
+      UDATA_GET (ctx_elt, "context", &ctx);
+      UDATA_GET (ctx_elt, "ports", &ports);
+      for (auto port_id : *ports)
+        {
+          ParserElt *port_elt;
+          Event *evt;
+
+          g_assert (st->eltCacheIndexById (port_id, &port_elt, { "port" }));
+          if (unlikely (!st->resolveInterface (ctx, port_elt, &evt)))
+            return false;
+          ctx->addPort (evt);
+        }
+    }
+
   // Resolve bind rules and default components in switches.
   // (I.e., finish parsing <bindRule> and <defaultComponent>.)
   if (st->eltCacheIndexByTag ({ "switch" }, &switch_list) > 0)
@@ -3611,26 +3667,13 @@ bool
 ParserState::popContext (ParserState *st, ParserElt *elt)
 {
   Context *ctx;
-  list<string> *ports;
 
-  ctx = cast (Context *, st->objStackPeek ());
+  ctx = cast (Context *, st->objStackPop ());
   g_assert_nonnull (ctx);
 
-  // Resolve port references.
-  UDATA_GET (elt, "ports", &ports);
-  for (auto port_id : *ports)
-    {
-      ParserElt *port_elt;
-      Event *evt;
-
-      g_assert (st->eltCacheIndexById (port_id, &port_elt, { "port" }));
-      if (unlikely (!st->resolveInterface (ctx, port_elt, &evt)))
-        return false;
-
-      ctx->addPort (evt);
-    }
-
-  st->objStackPop ();
+  // The port references are resolved by popNcl(), when all interfaces are
+  // known.
+  UDATA_SET (elt, "context", ctx, nullptr);
   return true;
 }
 
@@ -3777,11 +3820,10 @@ ParserState::pushMapping (ParserState *st, ParserElt *elt)
  * @return \c true if successful, or \c false otherwise.
  */
 bool
-ParserState::popSwitch (ParserState *st, unused (ParserElt *elt))
+ParserState::popSwitch (ParserState *st, ParserElt *elt)
 {
   Switch *swtch;
   list<pair<ParserElt *, Object *> > *rules;
-  list<string> *switchPorts;
 
   swtch = cast (Switch *, st->objStackPeek ());
   g_assert_nonnull (swtch);
@@ -3803,34 +3845,9 @@ ParserState::popSwitch (ParserState *st, unused (ParserElt *elt))
       it.second = obj;
     }
 
-  // Resolve switchPort references (each switchPort is added as a new
-  // PresentationEvent, which will be handled internally by the switch).
-  UDATA_GET (elt, "switchPorts", &switchPorts);
-  for (auto switchPort_id : *switchPorts)
-    {
-      ParserElt *switchPort_elt;
-      list<ParserElt *> *mappings;
-
-      g_assert (st->eltCacheIndexById (switchPort_id, &switchPort_elt,
-                                       { "switchPort" }));
-      UDATA_GET (switchPort_elt, "mappings", &mappings);
-
-      list<Event *> mapping_evts;
-      for (auto &mapping_elt : *mappings)
-        {
-          Event *evt;
-          string comp, interf;
-          mapping_elt->getAttribute ("component", &comp);
-          mapping_elt->getAttribute ("interface", &interf);
-
-          if (unlikely (!st->resolveInterface (swtch, mapping_elt, &evt)))
-            return false;
-
-          mapping_evts.push_back (evt);
-        }
-
-      swtch->addSwitchPort (switchPort_id, mapping_evts);
-    }
+  // The switchPort references are resolved by popNcl(), when all interfaces
+  // are known.
+  UDATA_SET (elt, "switch", swtch, nullptr);
 
   st->objStackPop ();
 
-- 
2.43.0


From fbe5f5ed5619c3b93f1c493bdb5feacc4fba3121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:17 +0000
Subject: [PATCH 38/69] fix: let a property of a context share its name with a
 port elsewhere

---
 lib/Parser.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 8110328..54a95ad 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -1805,7 +1805,13 @@ ParserState::resolveInterface (Composition *ctx, ParserElt *elt,
             }
 
           if (ctx->getId () != obj->getId ())
-            goto fail;
+            {
+              // The port of another context has the name of a property.
+              result = obj->getAttributionEvent (iface);
+              if (likely (result != nullptr))
+                goto success;
+              goto fail;
+            }
 
           return this->resolveInterface (ctx, iface_elt, evt);
         }
-- 
2.43.0


From 1c9592a62d4d9997641516d704ca516a014701c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:09 +0000
Subject: [PATCH 39/69] fix: do not abort when a document uses an id like the
 generated ones

---
 lib/Parser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 54a95ad..d4776c6 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -1119,8 +1119,10 @@ ParserElt::setData (const string &key, void *value, UserDataCleanFunc fn)
 string
 ParserState::genId ()
 {
-  string id = xstrbuild ("__unamed-%d__", _genid++);
-  g_assert_false (isInUniqueSet (id));
+  string id;
+  do
+    id = xstrbuild ("__unamed-%d__", _genid++);
+  while (isInUniqueSet (id));
   return id;
 }
 
-- 
2.43.0


From 6343cc909a465b619fcaf97f73841dfbf97c3895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:56 +0000
Subject: [PATCH 40/69] fix: take the URI of an imported document as it is

---
 lib/Parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index d4776c6..82a932f 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -3540,7 +3540,8 @@ ParserState::pushImportBase (ParserState *st, ParserElt *elt)
     main_uri = st->getURI ();
 
   // if imported_uri is relative path build a new path based in main_uri
-  if (!xpathisabs (imported_uri) && main_uri != "")
+  if (!xpathisuri (imported_uri) && !xpathisabs (imported_uri)
+      && main_uri != "")
     {
       imported_uri = xpathbuild (xpathdirname (xpathfromuri (main_uri)),
                                  imported_uri);
-- 
2.43.0


From 80340917fe28d2a0163635cbfda86893bf9434fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:25 +0000
Subject: [PATCH 41/69] fix: refuse unknown events in Lua documents and create
 their selection events

---
 lib/ParserLua.cpp | 81 +++++++++++++++++++++++++----------------------
 1 file changed, 43 insertions(+), 38 deletions(-)

diff --git a/lib/ParserLua.cpp b/lib/ParserLua.cpp
index 3032dc1..6d5299b 100644
--- a/lib/ParserLua.cpp
+++ b/lib/ParserLua.cpp
@@ -48,43 +48,52 @@ static int l_parse_link (lua_State *L);
 static int l_parse_predicate (lua_State *L);
 
 // Helper function
+// Raises a Lua error if \p str does not denote an event of a child of
+// \p parent.
 static Event *
-getEventStringAsEvent (string str, Context *parent)
+getEventStringAsEvent (lua_State *L, const char *str, Context *parent)
 {
-  Object *obj;
-  string id, evt;
-
-  size_t at = str.find ('@');
-
-  if (at != str.npos) // presentation
+  Event *event = nullptr;
   {
-    id = str.substr (0, at);
-    evt = str.substr (at + 1, str.npos);
-    obj = parent->getChildById (id);
+    Object *obj;
+    string s, id, evt;
+    size_t at;
 
-    // only lambda should have '@' as prefix? this seems strange
-    if (xstrcasecmp ("lambda", evt) == 0)
-      evt = "@lambda";
+    s = string (str);
+    if ((at = s.find ('@')) != s.npos) // presentation
+      {
+        id = s.substr (0, at);
+        evt = s.substr (at + 1, s.npos);
 
-    return obj->getEvent (Event::PRESENTATION, evt);
-  }
-  else if (str.find ('.') != str.npos) // attribution
-  {
-    at = str.find ('.');
-    id = str.substr (0, at);
-    evt = str.substr (at + 1, str.npos);
-    obj = parent->getChildById (id);
-    return obj->getEvent (Event::ATTRIBUTION, evt);
-  }
-  else // selection
-  {
-    at = str.find ('<');
-    id = str.substr (0, at);
-    evt = str.substr (at + 1, str.npos);
-    evt.pop_back ();
-    obj = parent->getChildById (id);
-    return obj->getEvent (Event::SELECTION, evt);
+        // only lambda should have '@' as prefix? this seems strange
+        if (xstrcasecmp ("lambda", evt) == 0)
+          evt = "@lambda";
+
+        if ((obj = parent->getChildById (id)) != nullptr)
+          event = obj->getEvent (Event::PRESENTATION, evt);
+      }
+    else if ((at = s.find ('.')) != s.npos) // attribution
+      {
+        id = s.substr (0, at);
+        evt = s.substr (at + 1, s.npos);
+        if ((obj = parent->getChildById (id)) != nullptr)
+          event = obj->getEvent (Event::ATTRIBUTION, evt);
+      }
+    else if ((at = s.find ('<')) != s.npos && s.back () == '>') // selection
+      {
+        id = s.substr (0, at);
+        evt = s.substr (at + 1, s.length () - at - 2);
+        if ((obj = parent->getChildById (id)) != nullptr)
+          {
+            obj->addSelectionEvent (evt);
+            event = obj->getSelectionEvent (evt);
+            event->setParameter ("key", evt);
+          }
+      }
   }
+  if (unlikely (event == nullptr))
+    luaL_error (L, "no such event: %s", str);
+  return event;
 }
 
 /* Parsing functions. */
@@ -329,15 +338,13 @@ l_parse_port (lua_State *L)
   Event *event;
   Document *doc;
   Context *parent;
-  string str;
 
   doc = (Document *) lua_touserdata (L, 1);
   g_assert_nonnull (doc);
   parent = (Context *) lua_touserdata (L, 2);
   g_assert_nonnull (parent);
-  str = string (luaL_checkstring (L, -1));
 
-  event = getEventStringAsEvent (str, parent);
+  event = getEventStringAsEvent (L, luaL_checkstring (L, -1), parent);
   g_assert_nonnull (event);
   parent->addPort (event);
 
@@ -578,8 +585,7 @@ l_parse_link (lua_State *L)
     act.transition = Event::getStringAsTransition (transition);
 
     lua_rawgeti (L, 6, 2); // event
-    string event = luaL_checkstring (L, -1);
-    act.event = getEventStringAsEvent (event, parent);
+    act.event = getEventStringAsEvent (L, luaL_checkstring (L, -1), parent);
 
     lua_rawgeti (L, 6, 3); // predicate
     act.predicate = nullptr;
@@ -617,8 +623,7 @@ l_parse_link (lua_State *L)
     act.transition = Event::getStringAsTransition (transition);
 
     lua_rawgeti (L, 7, 2); // event
-    string event = luaL_checkstring (L, -1);
-    act.event = getEventStringAsEvent (event, parent);
+    act.event = getEventStringAsEvent (L, luaL_checkstring (L, -1), parent);
 
     lua_rawgeti (L, 7, 3); // value
     if (!lua_isnil (L, -1))
-- 
2.43.0


From cec385fc1ea78d8e42adfd1e3aeedabbafefcdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:28 +0000
Subject: [PATCH 42/69] fix: refuse unknown tags, transitions and comparators
 in Lua documents

---
 lib/ParserLua.cpp | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/lib/ParserLua.cpp b/lib/ParserLua.cpp
index 6d5299b..6e54f5c 100644
--- a/lib/ParserLua.cpp
+++ b/lib/ParserLua.cpp
@@ -96,6 +96,22 @@ getEventStringAsEvent (lua_State *L, const char *str, Context *parent)
   return event;
 }
 
+// Helper function
+// Raises a Lua error if \p str does not denote a transition.
+static Event::Transition
+getStringAsTransition (lua_State *L, const char *str)
+{
+  if (g_ascii_strcasecmp (str, "set") == 0)
+    return Event::START;
+  if (g_ascii_strcasecmp (str, "start") != 0
+      && g_ascii_strcasecmp (str, "pause") != 0
+      && g_ascii_strcasecmp (str, "resume") != 0
+      && g_ascii_strcasecmp (str, "stop") != 0
+      && g_ascii_strcasecmp (str, "abort") != 0)
+    luaL_error (L, "bad transition: %s", str);
+  return Event::getStringAsTransition (str);
+}
+
 /* Parsing functions. */
 
 /* parse_context (doc, [parent], tab, path) */
@@ -180,7 +196,7 @@ l_parse_context (lua_State *L)
       }
       else
       {
-        g_assert_not_reached (); // print error message first
+        luaL_error (L, "unexpected tag: %s", child.c_str ());
       }
     }
   }
@@ -297,7 +313,7 @@ l_parse_switch (lua_State *L)
       }
       else
       {
-        g_assert_not_reached (); // print error message first
+        luaL_error (L, "unexpected tag: %s", child.c_str ());
       }
     }
   }
@@ -577,12 +593,7 @@ l_parse_link (lua_State *L)
     Action act;
 
     lua_rawgeti (L, 6, 1); // transition
-    string transition = luaL_checkstring (L, -1);
-
-    if (xstrcasecmp (transition, "set") == 0)
-      transition = "start";
-
-    act.transition = Event::getStringAsTransition (transition);
+    act.transition = getStringAsTransition (L, luaL_checkstring (L, -1));
 
     lua_rawgeti (L, 6, 2); // event
     act.event = getEventStringAsEvent (L, luaL_checkstring (L, -1), parent);
@@ -615,12 +626,7 @@ l_parse_link (lua_State *L)
     Action act;
 
     lua_rawgeti (L, 7, 1); // transition
-    string transition = luaL_checkstring (L, -1);
-
-    if (xstrcasecmp (transition, "set") == 0)
-      transition = "start";
-
-    act.transition = Event::getStringAsTransition (transition);
+    act.transition = getStringAsTransition (L, luaL_checkstring (L, -1));
 
     lua_rawgeti (L, 7, 2); // event
     act.event = getEventStringAsEvent (L, luaL_checkstring (L, -1), parent);
@@ -722,7 +728,7 @@ l_parse_predicate (lua_State *L)
       else if (xstrcasecmp (str, ">=") == 0)
         test = Predicate::GE;
       else
-        g_assert_not_reached ();
+        return luaL_error (L, "bad comparator: %s", str.c_str ());
 
       it->setTest (left, test, right);
       break;
-- 
2.43.0


From ce5cc8f86728be73fff578508993207180f6782b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:32 +0000
Subject: [PATCH 43/69] fix: do not evaluate operands of Lua predicates in
 reverse order

---
 lib/ParserLua.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/ParserLua.cpp b/lib/ParserLua.cpp
index 6e54f5c..018c76c 100644
--- a/lib/ParserLua.cpp
+++ b/lib/ParserLua.cpp
@@ -736,16 +736,18 @@ l_parse_predicate (lua_State *L)
   case Predicate::FALSUM:
   case Predicate::VERUM:
     break;
+  case Predicate::NEGATION:
   case Predicate::CONJUNCTION:
   case Predicate::DISJUNCTION:
     lua_pushcfunction (L, l_parse_predicate); // children
     lua_pushlightuserdata (L, it);
-    lua_rawgeti (L, 2, 3);
+    lua_rawgeti (L, 2, 2);
     lua_call (L, 2, 0);
-  case Predicate::NEGATION: // fall through
+    if (type == Predicate::NEGATION)
+      break;
     lua_pushcfunction (L, l_parse_predicate);
     lua_pushlightuserdata (L, it);
-    lua_rawgeti (L, 2, 2);
+    lua_rawgeti (L, 2, 3);
     lua_call (L, 2, 0);
     break;
   default:
-- 
2.43.0


From 9d892698b4fa6a825f46fb3c3daaf18ca835ab71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:36 +0000
Subject: [PATCH 44/69] fix: read property tables of Lua documents safely

---
 lib/ParserLua.cpp | 146 +++++++++++++++++-----------------------------
 1 file changed, 52 insertions(+), 94 deletions(-)

diff --git a/lib/ParserLua.cpp b/lib/ParserLua.cpp
index 018c76c..7b98aaa 100644
--- a/lib/ParserLua.cpp
+++ b/lib/ParserLua.cpp
@@ -367,6 +367,39 @@ l_parse_port (lua_State *L)
   return 0;
 }
 
+// Helper function
+// Pushes onto the stack the string that describes the transition table at
+// index \p tab.
+static void
+l_push_transition (lua_State *L, int tab)
+{
+  static const char *fields[][2] = {
+    { "type", nullptr },     { "subtype", "" },         { "dur", "0" },
+    { "startProgress", "0" }, { "endProgress", "0" },
+    { "direction", "forward" }, { "fadeColor", "" },    { "horzRepeat", "0" },
+    { "vertRepeat", "0" },   { "borderWidth", "0" },    { "borderColor", "" },
+  };
+  gsize i;
+
+  lua_pushliteral (L, "{");
+  for (i = 0; i < G_N_ELEMENTS (fields); i++)
+  {
+    const char *value;
+
+    lua_pushstring (L, fields[i][0]);
+    lua_rawget (L, tab);
+    value = lua_tostring (L, -1);
+    if (value == nullptr && (fields[i][1] == nullptr || !lua_isnil (L, -1)))
+      luaL_error (L, "bad transition %s", fields[i][0]);
+    lua_pushfstring (L, "%s='%s',", fields[i][0],
+                     value != nullptr ? value : fields[i][1]);
+    lua_remove (L, -2);
+    lua_concat (L, 2);
+  }
+  lua_pushliteral (L, "}");
+  lua_concat (L, 2);
+}
+
 // parse_media (doc, parent, tab, path)
 static int
 l_parse_media (lua_State *L)
@@ -379,7 +412,7 @@ l_parse_media (lua_State *L)
   const char *name;
   const char *value;
   const char *path;
-  string src, str;
+  string src;
   Time begin, end;
 
   doc = (Document *) lua_touserdata (L, 1);
@@ -409,11 +442,26 @@ l_parse_media (lua_State *L)
   lua_rawgeti (L, 3, 3);
   if (lua_isnil (L, -1) == 0) // have property list
   {
+    luaL_checktype (L, -1, LUA_TTABLE);
     lua_pushnil (L);
-    while (lua_next (L, 7) != 0)
+    while (lua_next (L, -2) != 0)
     {
-      name = lua_tolstring (L, -2, 0);
-      value = lua_tolstring (L, -1, 0);
+      if (lua_type (L, -2) != LUA_TSTRING)
+        return luaL_error (L, "bad property name in media %s", id);
+      name = lua_tostring (L, -2);
+
+      if ((xstrcasecmp ("transIn", name) == 0)
+          || (xstrcasecmp ("transOut", name) == 0))
+      {
+        luaL_checktype (L, -1, LUA_TTABLE);
+        l_push_transition (L, lua_gettop (L));
+        lua_replace (L, -2);
+      }
+
+      if (!lua_isstring (L, -1))
+        return luaL_error (L, "bad value for property %s of media %s", name,
+                           id);
+      value = lua_tostring (L, -1);
 
       if (xstrcasecmp ("src", name) == 0)
       {
@@ -429,96 +477,6 @@ l_parse_media (lua_State *L)
           value = src.c_str ();
         }
       }
-      else if ((xstrcasecmp ("transIn", name) == 0)
-               || (xstrcasecmp ("transOut", name) == 0))
-      {
-        string aux;
-
-        lua_getfield (L, 9, "type");
-        if (lua_isnil (L, -1) == 0)
-        {
-          aux = lua_tolstring (L, -1, 0);
-          str = "{type='" + aux + "',";
-        }
-        else
-        {
-          g_assert_not_reached ();
-        }
-
-        lua_getfield (L, 9, "subtype");
-        if (lua_isnil (L, -1) == 0)
-          aux = lua_tolstring (L, -1, 0);
-        else
-          aux = "";
-        str += "subtype='" + aux + "',";
-
-        lua_getfield (L, 9, "dur");
-        if (lua_isnil (L, -1) == 0)
-          aux = lua_tolstring (L, -1, 0);
-        else
-          aux = "0";
-        str += "dur='" + aux + "',";
-
-        lua_getfield (L, 9, "startProgress");
-        if (lua_isnil (L, -1) == 0)
-          aux = lua_tolstring (L, -1, 0);
-        else
-          aux = "0";
-        str += "startProgress='" + aux + "',";
-
-        lua_getfield (L, 9, "endProgress");
-        if (lua_isnil (L, -1) == 0)
-          aux = lua_tolstring (L, -1, 0);
-        else
-          aux = "0";
-        str += "endProgress='" + aux + "',";
-
-        lua_getfield (L, 9, "direction");
-        if (lua_isnil (L, -1) == 0)
-          aux = lua_tolstring (L, -1, 0);
-        else
-          aux = "forward";
-        str += "direction='" + aux + "',";
-
-        lua_getfield (L, 9, "fadeColor");
-        if (lua_isnil (L, -1) == 0)
-          aux = lua_tolstring (L, -1, 0);
-        else
-          aux = "";
-        str += "fadeColor='" + aux + "',";
-
-        lua_getfield (L, 9, "horzRepeat");
-        if (lua_isnil (L, -1) == 0)
-          aux = lua_tolstring (L, -1, 0);
-        else
-          aux = "0";
-        str += "horzRepeat='" + aux + "',";
-
-        lua_getfield (L, 9, "vertRepeat");
-        if (lua_isnil (L, -1) == 0)
-          aux = lua_tolstring (L, -1, 0);
-        else
-          aux = "0";
-        str += "vertRepeat='" + aux + "',";
-
-        lua_getfield (L, 9, "borderWidth");
-        if (lua_isnil (L, -1) == 0)
-          aux = lua_tolstring (L, -1, 0);
-        else
-          aux = "0";
-        str += "borderWidth='" + aux + "',";
-
-        lua_getfield (L, 9, "borderColor");
-        if (lua_isnil (L, -1) == 0)
-          aux = lua_tolstring (L, -1, 0);
-        else
-          aux = "";
-        str += "borderColor='" + aux + "',";
-
-        str += "}";
-        value = str.c_str ();
-        lua_pop (L, 11);
-      }
 
       media->addAttributionEvent (name);
       media->setProperty (name, value);
-- 
2.43.0


From ce3ddb183be7cd0cb11db9495af23aae0dc833fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:40 +0000
Subject: [PATCH 45/69] fix: resolve the rules of Lua switches wherever the
 switch is

---
 lib/ParserLua.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lib/ParserLua.cpp b/lib/ParserLua.cpp
index 7b98aaa..f4285da 100644
--- a/lib/ParserLua.cpp
+++ b/lib/ParserLua.cpp
@@ -324,11 +324,16 @@ l_parse_switch (lua_State *L)
     lua_pushnil (L);
     while (lua_next (L, -2) != 0)
     {
-      lua_rawgeti (L, 10, 1);
-      const string id_media = string (luaL_checkstring (L, -1));
-      Object *obj = swtch->getChildById (id_media);
+      int rule = lua_gettop (L);
+      luaL_checktype (L, rule, LUA_TTABLE);
 
-      lua_rawgeti (L, 10, 2);
+      lua_rawgeti (L, rule, 1);
+      const char *id_comp = luaL_checkstring (L, -1);
+      Object *obj = swtch->getChildById (id_comp);
+      if (unlikely (obj == nullptr))
+        return luaL_error (L, "no such component: %s", id_comp);
+
+      lua_rawgeti (L, rule, 2);
       luaL_checktype (L, -1, LUA_TTABLE);
 
       Predicate *predicate = new Predicate (Predicate::CONJUNCTION);
-- 
2.43.0


From 35e20c49527b09ebd0c7afbf6fdd5a1f05306d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:45 +0000
Subject: [PATCH 46/69] fix: refuse lists and entries of the wrong type in Lua
 documents

---
 lib/ParserLua.cpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/lib/ParserLua.cpp b/lib/ParserLua.cpp
index f4285da..d70e8fe 100644
--- a/lib/ParserLua.cpp
+++ b/lib/ParserLua.cpp
@@ -158,9 +158,11 @@ l_parse_context (lua_State *L)
   lua_rawgeti (L, 3, 5);
   if (lua_isnil (L, -1) == 0) // children
   {
+    luaL_checktype (L, -1, LUA_TTABLE);
     lua_pushnil (L);
     while (lua_next (L, -2) != 0)
     {
+      luaL_checktype (L, -1, LUA_TTABLE);
       lua_rawgeti (L, -1, 1);
       string child = luaL_checkstring (L, -1);
 
@@ -204,6 +206,7 @@ l_parse_context (lua_State *L)
   lua_rawgeti (L, 3, 4);
   if (lua_isnil (L, -1) == 0) // ports
   {
+    luaL_checktype (L, -1, LUA_TTABLE);
     lua_pushnil (L);
     while (lua_next (L, -2) != 0)
     {
@@ -219,6 +222,7 @@ l_parse_context (lua_State *L)
   lua_rawgeti (L, 3, 6);
   if (lua_isnil (L, -1) == 0) // links
   {
+    luaL_checktype (L, -1, LUA_TTABLE);
     lua_pushnil (L);
     while (lua_next (L, -2) != 0)
     {
@@ -275,9 +279,11 @@ l_parse_switch (lua_State *L)
   lua_rawgeti (L, 3, 3);
   if (lua_isnil (L, -1) == 0) // children
   {
+    luaL_checktype (L, -1, LUA_TTABLE);
     lua_pushnil (L);
     while (lua_next (L, -2) != 0)
     {
+      luaL_checktype (L, -1, LUA_TTABLE);
       lua_rawgeti (L, -1, 1);
       string child = luaL_checkstring (L, -1);
 
@@ -321,6 +327,7 @@ l_parse_switch (lua_State *L)
   lua_rawgeti (L, 3, 4);
   if (lua_isnil (L, -1) == 0) // rules
   {
+    luaL_checktype (L, -1, LUA_TTABLE);
     lua_pushnil (L);
     while (lua_next (L, -2) != 0)
     {
@@ -494,15 +501,16 @@ l_parse_media (lua_State *L)
   lua_rawgeti (L, 3, 4);
   if (lua_isnil (L, -1) == 0) // have area list
   {
+    luaL_checktype (L, 5, LUA_TTABLE);
     lua_pushnil (L);
     while (lua_next (L, 5) != 0)
     {
+      luaL_checktype (L, -1, LUA_TTABLE);
       lua_rawgeti (L, -1, 1);
-      name = lua_tolstring (L, -1, nullptr);
+      name = luaL_checkstring (L, -1);
 
-      lua_pop (L, 1);
-      lua_rawgeti (L, -1, 2);
-      value = lua_tolstring (L, -1, nullptr);
+      lua_rawgeti (L, -2, 2);
+      value = luaL_optstring (L, -1, nullptr);
 
       begin = 0;
       if ((value != NULL)
@@ -512,9 +520,8 @@ l_parse_media (lua_State *L)
         lua_error (L);
       }
 
-      lua_pop (L, 1);
-      lua_rawgeti (L, -1, 3);
-      value = lua_tolstring (L, -1, 0);
+      lua_rawgeti (L, -3, 3);
+      value = luaL_optstring (L, -1, nullptr);
 
       end = GINGA_TIME_NONE;
       if ((value != NULL)
@@ -525,7 +532,7 @@ l_parse_media (lua_State *L)
       }
 
       media->addPresentationEvent (name, begin, end);
-      lua_pop (L, 2);
+      lua_pop (L, 4);
     }
   }
 
@@ -555,6 +562,7 @@ l_parse_link (lua_State *L)
   {
     Action act;
 
+    luaL_checktype (L, 6, LUA_TTABLE);
     lua_rawgeti (L, 6, 1); // transition
     act.transition = getStringAsTransition (L, luaL_checkstring (L, -1));
 
@@ -588,6 +596,7 @@ l_parse_link (lua_State *L)
   {
     Action act;
 
+    luaL_checktype (L, 7, LUA_TTABLE);
     lua_rawgeti (L, 7, 1); // transition
     act.transition = getStringAsTransition (L, luaL_checkstring (L, -1));
 
@@ -625,6 +634,9 @@ l_parse_link (lua_State *L)
     lua_pop (L, 5);
   }
 
+  if (unlikely (conditions.empty () || actions.empty ()))
+    return luaL_error (L, "link without conditions or actions");
+
   parent->addLink (conditions, actions);
   return 0;
 }
-- 
2.43.0


From 81f5b690b666af90e36b7b4cad63b0f0534e606f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:49 +0000
Subject: [PATCH 47/69] fix: refuse duplicate ids in Lua documents

---
 lib/ParserLua.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/ParserLua.cpp b/lib/ParserLua.cpp
index d70e8fe..1e22278 100644
--- a/lib/ParserLua.cpp
+++ b/lib/ParserLua.cpp
@@ -112,6 +112,15 @@ getStringAsTransition (lua_State *L, const char *str)
   return Event::getStringAsTransition (str);
 }
 
+// Helper function
+// Raises a Lua error if \p doc already has an object named \p id.
+static void
+checkId (lua_State *L, Document *doc, const char *id)
+{
+  if (unlikely (doc->getObjectByIdOrAlias (id) != nullptr))
+    luaL_error (L, "duplicate id: %s", id);
+}
+
 /* Parsing functions. */
 
 /* parse_context (doc, [parent], tab, path) */
@@ -151,6 +160,7 @@ l_parse_context (lua_State *L)
   }
   else // non-root
   {
+    checkId (L, doc, id);
     ctx = new Context (id);
     parent->addChild (ctx);
   }
@@ -273,6 +283,7 @@ l_parse_switch (lua_State *L)
     lua_error (L);
   }
 
+  checkId (L, doc, id);
   swtch = new Switch (id);
   parent->addChild (swtch);
 
@@ -443,6 +454,7 @@ l_parse_media (lua_State *L)
 
   lua_rawgeti (L, 3, 2);
   id = luaL_checkstring (L, -1);
+  checkId (L, doc, id);
   media = new Media (id);
 
   if (parent == NULL) // error
-- 
2.43.0


From 73eaec9b8f21b9fd080676d2db18cbf109be6e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:53 +0000
Subject: [PATCH 48/69] fix: do not abort on Lua errors that are no strings

---
 lib/ParserLua.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lib/ParserLua.cpp b/lib/ParserLua.cpp
index 1e22278..b20bf38 100644
--- a/lib/ParserLua.cpp
+++ b/lib/ParserLua.cpp
@@ -745,6 +745,15 @@ l_parse_predicate (lua_State *L)
   return 0;
 }
 
+// Helper function
+// Gets the error message at the top of the stack.
+static string
+getErrorMessage (lua_State *L)
+{
+  const char *msg = lua_tostring (L, -1);
+  return (msg != nullptr) ? string (msg) : "unknown error";
+}
+
 // External API.
 
 /// Helper function used by Parser::parseBuffer() and Parser::parseFile().
@@ -762,7 +771,7 @@ process (lua_State *L, const string &path, string *errmsg)
   if (unlikely (lua_pcall (L, 4, 0, 0) != LUA_OK))
   {
     delete doc;
-    tryset (errmsg, g_strdup (luaL_checkstring (L, -1)));
+    tryset (errmsg, getErrorMessage (L));
     return nullptr;
   }
 
@@ -797,7 +806,7 @@ ParserLua::parseBuffer (const void *buf, size_t size, string *errmsg)
   err = luaL_dostring (L, str);
   if (unlikely (err != LUA_OK))
   {
-    tryset (errmsg, g_strdup (luaL_checkstring (L, -1)));
+    tryset (errmsg, getErrorMessage (L));
     goto done;
   }
 
@@ -830,7 +839,7 @@ ParserLua::parseFile (const string &path, string *errmsg)
   err = luaL_dofile (L, path.c_str ());
   if (unlikely (err != LUA_OK))
   {
-    tryset (errmsg, g_strdup (luaL_checkstring (L, -1)));
+    tryset (errmsg, getErrorMessage (L));
     goto done;
   }
 
-- 
2.43.0


From 8e9db2b40ed66486cc177abf1afeacbaf4d3cca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:57 +0000
Subject: [PATCH 49/69] fix: keep the properties of contexts of Lua documents

---
 lib/ParserLua.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/lib/ParserLua.cpp b/lib/ParserLua.cpp
index b20bf38..c6f3018 100644
--- a/lib/ParserLua.cpp
+++ b/lib/ParserLua.cpp
@@ -165,6 +165,21 @@ l_parse_context (lua_State *L)
     parent->addChild (ctx);
   }
 
+  lua_rawgeti (L, 3, 3);
+  if (lua_isnil (L, -1) == 0) // properties
+  {
+    luaL_checktype (L, -1, LUA_TTABLE);
+    lua_pushnil (L);
+    while (lua_next (L, -2) != 0)
+    {
+      if (lua_type (L, -2) != LUA_TSTRING || !lua_isstring (L, -1))
+        return luaL_error (L, "bad property in context %s", id);
+      ctx->addAttributionEvent (lua_tostring (L, -2));
+      ctx->setProperty (lua_tostring (L, -2), lua_tostring (L, -1));
+      lua_pop (L, 1);
+    }
+  }
+
   lua_rawgeti (L, 3, 5);
   if (lua_isnil (L, -1) == 0) // children
   {
-- 
2.43.0


From 26e20082dcd84997f0d41e04ab88fd371c45dc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:50 +0000
Subject: [PATCH 50/69] fix: take the percentage of bottom of the height of the
 screen

---
 lib/Player.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/Player.cpp b/lib/Player.cpp
index 729f412..f3b05ad 100644
--- a/lib/Player.cpp
+++ b/lib/Player.cpp
@@ -726,8 +726,7 @@ Player::doSetProperty (Property code, unused (const string &name),
       {
         int height = _formatter->getOptionInt ("height");
         _prop.rect.y = height - _prop.rect.height
-                       - ginga::parse_percent (value, _prop.rect.height, 0,
-                                               G_MAXINT);
+                       - ginga::parse_percent (value, height, 0, G_MAXINT);
         _dirty = true;
         break;
       }
-- 
2.43.0


From 62a7670b3011f0b1ca675acfecd56231ddd19445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:50 +0000
Subject: [PATCH 51/69] fix: resize objects whose width or height is unset

---
 lib/Formatter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/Formatter.cpp b/lib/Formatter.cpp
index 438a8aa..14b9434 100644
--- a/lib/Formatter.cpp
+++ b/lib/Formatter.cpp
@@ -216,8 +216,9 @@ Formatter::resize (int width, int height)
 
       UPDATE_IF_HAVE ("top");
       UPDATE_IF_HAVE ("left");
-      UPDATE_IF_HAVE ("width");
-      UPDATE_IF_HAVE ("height");
+      // Unset width and height depend on the screen too.
+      media->setProperty ("width", media->getProperty ("width"));
+      media->setProperty ("height", media->getProperty ("height"));
       UPDATE_IF_HAVE ("bottom");
       UPDATE_IF_HAVE ("right");
     }
-- 
2.43.0


From 52c83ebdb442ffda6f2a904ed530db2de94dbf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:50 +0000
Subject: [PATCH 52/69] fix: advance the time of a player as that of its media

---
 lib/Media.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/Media.cpp b/lib/Media.cpp
index e366ba4..9a477bd 100644
--- a/lib/Media.cpp
+++ b/lib/Media.cpp
@@ -141,16 +141,16 @@ Media::sendTick (Time total, Time diff, Time frame)
 {
   Time dur;
 
+  // Update player time.
+  if (_player != nullptr && this->isOccurring ())
+    _player->incTime (diff);
+
   // Update object time.
   Object::sendTick (total, diff, frame);
 
   if (_player == nullptr)
     return; // nothing to do.
 
-  // Update player time.
-  g_assert_nonnull (_player);
-  _player->incTime (diff);
-
   // Check EOS.
   if (_player->getEOS ()
       || (GINGA_TIME_IS_VALID (dur = _player->getDuration ())
-- 
2.43.0


From e77bd6f99518e67c53b6398c4157b5060f647c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:50 +0000
Subject: [PATCH 53/69] fix: store the parts of bounds, location and size set
 gradually

---
 lib/Player.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/lib/Player.cpp b/lib/Player.cpp
index f3b05ad..32c8422 100644
--- a/lib/Player.cpp
+++ b/lib/Player.cpp
@@ -350,7 +350,27 @@ void
 Player::schedulePropertyAnimation (const string &name, const string &from,
                                    const string &to, Time dur)
 {
-  if (PlayerAnimator::canAnimate (name))
+  list<string> parts;
+  list<string> values;
+
+  if (name == "bounds")
+    parts = { "left", "top", "width", "height" };
+  else if (name == "location")
+    parts = { "left", "top" };
+  else if (name == "size")
+    parts = { "width", "height" };
+
+  if (!parts.empty ()
+      && ginga::try_parse_list (to, ',', parts.size (), parts.size (),
+                                &values))
+    {
+      for (auto part : parts)
+        {
+          _media->setProperty (part, values.front (), dur);
+          values.pop_front ();
+        }
+    }
+  else if (PlayerAnimator::canAnimate (name))
     _animator->schedule (name, from, to, dur);
   else
     this->setProperty (name, to);
-- 
2.43.0


From cef232171ed36a9db0ed041ef7bc84fd6943b65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:50 +0000
Subject: [PATCH 54/69] fix: start animations from what is drawn, when they are
 set

---
 lib/Player.cpp         | 10 ++++++++--
 lib/PlayerAnimator.cpp | 31 ++++++++++++++++++++-----------
 2 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/lib/Player.cpp b/lib/Player.cpp
index 32c8422..5a31fe4 100644
--- a/lib/Player.cpp
+++ b/lib/Player.cpp
@@ -347,7 +347,8 @@ Player::resetProperties (set<string> *props)
 }
 
 void
-Player::schedulePropertyAnimation (const string &name, const string &from,
+Player::schedulePropertyAnimation (const string &name,
+                                   unused (const string &from),
                                    const string &to, Time dur)
 {
   list<string> parts;
@@ -371,7 +372,12 @@ Player::schedulePropertyAnimation (const string &name, const string &from,
         }
     }
   else if (PlayerAnimator::canAnimate (name))
-    _animator->schedule (name, from, to, dur);
+    {
+      // Start from what would be drawn now.
+      _animator->update (&_prop.rect, &_prop.bgColor, &_prop.alpha, &_crop);
+      _animator->schedule (name, "", to, dur);
+      _animator->update (&_prop.rect, &_prop.bgColor, &_prop.alpha, &_crop);
+    }
   else
     this->setProperty (name, to);
 }
diff --git a/lib/PlayerAnimator.cpp b/lib/PlayerAnimator.cpp
index c269f8e..499a2ee 100644
--- a/lib/PlayerAnimator.cpp
+++ b/lib/PlayerAnimator.cpp
@@ -129,11 +129,14 @@ PlayerAnimator::schedule (const string &name, const string &from,
       string pre_r, pre_g, pre_b, pre_a;
       string pos_r, pos_g, pos_b, pos_a;
 
-      pre = ginga::parse_color (from);
-      pre_r = xstrbuild ("%d", (int) CLAMP (lround (pre.red * 255), 0, 255));
-      pre_g = xstrbuild ("%d", (int) CLAMP (lround (pre.green * 255), 0, 255));
-      pre_b = xstrbuild ("%d", (int) CLAMP (lround (pre.blue * 255), 0, 255));
-      pre_a = xstrbuild ("%d", (int) CLAMP (lround (pre.alpha * 255), 0, 255));
+      if (from != "")
+        {
+          pre = ginga::parse_color (from);
+          pre_r = xstrbuild ("%d", (int) CLAMP (lround (pre.red * 255), 0, 255));
+          pre_g = xstrbuild ("%d", (int) CLAMP (lround (pre.green * 255), 0, 255));
+          pre_b = xstrbuild ("%d", (int) CLAMP (lround (pre.blue * 255), 0, 255));
+          pre_a = xstrbuild ("%d", (int) CLAMP (lround (pre.alpha * 255), 0, 255));
+        }
 
       pos = ginga::parse_color (to);
       pos_r = xstrbuild ("%d", (int) CLAMP (lround (pos.red * 255), 0, 255));
@@ -170,16 +173,22 @@ PlayerAnimator::update (Rect *rect, Color *bgColor, guint8 *alpha,
                         list<int> *cropPolygon)
 {
 
-#define UPDATE(info, Type, var, rnd, min, max)                             \
+#define UPDATE_FROM(info, Type, cur, var, rnd, min, max)                   \
   G_STMT_START                                                             \
   {                                                                        \
     if (!(info)->isInit ())                                                \
-      (info)->init (var, *_time);                                          \
+      (info)->init (cur, *_time);                                          \
     (info)->update (*_time);                                               \
     var = (Type) CLAMP (rnd ((info)->getCurrent ()), min, max);            \
   }                                                                        \
   G_STMT_END
 
+#define UPDATE(info, Type, var, rnd, min, max)                             \
+  UPDATE_FROM (info, Type, var, var, rnd, min, max)
+
+#define UPDATE_COLOR(info, var)                                            \
+  UPDATE_FROM (info, double, (var) *255., var, fromByte, 0., 1.)
+
   g_assert_nonnull (rect);
   g_assert_nonnull (bgColor);
   g_assert_nonnull (alpha);
@@ -273,19 +282,19 @@ PlayerAnimator::update (Rect *rect, Color *bgColor, guint8 *alpha,
         }
       else if (name == "background:r")
         {
-          UPDATE (info, double, bgColor->red, fromByte, 0., 1.);
+          UPDATE_COLOR (info, bgColor->red);
         }
       else if (name == "background:g")
         {
-          UPDATE (info, double, bgColor->green, fromByte, 0., 1.);
+          UPDATE_COLOR (info, bgColor->green);
         }
       else if (name == "background:b")
         {
-          UPDATE (info, double, bgColor->blue, fromByte, 0., 1.);
+          UPDATE_COLOR (info, bgColor->blue);
         }
       else if (name == "background:a")
         {
-          UPDATE (info, double, bgColor->alpha, fromByte, 0., 1.);
+          UPDATE_COLOR (info, bgColor->alpha);
         }
       else if (name == "transparency" || name == "opacity")
         {
-- 
2.43.0


From 89dd6c0638ea71ff61bc3bc8ddb83220320bf8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:50 +0000
Subject: [PATCH 55/69] fix: keep the right and bottom distances while the size
 is animated

---
 lib/Player.cpp | 25 ++++++++++++++++++++++---
 lib/Player.h   |  1 +
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/lib/Player.cpp b/lib/Player.cpp
index 5a31fe4..410e6d2 100644
--- a/lib/Player.cpp
+++ b/lib/Player.cpp
@@ -374,9 +374,9 @@ Player::schedulePropertyAnimation (const string &name,
   else if (PlayerAnimator::canAnimate (name))
     {
       // Start from what would be drawn now.
-      _animator->update (&_prop.rect, &_prop.bgColor, &_prop.alpha, &_crop);
+      this->updateAnimations ();
       _animator->schedule (name, "", to, dur);
-      _animator->update (&_prop.rect, &_prop.bgColor, &_prop.alpha, &_crop);
+      this->updateAnimations ();
     }
   else
     this->setProperty (name, to);
@@ -392,7 +392,7 @@ void
 Player::redraw (cairo_t *cr)
 {
   g_assert (_state != SLEEPING);
-  _animator->update (&_prop.rect, &_prop.bgColor, &_prop.alpha, &_crop);
+  this->updateAnimations ();
 
   if (!_prop.visible || !(_prop.rect.width > 0 && _prop.rect.height > 0))
     {
@@ -837,6 +837,25 @@ Player::doSetProperty (Property code, unused (const string &name),
 
 // Private.
 
+void
+Player::updateAnimations ()
+{
+  int width;
+  int height;
+  string s;
+
+  width = _prop.rect.width;
+  height = _prop.rect.height;
+  _animator->update (&_prop.rect, &_prop.bgColor, &_prop.alpha, &_crop);
+
+  // The position may depend on the size.
+  if (_prop.rect.width != width && (s = this->getProperty ("right")) != "")
+    Player::doSetProperty (PROP_RIGHT, "right", s);
+  if (_prop.rect.height != height
+      && (s = this->getProperty ("bottom")) != "")
+    Player::doSetProperty (PROP_BOTTOM, "bottom", s);
+}
+
 void
 Player::redrawDebuggingInfo (cairo_t *cr)
 {
diff --git a/lib/Player.h b/lib/Player.h
index 461fb06..315a2b1 100644
--- a/lib/Player.h
+++ b/lib/Player.h
@@ -169,6 +169,7 @@ protected:
 
 private:
   void redrawDebuggingInfo (cairo_t *);
+  void updateAnimations ();
 
   // Static.
   static string _currentFocus; // current (global) focus index
-- 
2.43.0


From 8112b43567f6fd11a05ccc6a109f0ee2cbc4d5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:00 +0000
Subject: [PATCH 56/69] fix: erase only the object itself during its transition

---
 lib/Player.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/Player.cpp b/lib/Player.cpp
index 410e6d2..90826eb 100644
--- a/lib/Player.cpp
+++ b/lib/Player.cpp
@@ -404,6 +404,11 @@ Player::redraw (cairo_t *cr)
       this->reload ();
     }
 
+  // Draw apart what is to be cropped, so that only it is erased.
+  bool crop = !_opengl && !_crop.empty ();
+  if (crop)
+    cairo_push_group (cr);
+
   if (_prop.bgColor.alpha > 0)
     {
       if (_opengl)
@@ -499,12 +504,17 @@ Player::redraw (cairo_t *cr)
         }
 
       cairo_close_path (cr);
-      cairo_stroke_preserve (cr);
       cairo_fill (cr);
       cairo_set_operator (cr, CAIRO_OPERATOR_OVER);
       cairo_restore (cr);
     }
 
+  if (crop)
+    {
+      cairo_pop_group_to_source (cr);
+      cairo_paint (cr);
+    }
+
   if (_prop.debug || _formatter->getOptionBool ("debug"))
     {
       this->redrawDebuggingInfo (cr);
-- 
2.43.0


From 56a1d6b6f20e615b811dc88379de905239d2e0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:31 +0000
Subject: [PATCH 57/69] fix: render text into an empty rectangle

---
 lib/PlayerText.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/PlayerText.cpp b/lib/PlayerText.cpp
index b1b170f..8e742eb 100644
--- a/lib/PlayerText.cpp
+++ b/lib/PlayerText.cpp
@@ -58,8 +58,9 @@ PlayerText::renderSurface (const string &text, const string &family,
   int height;
   PangoRectangle r;
 
-  g_assert_cmpint (rect.width, >, 0);
-  g_assert_cmpint (rect.height, >, 0);
+  // The rectangle may be empty, a surface may not.
+  rect.width = MAX (rect.width, 1);
+  rect.height = MAX (rect.height, 1);
 
   sfc = cairo_image_surface_create (CAIRO_FORMAT_ARGB32, rect.width,
                                     rect.height);
-- 
2.43.0


From 38d00036d2145a04372a064d1ca2fd1810459518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:18 +0000
Subject: [PATCH 58/69] fix: text without fontBgColor has no background

---
 lib/PlayerText.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/PlayerText.cpp b/lib/PlayerText.cpp
index 8e742eb..0a984fd 100644
--- a/lib/PlayerText.cpp
+++ b/lib/PlayerText.cpp
@@ -155,7 +155,7 @@ PlayerText::PlayerText (Formatter *formatter, Media *media)
 {
   // Initialize handled properties.
   static set<string> handled = {
-    "fontColor",   "bgColor",    "fontFamily", "fontSize",  "fontStyle",
+    "fontColor",   "fontBgColor", "fontFamily", "fontSize",  "fontStyle",
     "fontVariant", "fontWeight", "horzAlign",  "vertAlign",
   };
   this->resetProperties (&handled);
-- 
2.43.0


From 049319ecf674dcc03d660cdeb80a8e42fdbad80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:23 +0000
Subject: [PATCH 59/69] fix: initialise the properties of video players

The speed was used by seeks, uninitialised.
---
 lib/PlayerVideo.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/PlayerVideo.cpp b/lib/PlayerVideo.cpp
index 82e7bf8..b289645 100644
--- a/lib/PlayerVideo.cpp
+++ b/lib/PlayerVideo.cpp
@@ -95,6 +95,14 @@ PlayerVideo::PlayerVideo (Formatter *formatter, Media *media)
 
   _TRACE ("");
 
+  _prop.mute = false;
+  _prop.balance = 0;
+  _prop.volume = 1;
+  _prop.treble = 0;
+  _prop.bass = 0;
+  _prop.freeze = false;
+  _prop.speed = 1;
+
   // Initialize GStreamer.
   if (!gst_is_initialized ())
     {
-- 
2.43.0


From 4f38b83423fd2c3a5c6d72971159d7c136c1e6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:23 +0000
Subject: [PATCH 60/69] fix: create the audio elements of video players

Setting volume, mute, balance, bass or treble of an audio or video used
elements that did not exist.
---
 lib/PlayerVideo.cpp | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/lib/PlayerVideo.cpp b/lib/PlayerVideo.cpp
index b289645..c5e25b6 100644
--- a/lib/PlayerVideo.cpp
+++ b/lib/PlayerVideo.cpp
@@ -131,6 +131,40 @@ PlayerVideo::PlayerVideo (Formatter *formatter, Media *media)
   g_assert (ret > 0);
   gst_object_unref (bus);
 
+  // Setup the audio processing bin.
+  _audio.bin = gst_bin_new ("audio.bin");
+  g_assert_nonnull (_audio.bin);
+  _audio.volume = gst_element_factory_make ("volume", "audio.volume");
+  g_assert_nonnull (_audio.volume);
+  _audio.pan = gst_element_factory_make ("audiopanorama", "audio.pan");
+  g_assert_nonnull (_audio.pan);
+  _audio.equalizer
+      = gst_element_factory_make ("equalizer-3bands", "audio.equalizer");
+  g_assert_nonnull (_audio.equalizer);
+  _audio.convert
+      = gst_element_factory_make ("audioconvert", "audio.convert");
+  g_assert_nonnull (_audio.convert);
+  _audio.sink = gst_element_factory_make ("autoaudiosink", "audio.sink");
+  g_assert_nonnull (_audio.sink);
+
+  gst_bin_add_many (GST_BIN (_audio.bin), _audio.volume, _audio.pan,
+                    _audio.equalizer, _audio.convert, _audio.sink, nullptr);
+  if (unlikely (!gst_element_link_many (_audio.volume, _audio.pan,
+                                        _audio.equalizer, _audio.convert,
+                                        _audio.sink, nullptr)))
+    {
+      _ERROR ("cannot link audio bin");
+    }
+
+  pad = gst_element_get_static_pad (_audio.volume, "sink");
+  g_assert_nonnull (pad);
+  ghost = gst_ghost_pad_new ("sink", pad);
+  g_assert_nonnull (ghost);
+  gst_element_add_pad (_audio.bin, ghost);
+  gst_object_unref (pad);
+
+  g_object_set (G_OBJECT (_playbin), "audio-sink", _audio.bin, nullptr);
+
   // Setup video the processing bin.
   _video.bin = gst_bin_new ("video.bin");
   g_assert_nonnull (_video.bin);
-- 
2.43.0


From ecd489b500c4b8ae5c205426e724e1f9ada3c882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:23 +0000
Subject: [PATCH 61/69] fix: audio and video end when their contents end

Unless they freeze.
---
 lib/PlayerVideo.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/PlayerVideo.cpp b/lib/PlayerVideo.cpp
index c5e25b6..7635d15 100644
--- a/lib/PlayerVideo.cpp
+++ b/lib/PlayerVideo.cpp
@@ -441,7 +441,8 @@ PlayerVideo::cb_Bus (GstBus *bus, GstMessage *msg, PlayerVideo *player)
     case GST_MESSAGE_EOS:
       {
         _TRACE_MESSAGE (msg, "");
-        // player->stop (); // set eos or use player state to signal eos
+        if (!player->getFreeze ())
+          player->setEOS (true);
         break;
       }
     case GST_MESSAGE_NEW_CLOCK:
-- 
2.43.0


From 7f1ddd2146e648e61af4a1d3ced2d9d59beb55d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:23 +0000
Subject: [PATCH 62/69] fix: position and duration of video are not always
 known

---
 lib/PlayerVideo.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/PlayerVideo.cpp b/lib/PlayerVideo.cpp
index 7635d15..b55faf0 100644
--- a/lib/PlayerVideo.cpp
+++ b/lib/PlayerVideo.cpp
@@ -359,7 +359,7 @@ PlayerVideo::getPipelineTime ()
 gint64
 PlayerVideo::getStreamMediaTime ()
 {
-  gint64 cur;
+  gint64 cur = 0;
   if (unlikely (
           !gst_element_query_position (_playbin, GST_FORMAT_TIME, &cur)))
     TRACE ("Get %s time failed", _id.c_str ());
@@ -369,7 +369,7 @@ PlayerVideo::getStreamMediaTime ()
 gint64
 PlayerVideo::getStreamMediaDuration ()
 {
-  gint64 dur;
+  gint64 dur = -1;
   if (unlikely (
           !gst_element_query_duration (_playbin, GST_FORMAT_TIME, &dur)))
     TRACE ("Get %s duration failed", _id.c_str ());
@@ -601,7 +601,7 @@ PlayerVideo::doSetProperty (Property code, unused (const string &name),
             next = (gint64) (t);
             if (xstrhasprefix (value, "+"))
               {
-                if (next + cur >= dur)
+                if (dur >= 0 && next + cur >= dur)
                   setEOS (true);
 
                 next += cur;
-- 
2.43.0


From d8bc6c502c36c5493cb385fdd34625d6bc97821b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:23 +0000
Subject: [PATCH 63/69] fix: seeking backwards in video

---
 lib/PlayerVideo.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/PlayerVideo.cpp b/lib/PlayerVideo.cpp
index b55faf0..4cdafd0 100644
--- a/lib/PlayerVideo.cpp
+++ b/lib/PlayerVideo.cpp
@@ -597,7 +597,9 @@ PlayerVideo::doSetProperty (Property code, unused (const string &name),
             TRACE ("time: %" GST_TIME_FORMAT " / %" GST_TIME_FORMAT,
                    GST_TIME_ARGS (cur), GST_TIME_ARGS (dur));
 
-            try_parse_time (value, &t);
+            bool sign = xstrhasprefix (value, "+") || xstrhasprefix (value, "-");
+            if (!try_parse_time (sign ? value.substr (1) : value, &t))
+              break;
             next = (gint64) (t);
             if (xstrhasprefix (value, "+"))
               {
@@ -608,7 +610,7 @@ PlayerVideo::doSetProperty (Property code, unused (const string &name),
               }
             else if (xstrhasprefix (value, "-"))
               {
-                next = (next - cur < 0) ? 0 : next - cur;
+                next = (cur - next < 0) ? 0 : cur - next;
               }
             seek (next);
           }
-- 
2.43.0


From ad9d0bcdad13638bf71971d546e0b9d020c7326c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:23 +0000
Subject: [PATCH 64/69] fix: changing the speed of audio and video

The event was unreferenced twice, was not sent to audio, and did not say
where to start from when playing backwards.
---
 lib/PlayerVideo.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/PlayerVideo.cpp b/lib/PlayerVideo.cpp
index 4cdafd0..9dd68a7 100644
--- a/lib/PlayerVideo.cpp
+++ b/lib/PlayerVideo.cpp
@@ -289,11 +289,11 @@ PlayerVideo::speed (double value)
     {
       seek_event = gst_event_new_seek (
           value, GST_FORMAT_TIME, GST_SEEK_FLAG_FLUSH, GST_SEEK_TYPE_SET, 0,
-          GST_SEEK_TYPE_NONE, position);
+          GST_SEEK_TYPE_SET, position);
     }
-  if (unlikely (!gst_element_send_event (_video.sink, seek_event)))
+  // The pipeline takes the event; media without video have no video sink.
+  if (unlikely (!gst_element_send_event (_playbin, seek_event)))
     TRACE ("speed failed");
-  gst_event_unref (seek_event);
 }
 
 void
-- 
2.43.0


From 1a5fd6c9503716168d9455495ded44a1d3dc9139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:37 +0000
Subject: [PATCH 65/69] fix: apply the speed and time given to a video before
 it is ready

They were kept, but never applied.
---
 lib/PlayerVideo.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/PlayerVideo.cpp b/lib/PlayerVideo.cpp
index 9dd68a7..1ae2901 100644
--- a/lib/PlayerVideo.cpp
+++ b/lib/PlayerVideo.cpp
@@ -241,6 +241,7 @@ PlayerVideo::resume ()
   TRACE ("resuming %s", _id.c_str ());
 
   gstx_element_set_state_sync (_playbin, GST_STATE_PLAYING);
+  doStackedActions ();
   Player::resume ();
 }
 
@@ -481,6 +482,8 @@ PlayerVideo::cb_Bus (GstBus *bus, GstMessage *msg, PlayerVideo *player)
                             gst_element_state_get_name (old_state),
                             gst_element_state_get_name (new_state));
           }
+        if (new_state == GST_STATE_PAUSED || new_state == GST_STATE_PLAYING)
+          player->doStackedActions ();
         break;
       }
     case GST_MESSAGE_ERROR:
@@ -659,14 +662,11 @@ PlayerVideo::stackAction (Property code, unused (const string &name),
 void
 PlayerVideo::doStackedActions ()
 {
-  while (!_stack_actions.empty ())
-    {
-      PlayerVideoAction act;
-      act = _stack_actions.front ();
-      _stack_actions.pop_front ();
+  list<PlayerVideoAction> actions;
 
-      this->doSetProperty (act.code, act.name, act.value);
-    }
+  actions.swap (_stack_actions); // may be stacked again
+  for (auto &act : actions)
+    this->doSetProperty (act.code, act.name, act.value);
 }
 
 bool
-- 
2.43.0


From 1b8839b127e558d173405e24695609d3db890a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:37 +0000
Subject: [PATCH 66/69] fix: initialise all callbacks of signal generators

Newer versions of GStreamer have more of them.
---
 lib/PlayerSigGen.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/PlayerSigGen.cpp b/lib/PlayerSigGen.cpp
index bb1c3c3..063a879 100644
--- a/lib/PlayerSigGen.cpp
+++ b/lib/PlayerSigGen.cpp
@@ -163,6 +163,7 @@ PlayerSigGen::PlayerSigGen (Formatter *formatter, Media *media)
   gst_object_unref (_audio.queueVideoPad);
 
   // Callbacks.
+  memset (&_callbacks, 0, sizeof (_callbacks));
   _callbacks.eos = nullptr;
   _callbacks.new_preroll = nullptr;
   _callbacks.new_sample = cb_NewSample;
-- 
2.43.0


From cb98657f7d30a58cb0e947a65bb3eb4cc2f4081d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:37 +0000
Subject: [PATCH 67/69] fix: a signal generator that cannot start ends

---
 lib/PlayerSigGen.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/PlayerSigGen.cpp b/lib/PlayerSigGen.cpp
index 063a879..995b183 100644
--- a/lib/PlayerSigGen.cpp
+++ b/lib/PlayerSigGen.cpp
@@ -205,10 +205,10 @@ PlayerSigGen::start ()
                 "volume", _prop.volume, nullptr);
 
   ret = gst_element_set_state (_pipeline, GST_STATE_PLAYING);
-  if (unlikely (ret == GST_STATE_CHANGE_FAILURE))
-    Player::setEOS (true);
 
   Player::start ();
+  if (unlikely (ret == GST_STATE_CHANGE_FAILURE))
+    Player::setEOS (true);
   TRACE ("started");
 }
 
-- 
2.43.0


From 65a7d4c6769b6e33ad71d99c218ffc66f403aa2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:56 +0000
Subject: [PATCH 68/69] fix: start media at the very begin of the area, and for
 all of it

Fractions of seconds were left out: media started at an area of less than a
second ended at once.
---
 lib/Media.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/Media.cpp b/lib/Media.cpp
index 9a477bd..bf95188 100644
--- a/lib/Media.cpp
+++ b/lib/Media.cpp
@@ -217,8 +217,8 @@ Media::beforeTransition (Event *evt, Event::Transition transition)
                     if (begin == GINGA_TIME_NONE)
                       begin = 0;
 
-                    string time_seek = xstrbuild ("%" G_GUINT64_FORMAT,
-                                                  begin / GINGA_SECOND);
+                    string time_seek = xstrbuild (
+                        "%.12g", (double) begin / GINGA_SECOND);
                     TRACE ("time_seek %ss", time_seek.c_str ());
                     _player->setProperty ("time", time_seek);
 
@@ -226,8 +226,8 @@ Media::beforeTransition (Event *evt, Event::Transition transition)
                     if (end != GINGA_TIME_NONE)
                       {
                         dur = end - begin;
-                        string time_end = xstrbuild ("%" G_GUINT64_FORMAT,
-                                                     dur / GINGA_SECOND);
+                        string time_end = xstrbuild (
+                            "%.12g", (double) dur / GINGA_SECOND);
                         TRACE ("time_end in %ss", time_end.c_str ());
                         _player->setProperty ("duration", time_end);
                         this->addDelayedAction (evt, Event::STOP, "", end);
-- 
2.43.0


From d6e8e4ddd1792e686229fd0e54a2a501da72fe5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:23 +0000
Subject: [PATCH 69/69] fix: seeking in a video that plays backwards

---
 lib/PlayerVideo.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/lib/PlayerVideo.cpp b/lib/PlayerVideo.cpp
index 1ae2901..297a1ec 100644
--- a/lib/PlayerVideo.cpp
+++ b/lib/PlayerVideo.cpp
@@ -254,10 +254,17 @@ PlayerVideo::seek (gint64 value)
   GstState curr, pending;
   GstStateChangeReturn ret;
 
-  if (unlikely (!gst_element_seek (_playbin, _prop.speed, GST_FORMAT_TIME,
-                                   GST_SEEK_FLAG_FLUSH, GST_SEEK_TYPE_SET,
-                                   value, GST_SEEK_TYPE_NONE,
-                                   (gint64) GST_CLOCK_TIME_NONE)))
+  gboolean done;
+  if (_prop.speed > 0)
+    done = gst_element_seek (_playbin, _prop.speed, GST_FORMAT_TIME,
+                             GST_SEEK_FLAG_FLUSH, GST_SEEK_TYPE_SET, value,
+                             GST_SEEK_TYPE_NONE,
+                             (gint64) GST_CLOCK_TIME_NONE);
+  else // from there to the beginning
+    done = gst_element_seek (_playbin, _prop.speed, GST_FORMAT_TIME,
+                             GST_SEEK_FLAG_FLUSH, GST_SEEK_TYPE_SET, 0,
+                             GST_SEEK_TYPE_SET, value);
+  if (unlikely (!done))
     TRACE ("seek failed");
 
   ret = gst_element_get_state (_playbin, &curr, &pending,
-- 
2.43.0

