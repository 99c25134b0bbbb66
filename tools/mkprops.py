import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=(),obs=()):
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},
     "why_tests_cant":why,"anchors":{"files":files,"state":[dict(zip(("name","meaning","where"),s)) for s in state],
     "mechanism":[dict(zip(("name","where"),m)) for m in mech],"observe_at":list(obs),"hook_needed":None}})
SCH=["programs","schedules","histories"]
p("C01","Every event obeys the three-state event machine",
 "Every event of every object is sleeping, occurring or paused. A start is accepted only from sleeping or paused, a pause only from occurring, a resume only from paused, a stop or abort only from occurring or paused; an accepted transition leads to occurring, paused, occurring, sleeping and sleeping respectively, and a refused one reports failure and leaves the event in the state it was in.",
 SCH,"all object and event kinds, all sequences of transitions requested directly, by links, ticks or keys",
 "Tests try each transition once from a hand-made state on lone objects; they do not interleave transitions on areas, properties, selections, contexts and switches of one document.",
 ["lib/Event.cpp","lib/Object.cpp","lib/Context.cpp","lib/Media.cpp","lib/Switch.cpp"],
 [("transition guard and roll-back","Event::transition"),("per-object hooks","*::beforeTransition / *::afterTransition")],
 [("event state","sleeping/occurring/paused","Event::_state")],["Event::getState after every public call","result of each requested transition"])
p("C02","A link fires exactly when its condition and guard hold",
 "When an event transition takes place, every link of the occurring context that contains the object, of the object itself if it is a context, of each occurring context that holds a reference to it, and of the occurring context around its own if a port of its own exposes the object, fires, once, if it has a condition on that event and transition whose guard is absent or true. No action of any other link is executed, and a transition that is refused fires nothing.",
 SCH,"all documents (nesting, guards, ports, refers, several conditions per link), all schedules of ticks, keys and actions",
 "Tests check a few fixed links; which links must stay silent, and guards that depend on the property values at that instant, are not sampled.",
 ["lib/Document.cpp","lib/Context.cpp"],[("link lookup","Document::evalActionInContext"),("propagation to parent, grandparent, self and alias contexts","Document::evalAction"),("guards","Document::evalPredicate")],
 [("links","conditions and actions of each context","Context::_links")],["per-event sequence of accepted transitions during each public call"])
p("C03","Fired actions run to quiescence, in order, as one reaction",
 "The actions of a fired link that have no delay are all executed before the call that triggered them returns, in document order, each one together with everything it causes before the next one starts; when several links fire, the later link's actions run first. The reported number of actions is the number of transitions that were accepted in that chain (not counting those mirrored on switch interfaces).",
 SCH,"all link sets, including cascades where an action enables, disables or re-values what a later action depends on",
 "The order matters only in cascades with shared targets or guards; the tests have at most one action chain with independent targets.",
 ["lib/Document.cpp"],[("action stack","Document::evalAction"),("reverse push","Document::evalActionInContext")],[],["final event states and property values","return value of evalAction"])
p("C04","Delayed actions run once, on time, and only while their context lives",
 "An action with a delay is executed exactly once, at the first tick at which the occurring time of the link's context has advanced by at least the delay since the link fired, carrying its value and duration. Time during which the context is paused does not count, and stopping or aborting the context discards it.",
 SCH,"all delays, tick sizes, pause/resume and stop/restart histories, delays given through property references",
 "No test uses a delayed action across a pause, stop or restart, or ticks larger than the delay.",
 ["lib/Object.cpp","lib/Document.cpp","lib/Context.cpp"],[("delayed list","Object::addDelayedAction, Object::sendTick"),("discard","Object::doStop")],[("delayed actions","pending actions with due time","Object::_delayed")],["event transitions per tick"])
p("C05","Stopping, aborting, pausing or resuming a context reaches everything inside",
 "After a context is stopped or aborted, every event of every object nested in it at any depth is sleeping; after it is paused no object nested in it is occurring; after it is resumed, its paused children occur again (unless links fired by this act on them). An object never stays active inside a context that is sleeping; components of a sleeping switch that are started by themselves are not meant here.",
 SCH,"all nesting shapes, all histories of starts, stops, pauses, resumes and aborts at any level",
 "Tests nest at most one level and apply one transition to a freshly started context.",
 ["lib/Context.cpp","lib/Object.cpp","lib/Media.cpp","lib/Switch.cpp"],[("propagation to children","Context::beforeTransition, Switch::beforeTransition"),("reset","Object::doStop")],[],["event states of all descendants"])
p("C06","A context, and the document, ends exactly when its last child ends",
 "At a tick of an occurring context in which none of its children is occurring or paused, the context stops (firing its links); the body does so when nothing but the settings object is left. A context with an active child never stops by itself, and the presentation as a whole ends, exactly once, after the body has stopped.",
 SCH,"all documents and histories, including children restarted, paused, resumed, aborted, or started while their context sleeps",
 "The awake-children count is only exercised by straight start/stop sequences; a miscount appears after repeated or refused transitions.",
 ["lib/Context.cpp","lib/Object.cpp","lib/Formatter.cpp"],[("awake children count","Context::incAwakeChildren/decAwakeChildren via Object::doStart/doStop"),("check","Context::sendTick"),("EOS","_GINGA_CHECK_EOS in Formatter")],[("awake count","number of non-sleeping children","Context::_awakeChildren")],["lambda state of contexts after each tick","formatter state"])
p("C07","Starting a context starts its ports, and only them",
 "When a context is started, the presentation interfaces its ports map to are started at its next tick, in port order, and no other child is. When a child that is started directly brings its sleeping context up, the context and all enclosing contexts start but their ports do not; a later ordinary start of the same context starts the ports again.",
 SCH,"all nesting depths, ports onto media, areas, contexts and switches, any order of implicit and explicit starts",
 "Tests start each context once; the memory of an earlier implicit start shows only on a second start.",
 ["lib/Context.cpp","lib/Media.cpp"],[("port scheduling","Context::afterTransition"),("implicit start flag","fromport parameter")],[],["event states after start and after the next tick"])
p("C08","A switch presents the first component whose rule holds",
 "Starting a switch starts exactly one component: the first, in order, that the started interface offers and whose rule is true for the property values at that moment, or the default if none is; if no component qualifies the start is refused and nothing starts.",
 SCH,"all rule sets, values of the settings at the moment of the start, starts through the switch itself or one of its interfaces, restarts after values changed",
 "Tests have one switch with one start and constant values.",
 ["lib/Switch.cpp","lib/Document.cpp"],[("selection","Switch::beforeTransition"),("rule evaluation","Document::evalPredicate")],[("selected","component in use","Switch::_selected")],["event states"])
p("C09","A switch follows its selected component through its whole life",
 "While a switch is active its selected component, and no other, is driven by the pause, resume, stop and abort of the switch, however often they alternate, and a switch whose selected component has ended ends too. Transitions of an interface of the selected component are mirrored on the switch interfaces that map to it, and starting an active switch again never makes it lose or replace its component.",
 SCH,"all histories of transitions of switch, interfaces and components",
 "Tests perform a single transition after the start; forgetting the selection shows only in the next one.",
 ["lib/Switch.cpp","lib/Document.cpp"],[("delegation","Switch::beforeTransition"),("mirroring","Document::evalAction, switch branch")],[],["event states of switch, interfaces and components"])
p("C10","Areas begin and end at their instants of the media's own time",
 "While a media object is occurring, each of its areas starts at the first tick at which the media's time reaches the area's begin and ends at the first tick at which it reaches its end, unless it was started or ended otherwise; pausing the media pauses its active areas and resuming resumes them. Starting a media through an area starts the media at that point, and ending the media ends all its areas.",
 SCH,"all sets of areas (overlapping, zero-length, open-ended), tick sizes, pause/resume histories, starts from an area",
 "Tests use non-overlapping areas with one tick size and never pause between begin and end.",
 ["lib/Media.cpp","lib/Object.cpp"],[("scheduling","Media::afterTransition"),("start from area","Media::beforeTransition")],[],["event states per tick"])
p("C11","Time of an object advances only while it occurs; durations are honoured",
 "The time of an object is undefined while it sleeps, is zero when it starts, and grows by exactly the tick's amount at each tick during which it is occurring; it stands still while paused. A media object whose duration is defined ends at the first tick at which its time exceeds it, and not before.",
 SCH,"all tick sequences, pause/resume/restart histories, durations set before or while occurring",
 "Tests tick uninterrupted presentations.",
 ["lib/Object.cpp","lib/Media.cpp","lib/Player.cpp"],[("time","Object::sendTick, Object::doStart, Object::doStop"),("end of stream","Media::sendTick")],[("time","presentation time","Object::_time")],["Object::getTime after every call"])
p("C12","Attributions assign the value meant, at the time meant",
 "A property attribution that is accepted makes the property hold the given value, or the current value of the property that the value refers to, from that call on. The attribution event occurs until its duration has elapsed and then ends by itself, and meanwhile further sets of that property are refused; of a sleeping object, it ends by the time of the innermost context around it that is awake. Properties not assigned keep their values.",
 SCH,"all values, references (also through aliases, to missing objects), durations, objects sleeping or active",
 "Tests assign constants to one occurring object.",
 ["lib/Media.cpp","lib/Context.cpp","lib/Document.cpp","lib/Object.cpp"],[("assignment","Media::afterTransition, Context::afterTransition"),("references","Document::evalPropertyRef")],[],["Object::getProperty for all known properties after every call"])
p("C13","A referring media is the media it refers to",
 "A media element that refers to another denotes that same object: its properties and areas are added to it, its interfaces can be used in links, ports and references wherever either id is visible, and a transition of the object fires the links of every context that holds a reference to it. No second object is created, and the object has one state.",
 ["programs","schedules"],"all placements of references (other contexts, switches, forward, several), all schedules",
 "Tests have one refer in the same context.",
 ["lib/Parser.cpp","lib/Object.cpp","lib/Document.cpp"],[("aliases","Object::addAlias"),("resolution","ParserState::pushMedia, Document::getObjectByIdOrAlias")],[],["document projection after parsing","event states"])
p("C14","Keys select exactly the matching objects",
 "A pressed key starts, and a released key stops, the selection event of every active media object that waits for that key, and, for ENTER, of those without a key that have the focus; no other selection event changes. Sleeping objects do not react.",
 SCH,"all key sequences (press and release in any order, repeated), key names given directly or as link parameters, all focus assignments",
 "Tests press one key on one object.",
 ["lib/Media.cpp","lib/Formatter.cpp","lib/Parser.cpp"],[("key dispatch","Formatter::sendKey, Media::sendKey"),("key of the event","ParserState::popLink")],[],["selection event states after each key"])
p("C15","Exactly the object that holds the focus index is focused",
 "An active object is focused iff its focus index is not empty and equals the current focus kept by the settings; when an object with a focus index starts, the focus goes at the settings' next tick to the smallest focus index among the occurring objects, and a cursor key moves it to the index the focused object names for that direction. Setting the settings' current-focus property moves the focus at once.",
 SCH,"all focus graphs, key sequences, starts and stops of focusable objects, assignments of the focus property",
 "Tests have fixed, well-formed focus chains.",
 ["lib/MediaSettings.cpp","lib/Media.cpp","lib/Player.cpp","lib/Object.cpp"],[("focus update","MediaSettings::updateCurrentFocus, scheduleFocusUpdate"),("navigation","Media::sendKey")],[("current focus","index value","Player::_currentFocus")],["Media::isFocused, Player::getCurrentFocus"])
p("C16","The player interface follows its start/stop protocol",
 "Starting succeeds only when stopped and only if the document is accepted, and leaves it playing; stopping succeeds only when playing. Ticks and keys are accepted only while playing, the first one after the presentation ended is refused and stops it, and after a stop or a failed start a new start presents the document afresh, exactly as the first time.",
 ["histories","schedules"],"all sequences of start, stop, tick, key, resize and redraw, good and bad documents",
 "Tests call each function in the expected order only.",
 ["lib/Formatter.cpp"],[("protocol","Formatter::start/stop/sendKey/sendTick"),("EOS","_GINGA_CHECK_EOS")],[("state","stopped/playing","Formatter::_state")],["return values, getState"])
p("C17","No accepted document can crash or hang the presenter",
 "For every document the parser accepts whose property values are well-formed and whose media contents exist, and every sequence of ticks, key presses and actions on its events, every call returns normally: no abort, no memory fault, and, when the links have no causal loop, no unbounded reaction.",
 SCH,"all accepted documents and schedules",
 "Crashes need particular combinations of transitions and object kinds.",
 ["lib/Document.cpp","lib/Context.cpp","lib/Media.cpp","lib/Switch.cpp","lib/MediaSettings.cpp","lib/Formatter.cpp"],[("assertions","g_assert in *::beforeTransition/afterTransition")],[],["exit status of every run"])
p("C18","The parser gives a verdict on every input, and the right one",
 "For every XML text the parser returns either a document or an error message, and never crashes. It accepts a document exactly if its elements are nested as the language allows, mandatory attributes are present, non-empty, well-formed and unique where required, no unknown attribute or element occurs, and every reference resolves.",
 ["inputs","programs"],"all documents over the language's elements and attributes, and all single defects of a valid document",
 "Tests have about a hundred fixed documents, mostly with one defect of each sort in one place.",
 ["lib/Parser.cpp"],[("syntax table","parser_syntax_table"),("checks","ParserState::checkNode and the push/pop functions")],[],["result and message of Parser::parseBuffer"])
p("C19","Links are resolved to what their connector and binds say",
 "In an accepted document every link becomes exactly one link of its context whose conditions and actions are those of its connector, in order, each on the event of the component and interface that the bind of that role names; key, value, delay, duration and tests take the bind's parameter, else the link's. A link with an unbound role, an interface of the wrong kind or an unresolvable component is rejected.",
 ["programs","inputs"],"all connectors (compound conditions and actions, tests, all event types), binds and parameters",
 "Tests contain some twenty links of fixed shape.",
 ["lib/Parser.cpp"],[("connector","popCausalConnector and friends"),("binding","ParserState::popLink, resolveInterface, resolveComponent")],[],["document projection after parsing"])
p("C20","The document holds exactly the objects, interfaces and ports written",
 "An accepted document contains one object per body, context, switch and non-referring media, nested as written, with the areas (instants, labels), properties, ports and their targets written, and nothing else. Descriptor and region attributes become properties of the media that use them, the media's own properties taking precedence.",
 ["programs","inputs"],"all structures, nested regions with absolute and relative sizes, descriptors, areas, ports through nested contexts",
 "Tests compare a few small documents.",
 ["lib/Parser.cpp"],[("structure","pushContext, pushMedia, pushArea, pushPort, pushProperty"),("layout","pushRegion, popNcl")],[],["document projection after parsing"])
p("C21","A predicate has the truth value its formula has",
 "A predicate (rule or link guard) evaluates to the classical truth value of its formula: comparisons compare the current values of the referenced properties, or the literals, as strings; negation, conjunction and disjunction have their usual meaning, with the empty conjunction true and the empty disjunction false.",
 ["inputs","histories"],"all formulas over comparisons and connectives, all property values",
 "Tests evaluate a few formulas; negation is never evaluated.",
 ["lib/Document.cpp","lib/Predicate.cpp"],[("evaluation","Document::evalPredicate"),("references","Document::evalPropertyRef")],[],["Document::evalPredicate"])
p("C22","Switch rules and switch interfaces are resolved as written",
 "In an accepted document each switch has its bound components in bind order with the condition of the named rule (compared with the settings' variable), then its default, and each switch interface maps to the interfaces of the components it names; a bind to a missing rule or component is rejected.",
 ["programs","inputs"],"all rule bases with nested composite rules, bind lists, defaults, switch interfaces",
 "Tests have one or two switches of fixed shape.",
 ["lib/Parser.cpp"],[("rules","pushRule, pushCompositeRule, bindRule handling, popNcl"),("interfaces","pushSwitchPort, pushMapping")],[],["document projection after parsing"])
p("C23","Imported bases mean what they mean in their own file",
 "An element of an imported base is available under alias#id, in any depth of import, with the same meaning as a local element, and does not collide with local ids. A missing, ill-formed or circularly imported file makes the parse fail with a message.",
 ["programs","inputs"],"all import graphs of connector, descriptor, region, rule and transition bases",
 "Tests import one connector base.",
 ["lib/Parser.cpp"],[("import","ParserState::pushImportBase"),("aliases","alias stack")],[],["document projection after parsing, error message"])
p("C24","A Lua-table document means what its tables say",
 "A document given as a Lua table is turned into exactly the contexts, media, switches, ports, properties, areas and links its tables describe, with ids resolved in their context; a table that is not a valid document gives an error and never a crash.",
 ["programs","inputs"],"all tables of the documented shape and tables with one defect",
 "Tests have four fixed tables.",
 ["lib/ParserLua.cpp"],[("conversion","ParserLuaState / pushTable functions")],[],["document projection after ParserLua::parseBuffer"])
p("C25","Objects are drawn at their geometry, in z-order, and follow resizes",
 "Each active visible media object occupies the rectangle given by its left or right, top or bottom, width and height properties (pixels, or percentages of the current screen; by default the whole screen), also when set together as bounds, location or size, after a property change or a resize. It shows its background there with its transparency, and objects are painted in increasing order of z-index and then z-order, over black.",
 ["programs","histories","configurations"],"all property combinations, screen sizes, resizes and changes at run time",
 "Tests draw one fixed grid.",
 ["lib/Player.cpp","lib/Formatter.cpp","lib/Media.cpp"],[("geometry","Player::doSetProperty"),("order","zcmp, Formatter::redraw"),("resize","Formatter::resize")],[],["pixels of Formatter::redraw"])
p("C26","Animated properties go from the old to the new value in the given time",
 "When left, top, width, height, bounds, location, size, background or transparency of an active media object is set with a duration, the drawn value moves from what was drawn to the target in proportion to the time the object occurs, reaches exactly the target when the duration has elapsed and stays there; the stored property has the target value at once, and other properties are not affected. Setting the property again, or resizing the screen, ends the movement.",
 ["histories","schedules"],"all from/to values, durations, tick sizes, overlapping animations of several properties",
 "No test sets a property with a duration and looks at the drawing.",
 ["lib/PlayerAnimator.cpp","lib/Media.cpp"],[("interpolation","PlayerAnimator::update, schedule")],[],["pixels of Formatter::redraw"])
p("C27","NCLua scripts are told, and can cause, the transitions of their events",
 "A script object is sent the start, pause, resume and stop of its presentation and of each of its labelled areas, the keys it receives while focused, and each property set at once while it runs, once and in order; the transitions it posts are collected when it is next drawn and applied to its own events at the next tick.",
 SCH,"all histories of transitions, keys and posted events",
 "No test drives a script.",
 ["lib/PlayerLua.cpp","lib/Media.cpp"],[("bridge","PlayerLua")],[],["messages at the script boundary (a stand-in library)"])
p("C28","Input transitions reveal an object gradually",
 "A media object whose transIn is a fade is drawn, over what is below it, with an opacity that goes from nothing to its own in proportion to the time it has occurred since it started, and reaches it exactly when the duration of the transition has elapsed; a bar wipe shows in that way a growing part of its rectangle, from left to right or from top to bottom, and leaves everything else in the picture as it is; after any other transition the object is shown as it would be without one. Each start plays the transition again, a pause suspends it, and a change of the transparency replaces a fade.",
 ["programs","histories","schedules"],"all transitions, durations, tick sizes, pauses, restarts and concurrent property changes; objects whose rectangle changes during a wipe are not meant",
 "No test plays a transition.",
 ["lib/PlayerAnimator.cpp","lib/Player.cpp","lib/Parser.cpp"],[("start","Player::start, PlayerAnimator::scheduleTransition"),("progress","PlayerAnimator::update"),("crop","Player::redraw")],[("crop","part not shown yet","Player::_crop")],["pixels of Formatter::redraw"])
p("C29","Images are stretched over their rectangle, over their background",
 "A media object whose type, or else the extension of its source, denotes an image shows that image, whichever its format, stretched over the whole of its rectangle with the transparency of the object, over its background where the image lets it be seen, and in the z-order of the object; it follows changes of geometry, transparency and visibility and resizes, and is loaded again, alike, at each start.",
 ["programs","histories","configurations"],"all geometries, image types, transparencies, histories of starts, property changes (also gradual) and resizes",
 "Tests draw images in one fixed document and do not look at the result.",
 ["lib/PlayerImage.cpp","lib/Player.cpp","lib/Media.cpp"],[("choice of player","Player::createPlayer"),("loading","PlayerImage::reload"),("scaling","Player::redraw")],[],["pixels of Formatter::redraw"])
p("C30","Text is written in its object's rectangle, as aligned and coloured",
 "A media object whose type, or else the extension of its source, denotes plain text shows its words, in its fontColor (else black), where horzAlign (left, center, right) and vertAlign (top, middle, bottom) put them in its current rectangle, over its fontBgColor if it has one, and over its background; the rest of the rectangle shows only the background, and empty text shows nothing. It follows changes of these properties, of its geometry and of the screen, with the transparency and in the z-order of the object. A rectangle may be empty.",
 ["programs","histories","configurations"],"all alignments, colours, fonts, geometries, histories of starts, property changes (also gradual) and resizes",
 "Tests render a text once and do not look at the result.",
 ["lib/PlayerText.cpp","lib/Player.cpp"],[("rendering","PlayerText::renderSurface"),("properties","PlayerText::doSetProperty"),("reloading","Player::redraw")],[("_prop","font and alignment","PlayerText")],["pixels of Formatter::redraw"])
p("C31","The objects that have the focus, and only they, are framed",
 "Of the active visible media objects exactly those whose focusIndex is the current focus are drawn with a frame along the edges of their rectangle, over their contents, in their focusBorderColor (else yellow) and with their focusBorderTransparency; the frame follows the focus, as keys and the settings move it, the rectangle, and changes of these properties.",
 ["programs","histories"],"all histories of keys, focus settings, starts and property changes",
 "No test draws an object that has the focus.",
 ["lib/Player.cpp","lib/Media.cpp","lib/MediaSettings.cpp"],[("frame","Player::redraw"),("focus","Player::isFocused, Player::setCurrentFocus")],[("focus","index of the objects that have it","Player::_currentFocus")],["pixels of Formatter::redraw"])
p("C32","The options of the presenter take effect at once and last",
 "Setting the width or height option has the effect of resizing to that width or height; setting the background option fills the screen below all objects with that colour (with none: black) from the next drawing on. Options can be set at any time, playing or not, keep the value last given, across stops and starts and through resizes, and are read back as set.",
 ["histories","configurations"],"all histories of options, resizes, starts, stops, ends and drawings",
 "Tests set an option once and read it back.",
 ["lib/Formatter.cpp"],[("options","Formatter::setOptionString, setOptionInt and the setOption functions"),("drawing","Formatter::redraw")],[("_opts, _background","values of the options","Formatter")],["pixels of Formatter::redraw","getOptionInt, getOptionString"])
p("C33","Audio, video and signal generators play as their objects and properties say",
 "While an audio, video or signal generator object occurs, one pipeline plays its source, from the beginning of the area it was started through, if any; while the object is paused the pipeline is paused, and when it ends the pipeline is disposed of. Audio and video sound with the soundLevel (volume), mute, balance, bass and treble last set, and a generator emits its wave, freq and volume, with their defaults otherwise and anew at each start. Setting the speed (rate) goes on from the current instant at that speed, backwards if negative; setting the time goes to that instant, or by that much if it begins with + or -, but not before the beginning; both wait for the pipeline to be ready. When the contents end, or a time past their end is reached in this way, the object ends at the next tick, unless its freeze is true. A video is drawn, in its rectangle, with the frame that came last.",
 SCH,"all histories of transitions, property changes, positions, frames and ends of contents, pipelines that get ready at once or later",
 "The tests start audio and video without pipelines, or not at all; none sets a property while one plays, or ends its contents.",
 ["lib/PlayerVideo.cpp","lib/PlayerSigGen.cpp","lib/Player.cpp","lib/Media.cpp"],[("properties","PlayerVideo::doSetProperty, PlayerSigGen::doSetProperty"),("life","PlayerVideo::start, pause, resume, stop"),("frames","PlayerVideo::redraw"),("seeking","PlayerVideo::seek, speed"),("choice of player","Player::createPlayer")],[("_prop","levels, speed and freeze","PlayerVideo"),("_stack_actions","what waits for the pipeline","PlayerVideo")],["states, elements' properties and seeks of the GStreamer pipelines","pixels of Formatter::redraw"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
