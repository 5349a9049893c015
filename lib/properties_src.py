import json
P=[]
def p(id,title,st,over,qt,why,files,mech,obs,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook)))
N='lager/detail/nodes.hpp'
p('C01','Transactional writes stay invisible until commit, then all become visible',
  "Writes made through any cursor of a transactional state change neither get() nor the watchers of that state, or of any reader or cursor derived from it before the writes, until commit() is called on the state. After that commit, the state shows the result of applying all those writes in the order in which they were made, and every derived reader shows the corresponding value. Committing one state never publishes the pending writes of another state to readers that depend only on that other state.",
  ['histories','programs'],"all interleavings of writes (set and update, through the state and through cursors derived from it) and commits over several states, on every cursor graph up to the bound",
  "the tests use one or two writes and one commit on fixed graphs; the guarantee quantifies over write/commit interleavings and graph shapes",
  [N,'lager/state.hpp','lager/commit.hpp','lager/reader.hpp'],
  [('current/last value pair: writes touch current, get() reads last',N+' reader_node'),('send_up of a transactional state only pushes the value','lager/state.hpp state_node::send_up'),('commit: send_down then notify','lager/commit.hpp')],
  ['reader::get()','watch callbacks','lager::commit()'],
  [dict(name='current_',meaning='latest, possibly uncommitted value',where=N),dict(name='last_',meaning='last committed value',where=N),dict(name='needs_send_down_',meaning='there is an uncommitted change',where=N)])
p('C02','A derived reader always shows its function of the committed source values',
  "Outside of commits, the value of every reader built with map, zoom, with or operator[] over states, sensors and constants equals its function applied to the last committed values of its sources, whatever the shape of the graph: chains, several sources, one source reached through several paths, and zooming or mapping over several readers. The same holds for a reader no matter if it was created before or after the commits that produced these values.",
  ['programs','histories'],"every graph of derived readers up to the bound, every history of writes, commits and graph extensions",
  "tests check a handful of fixed graphs with a couple of values; diamonds and late-created readers combine without bound",
  [N,'lager/detail/lens_nodes.hpp','lager/detail/merge_nodes.hpp','lager/detail/xform_nodes.hpp','lager/with.hpp'],
  [('recompute from the parents\' values',N+' send_down'),('depth first propagation to children',N+' reader_node::send_down')],['reader::get()'])
p('C03','Each commit notifies every changed reader exactly once and no other',
  "When a commit changes the visible value of a reader, every callback watching it is called exactly once, with the new value; callbacks of readers whose value none of the writes since the previous commit changed are not called, and a commit without preceding changes calls nobody. A reader that changed only transiently (its source was written forth and back, or it reaches one source through two paths) may be notified with its unchanged value, at most once. When a callback leaves further writes pending on the sources of the reader that is being notified, the callbacks of that reader that were not called yet may be called with the next commit instead.",
  ['histories','programs'],"every history of writes and commits on every graph up to the bound, with watchers on every reader",
  "tests count notifications in single-step scenarios; missing or repeated notifications appear after specific sequences of writes, partial commits and value repetitions",
  [N,'lager/detail/signal.hpp','lager/watch.hpp'],[('needs_notify_ flag set by propagation, cleared by notification',N+' reader_node::notify'),('change detection by comparison',N+' has_changed')],['watch callbacks'],
  [dict(name='needs_notify_',meaning='value was propagated but watchers were not told yet',where=N)])
p('C04','Watchers see a consistent world: all values settle before any callback runs',
  "When commit() is called with one or several states or sensors, the committed values reach all derived readers before any watcher is called: a callback that reads any other reader sees the value after the whole commit, never a mixture of old and new values. This holds as well for the notifications of automatic states and stores.",
  ['programs','histories'],"every graph up to the bound, every set of roots committed together, every pair (watched reader, reader read from the callback)",
  "tests read other readers from a callback in one diamond; the property needs all pairs on all graphs",
  [N,'lager/commit.hpp'],[('two phases: send_down for all roots, then notify for all roots','lager/commit.hpp commit')],['reader::get() inside watch callbacks'])
p('C05','Writes through cursors are never lost: siblings, read-modify-write, multi-parent',
  "Writing through a cursor changes exactly the part of the source values it focuses on, starting from all the writes made before it, whether these are committed or pending and whichever cursor they were made through. In particular update(fn) passes to fn the value that results from all previous writes, and writes through cursors over several sources (with(a, b)) reach every one of these sources.",
  ['histories','programs'],"all sequences of set/update through all cursors of every graph up to the bound, with commits in between at any place",
  "tests write once or twice through one or two cursors between commits; lost updates need specific write orders through different cursors of the same source",
  ['lager/writer.hpp','lager/detail/lens_nodes.hpp','lager/detail/xform_nodes.hpp','lager/detail/merge_nodes.hpp',N,'lager/with.hpp'],
  [('refresh from the parents before setting the part','lager/detail/lens_nodes.hpp send_up'),('push_up distributes to all parents',N+' inner_node::push_up')],['writer::set()','writer::update()','reader::get() after commit'])
p('C06','Automatic states publish every write immediately, also reentrant ones',
  "A write to an automatic state is visible in all its derived readers and has been notified to all their watchers when set() or update() returns, without commit. When watchers write in turn (to the same or to other automatic states), then after the outermost write returns all readers are consistent with the final values of the states and the last value that every watcher was called with is the current value of its reader.",
  ['histories','programs'],"all histories of writes to automatic states with watchers that write reentrantly up to the bound",
  "tests do one reentrant write; which watcher sees what depends on the order of nested notifications",
  ['lager/state.hpp',N],[('send_up propagates and notifies for automatic states','lager/state.hpp state_node::send_up'),('notification flag cleared before calling watchers',N+' notify')],['reader::get()','watch callbacks'])
p('C07','A watcher lives exactly as long as the reader object it was registered on',
  "Callbacks registered on a reader object are called for every change of the value it is bound to, in registration order, until the object is destroyed or unbound; copies of the object do not carry the callbacks. Assigning to a reader object keeps its callbacks and rebinds them to the newly assigned value, also when the object was empty or unbound before; bind() calls the callback at once with the current value and nudge() calls the callbacks of that object, and only these, with the current value. Reading or writing through an object that was never bound throws.",
  ['histories'],"all histories of watch, bind, nudge, unbind, copy, move, assignment and destruction over several reader objects and sources, interleaved with changes",
  "tests cover single operations; wrong unlinking shows only after sequences such as unbind, watch, assign",
  ['lager/watch.hpp','lager/detail/signal.hpp'],[('reader object is an intrusive slot of the node signal, forwarding to its own connections','lager/watch.hpp watchable_base')],['watch callbacks'])
p('C08','Changing the cursor graph from inside a watcher is safe and loses nothing',
  "A watcher may create new readers and watchers, destroy or reassign readers other than the one being notified, write and commit, while a notification is in progress. Every other watcher whose reader changed and still exists is nevertheless called, no watcher of a destroyed reader is called, readers created meanwhile show the current value, and later commits reach all the readers that exist, old and new.",
  ['histories','programs'],"all callback programs (create, watch, drop, reassign, write, commit) up to the bound at every watcher of every small graph",
  "two regression tests exist for two specific shapes; the container mutations during iteration depend on position and nesting",
  [N,'lager/detail/signal.hpp'],[('index based iteration and deferred collection of expired children',N+' reader_node::notify'),('notifying guard for nested notification',N+' notifying_guard_t')],['watch callbacks','reader::get()'])
p('C09','Composed cursor expressions behave like their step-by-step counterparts',
  "A chain of zoom, map, filter, xform and operator[] steps applied to one or several cursors yields the same values, the same notifications and, where it is writable, the same effect of writes, no matter which of its intermediate expressions are turned into actual cursors or readers and which are left as temporary expressions. This is for chains whose filters, if any, have passed a value when they are built.",
  ['programs','histories'],"all step chains up to the bound, all choices of materialised intermediate steps, all write/commit histories up to the bound",
  "tests compare a few chains by hand; the composition code differs for each pair of step kinds, for one and for several parents and for readers and cursors",
  ['lager/with.hpp','lager/reader.hpp','lager/writer.hpp','lager/cursor.hpp'],[('fusing of lenses and transducers in temporary expressions','lager/with.hpp with_*_expr')],['reader::get()','writer::set()','watch callbacks'])
p('C10','A filtered reader holds the last value that passed the filter',
  "A reader that filters its source shows the image of the most recent committed source value that passed the filter, and its watchers are called only when that value changes. If no value has passed yet it shows a default constructed value or, when the type has no default, its construction throws no_value_error.",
  ['histories','inputs'],"all histories of source values, filter positions in the transducer chain and later derivations from the filtered reader, up to the bound",
  "tests feed two or three values; sticky values depend on the whole history",
  ['lager/detail/xform_nodes.hpp','lager/detail/no_value.hpp','lager/with.hpp'],[('transducer step pushes only passing values','lager/detail/xform_nodes.hpp recompute'),('initial value from the transducer or default','lager/detail/xform_nodes.hpp initial_value')],['reader::get()','watch callbacks'])
p('C11','Sensors are re-evaluated by each commit and only then; constants never change',
  "The value of a sensor, and of everything derived from it, is the result that its function had when the sensor was created or last committed, and it is evaluated exactly once per commit of that sensor, notifying if and only if the result changed. A constant keeps its value forever and can be combined with other readers like any other source.",
  ['histories'],"all interleavings of changes of the environment and commits of any subset of the roots",
  "tests commit a sensor once or twice in isolation",
  ['lager/sensor.hpp','lager/constant.hpp',N],[('recompute evaluates the function','lager/sensor.hpp sensor_node::recompute')],['reader::get()','watch callbacks','calls of the sensor function'])
p('C12','Cursors with a setter forward each write once and follow their source',
  "Every write through a cursor made with setter(), or through cursors derived from it, calls the setter function exactly once with the complete written value. An automatic setter cursor shows the written value, and has notified it, as soon as the write returns; a transactional one goes on showing the last committed value of its source; and both show every later change of their source once it is committed.",
  ['histories','programs'],"all interleavings of writes through setter cursors and their derivations, source changes and commits, for setters that store, transform or drop the value",
  "tests write once; the interplay of the optimistic value with later source changes is a sequence property",
  ['lager/setter.hpp','lager/reader.hpp'],[('optimistic value and recompute suppression','lager/setter.hpp setter_node')],['setter function calls','reader::get()','watch callbacks'])
p('C13','The store applies every dispatched action exactly once, in order, one at a time',
  "The model of a store is the left fold of the reducer over all the actions dispatched so far and processed by the event loop, in the order in which they were posted to the loop, including actions dispatched by effects, watchers and continuations. Reducers, effects and watchers never run inside a dispatch() call that happens while the loop is already processing something, and no reducer call starts before the previous one has finished.",
  ['histories','programs','schedules'],"all programs of actions whose reducers and effects dispatch further actions, on every event loop, up to the bound",
  "tests dispatch a few actions without nesting on one loop at a time",
  ['lager/store.hpp','lager/context.hpp'],[('dispatch posts the reduction to the loop','lager/store.hpp store_node::dispatch')],['reducer calls','store::get()','effect calls'])
p('C14','Each effect runs exactly once, after its reduction is applied and published',
  "An effect returned by the reducer runs exactly once, in the event loop, after the model returned along with it has been applied; on automatic stores the effect and everything it calls observe the store with that model or a later one, and its watchers have been called. Effects run in the order of their reductions; an effect that is empty (null) counts as none, also inside of sequences and when converted. An effect made with sequence(a, b, ...) runs its parts in that order, each one starting after the future returned by the previous one completes.",
  ['histories','programs'],"all programs of actions with (nested, sequenced, future-returning) effects up to the bound",
  "tests look at one effect at a time; the ordering between reductions, notifications, effects and continuations is a schedule property",
  ['lager/store.hpp','lager/effect.hpp'],[('the effect is posted separately after reduction','lager/store.hpp dispatch'),('sequence chains through future::then','lager/effect.hpp sequence')],['effect calls','store::get() inside effects','watch callbacks'])
p('C15','Stores publish automatically or, if transactional, only at commit',
  "An automatic store makes the model of each action visible to get(), derived readers and watchers after that action is reduced and before its effect and continuation run, in order and without skipping a notification for the last change; when the loop is drained everything shows the final model. A transactional store shows nothing of the reduced actions before lager::commit() is called on it, and then exactly the model after all of them, notifying each changed reader once.",
  ['histories','programs'],"all interleavings of dispatches, loop steps and commits up to the bound, for both kinds of stores",
  "tests use one kind with one or two actions",
  ['lager/store.hpp','lager/commit.hpp'],[('posted send_down/notify for automatic stores','lager/store.hpp dispatch')],['store::get()','watch callbacks','derived readers'])
p('C16','Futures complete exactly once, in the event loop, after all they depend on',
  "With with_futures, the future of a dispatch() completes exactly once, after its action is reduced, its model published and its effect, along with the future that the effect returns, has completed. Callbacks given to then() run exactly once and only from the event loop, never inside then() or the completion itself; then() futures complete after the future returned by the callback, also() futures after both, and the outcome does not depend on whether then() is called before, during or after the completion, from any thread.",
  ['schedules','histories','programs'],"all interleavings of then/also/completion operations and loop steps up to the bound, including completion and then() racing on two threads",
  "tests build two or three chains in one order, in one thread",
  ['lager/future.hpp','lager/store.hpp','lager/effect.hpp'],[('promise state: done flag, callback and poster under a mutex','lager/future.hpp promise, future::then')],['continuation calls'],
  [dict(name='done/callback',meaning='whether the promise is fulfilled; pending continuation',where='lager/future.hpp promise_state')])
p('C17','Narrowed and converted contexts deliver every action unchanged to the store',
  "An action dispatched through a context obtained by restricting or converting another context (fewer action types, nested variants, several hops, an explicit converter function) reaches the store exactly once as the alternative it converts to, with its contents intact and with each converter applied exactly once, in the same order as the dispatch calls. Such contexts share the event loop of the original one.",
  ['programs','inputs'],"all chains of narrowings/conversions up to the bound, all action alternatives and payloads, all dispatch orders up to the bound",
  "tests convert once, with one alternative",
  ['lager/context.hpp','lager/effect.hpp'],[('dispatcher conversion picks the convertible alternative','lager/context.hpp dispatcher')],['reducer calls','event loop calls'])
p('C18','Dependencies are looked up by key and later providers win when merging',
  "Converting between deps types and merging them preserves the value (and for references the identity) associated with each key: a required dependency is always present, an optional one is present if and only if it was provided, accessing a missing one throws missing_dependency_error, and function dependencies are evaluated when accessed or when converted to a plain value. When two sources provide the same key the later one wins, and effects see the dependencies given to the store with with_deps.",
  ['programs','inputs'],"all combinations of provider and consumer specifications (value, reference, optional, function, keyed; present or absent) and of merge orders up to the bound",
  "tests cover single conversions; the specification kinds multiply",
  ['lager/deps.hpp','lager/store.hpp'],[('keyed storage maps, union and extraction','lager/deps.hpp deps')],['deps::get()','deps::has()'])
p('C19','Store enhancers compose: each applies exactly once in any order that fits',
  "with_deps, with_futures, with_reducer, with_thunk, the event loops and the debuggers can be composed in any order in which they fit together (those that give a reducer or dependencies that others wrap or need come before with_thunk and the debuggers) and keep the behaviour of the plain store: reducers see every plain action once, the initial model and the dependencies of all enhancers are available, and thunks dispatched to a with_thunk() store are run exactly once with a working context, in order with the plain actions and leaving the model as it was.",
  ['configurations','histories'],"all sublists/orders of enhancers and all dispatch programs up to the bound",
  "tests use each enhancer alone or in one combination",
  ['lager/store.hpp','lager/extra/thunk.hpp','lager/debug/debugger.hpp'],[('enhancers wrap the store creator','lager/store.hpp make_store, with_*')],['reducer calls','effect calls','store::get()'])
p('C20','The manual event loop runs every post once, in order, unnested, despite throws',
  "Functions posted to the manual event loop run exactly once and in the order posted; a post from outside returns after everything has run, while posts made by running functions are run after these finish. If a function throws, the exception reaches the outermost post, the functions not yet run are kept and run, once and in order, by the next post.",
  ['histories','fault_sequences'],"all nesting programs of posts and throws up to the bound",
  "tests throw once in one position",
  ['lager/event_loop/manual.hpp'],[('index into the queue; erase of the consumed prefix on throw','lager/event_loop/manual.hpp post')],['posted functions'])
p('C21','The queue event loop runs posts exactly once in order, resuming after a throw',
  "Nothing posted to a queue event loop runs until step() is called; step() runs everything posted before and during it, once each and in order. If a function throws, step() propagates the exception and the remaining functions are kept for the next step(), again in order and without repeating any.",
  ['histories','fault_sequences'],"all programs of posts, nested posts, throws and steps up to the bound",
  "tests throw once in one position",
  ['lager/event_loop/queue.hpp'],[('index loop and erase on exception','lager/event_loop/queue.hpp step')],['posted functions'])
p('C22','The thread-safe queue loses, duplicates and reorders no post of any thread',
  "Functions posted to the safe queue event loop from any number of threads run exactly once, only in the thread that owns the loop and only during step(), keeping the order of the posts made by each thread. Every function posted before a step() begins has run when that step() returns normally, and exceptions leave all the others queued for later steps.",
  ['schedules','fault_sequences'],"all interleavings of posts from several threads with the critical sections of step(), with throwing functions, up to the bound",
  "tests run one or two threads with one schedule",
  ['lager/event_loop/safe_queue.hpp'],[('mutex protected shared queue swapped into the local one','lager/event_loop/safe_queue.hpp step')],['posted functions'])
p('C23','Event loop adaptors defer every post to the loop, once, in order, on its thread',
  "For the Boost.Asio, Qt, SDL and QML adaptors, post() never runs the function itself: each posted function runs exactly once, in the thread of the underlying loop, in posting order per thread, and async() runs its function exactly once outside of the loop thread where supported. The Boost.Asio loop does not run out of work while an async() function runs, finish() ends the loop, and while the SDL loop is paused it calls neither handlers nor ticks, but keeps running the functions that are posted.",
  ['schedules','histories'],"all programs of (nested) posts from the loop and other threads up to the bound",
  "tests post a couple of functions in each loop",
  ['lager/event_loop/boost_asio.hpp','lager/event_loop/qt.hpp','lager/event_loop/sdl.hpp','lager/event_loop/qml.hpp'],[('forwarding to the native post operation','lager/event_loop/*.hpp post')],['posted functions'])
p('C24','Time travel: history replays the reducer; acting in the past truncates it',
  "With the linear debugger, the visible model is always the one after the first `cursor` recorded actions, each recorded model is the reduction of the previous one with the recorded action, and undo, redo and goto only move the cursor within the bounds of the history. A new action applied at an earlier position discards exactly the later history, and the effect of the action is run once.",
  ['histories'],"all sequences of actions, goto, undo, redo up to the bound",
  "tests exercise one short script",
  ['lager/debug/debugger.hpp'],[('history vector and cursor','lager/debug/debugger.hpp debugger::update')],['store::get()','debugger model','reducer and effect calls'])
p('C25','Paused debuggers queue actions and resume applies them once, in order',
  "While a debugger (linear or tree) is paused, dispatched actions change neither the visible model nor the history and run no effects; on resume all of them are applied exactly once in dispatch order, from the position where the cursor then is, and their effects run once and in order. The event loop is paused and resumed with it.",
  ['histories'],"all sequences of actions, pause, resume, goto, undo up to the bound",
  "tests pause and resume once",
  ['lager/debug/debugger.hpp','lager/debug/tree_debugger.hpp'],[('pending vector accumulated on resume','lager/debug/debugger.hpp update')],['store::get()','debugger model','effect calls','event loop pause/resume'])
p('C26','Tree debugger keeps every branch; the cursor always points at the visible model',
  "With the tree debugger no recorded step is ever discarded or altered by later actions: acting at a position that already has a continuation creates a new branch, and the cursor then points to the new step. The visible model is always the one recorded at the cursor, which is the reduction of its predecessor's model with its action, undo moves to the predecessor and goto moves to any existing step and ignores non-existing ones. The summary accounts for every step of every branch.",
  ['histories'],"all sequences of actions, goto and undo up to the bound",
  "one scripted test with a single branch",
  ['lager/debug/tree_debugger.hpp'],[('recursive append along the cursor','lager/debug/tree_debugger.hpp model::do_append')],['store::get()','debugger model'])
p('C27','The debugger HTTP API mirrors the debugger state and controls it faithfully',
  "GET requests of the debugging server always report the current state of the debugger (size of the history, cursor, paused flag, and the action and model of each step, from the initial model on), POST requests have exactly the effect of the corresponding debugger action, asking for a step that does not exist is an error, going to one changes nothing, clients never see parts of different states in an answer nor an older state than before, and no request returns files from outside of the resources directory.",
  ['histories','inputs'],"all request/dispatch sequences up to the bound, with valid and invalid step numbers and paths",
  "no test starts the server",
  ['lager/debug/http_server.hpp'],[('routes over a snapshot kept by a watcher','lager/debug/http_server.hpp http_debug_server_impl')],['HTTP responses','debugger model'])
p('C28','Lenses obey the lens laws, and composition and type erasure preserve them',
  "For every lens built from attr, at, at_or, element, zip, fan, getset, unbox, the optional and variant lenses and compositions of them: viewing after setting a present part yields that part, setting the viewed part changes nothing, the last of two sets wins, parts outside of the focus are untouched, and over(f) equals setting f of the view. These results are the same for lvalue and rvalue, const and non-const wholes, for type erased lenses and through cursors.",
  ['inputs','programs'],"all lens expressions up to the bound applied to all values of small types, by every access path",
  "tests check single lenses on single values",
  ['lager/lenses.hpp','lager/lens.hpp','lager/lenses/attr.hpp','lager/lenses/tuple.hpp','lager/lenses/at.hpp','lager/lenses/at_or.hpp','lager/lenses/unbox.hpp','lager/lenses/optional.hpp','lager/lenses/variant.hpp'],
  [('van Laarhoven lenses','lager/lenses.hpp view/set/over')],['view()','set()','over()','cursors'])
p('C29','Setting through an absent focus, or setting nothing, leaves the whole unchanged',
  "When a lens has no focus in a value (missing key or index, empty optional, different variant alternative, at any depth of a composition) viewing yields none or the documented default and setting any part returns the whole exactly as it was; setting none through a lens to an optional part of a non-optional whole also leaves it unchanged, in every part. Containers are never grown nor shrunk by index lenses, and no exception escapes.",
  ['inputs','programs'],"all lens expressions with optional parts up to the bound, all small values, all access paths",
  "tests check single-level lenses with trivially copyable parts",
  ['lager/lenses/optional.hpp','lager/lenses/variant.hpp','lager/lenses/at.hpp','lager/lenses/at_or.hpp'],[('guarded getters and setters','lager/lenses/at.hpp at_setter_impl, lager/lenses/optional.hpp opt_impl')],['view()','set()','cursors'])
p('C30','QObject properties built on cursors mirror them and signal every change once',
  "A QObject property declared with the Qt property macros reads the current value of its cursor or reader, writing the property writes the cursor, and its change signal is emitted exactly once for each change of the value, with the new value, also after the cursor is reassigned, and never for writes that change nothing.",
  ['histories'],"all histories of property writes, cursor writes, commits and rebinding up to the bound",
  "there is one test that reads and writes once",
  ['lager/extra/qt.hpp'],[('watch registered in the member initialiser','lager/extra/qt.hpp LAGER_QT_SIGNAL_DETAIL')],['Q_PROPERTY read/write','change signals'])
p('C31','What was saved is loaded as it was, whatever it is loaded into',
  "Loading from an archive (JSON, XML, binary, portable binary), or from the text of to_json(), what was saved there gives a value equal to the one that was saved, for every value of the types that lager adds support for (immer vectors, flex vectors, arrays, boxes, sets and maps, also those keyed by an id of their items, variants by name, tuples, enums, structs declared with LAGER_STRUCT and its variants, LAGER_DERIVE and LAGER_ENUM) and for compositions of them; and this whatever the value was that is loaded into: it is replaced, not merged, and others that shared contents with it do not change. Equality and hashes derived by the macros agree with equality of the members.",
  ['inputs','histories'],"all histories of assigning, copying, saving several values into one archive, loading them into places that hold other values, reading again, for 28 types and all their small values, up to the bound",
  "tests round-trip one value per type into a fresh object, in JSON",
  ['lager/extra/cereal/immer_vector.hpp','lager/extra/cereal/immer_flex_vector.hpp','lager/extra/cereal/immer_array.hpp','lager/extra/cereal/immer_box.hpp','lager/extra/cereal/immer_map.hpp','lager/extra/cereal/immer_set.hpp','lager/extra/cereal/variant_with_name.hpp','lager/extra/cereal/tuple.hpp','lager/extra/cereal/struct.hpp','lager/extra/cereal/enum.hpp','lager/extra/cereal/json.hpp','lager/extra/enum.hpp','lager/extra/derive/eq.hpp','lager/extra/derive/cereal.hpp','lager/extra/derive/hash.hpp'],[('cereal load/save pairs','lager/extra/cereal/*.hpp'),('member-wise comparison and traversal','lager/extra/derive/*.hpp')],['cereal archives','to_json()/from_json()','operator=='])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
for x in P:
    n=x['statement'].count('. ')+1
    if n>3: print(x['id'],n)
