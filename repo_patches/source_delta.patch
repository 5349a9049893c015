From 64dc30de1492755e1f11c39d0c54e6c4e3e34318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:18 +0000
Subject: [PATCH 01/22] fix: writer::update() sees earlier writes of the
 ongoing transaction

Writing to a cursor updates its ancestors, but not the written cursor or
its siblings.  Thus calling update() twice on a derived cursor before
commit() computed both updates from the same value and lost the first one.
---
 lager/writer.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lager/writer.hpp b/lager/writer.hpp
index 93dd54e..4330e15 100644
--- a/lager/writer.hpp
+++ b/lager/writer.hpp
@@ -37,7 +37,11 @@ struct writer_mixin
     template <typename Fn>
     void update(Fn&& fn)
     {
-        return node_()->send_up(std::forward<Fn>(fn)(node_()->current()));
+        // Earlier writes in an ongoing transaction do not reach this node by
+        // themselves, so fetch the current value from the parents first.
+        auto node = node_();
+        node->refresh();
+        return node->send_up(std::forward<Fn>(fn)(node->current()));
     }
 
     template <typename T>
-- 
2.43.0


From 1e970fa7b5065d95ae2d11ee1afed02d5f8c9dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:34 +0000
Subject: [PATCH 02/22] fix: setting no value through optional and variant
 lenses keeps the whole

The lenses moved the part out of rvalue wholes when viewing them, and then
returned that same, moved-from, whole when there was no value to set. Since
cursors pass rvalues, setting nullopt through such a cursor erased the part.
---
 lager/lenses/optional.hpp | 7 +++++--
 lager/lenses/variant.hpp  | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/lager/lenses/optional.hpp b/lager/lenses/optional.hpp
index fda878f..9c02cb6 100644
--- a/lager/lenses/optional.hpp
+++ b/lager/lenses/optional.hpp
@@ -26,7 +26,10 @@ auto opt_impl(Lens&& lens)
                 std::declval<std::decay_t<decltype(whole.value())>>()))>>::type;
 
             if (whole.has_value()) {
-                return f(Part{::lager::view(lens, LAGER_FWD(whole).value())})(
+                // view a const whole: when there is no part to set, the whole
+                // is returned, so the part can not be moved out of it
+                return f(Part{
+                    ::lager::view(lens, std::as_const(whole).value())})(
                     [&](Part part) {
                         if (part.has_value()) {
                             return std::decay_t<decltype(whole)>{
@@ -150,7 +153,7 @@ ZUG_INLINE_CONSTEXPR auto force_opt = zug::comp([](auto&& f) {
     return [f = LAGER_FWD(f)](auto&& p) {
         using opt_t = std::optional<std::decay_t<decltype(p)>>;
         auto opt    = opt_t{LAGER_FWD(p)};
-        return f(std::move(opt))([&](auto&& x) -> decltype(auto) {
+        return f(opt_t{opt})([&](auto&& x) -> decltype(auto) {
             if constexpr (detail::is_optional<std::decay_t<decltype(x)>>::value)
                 return LAGER_FWD(x).value_or(*std::move(opt));
             else
diff --git a/lager/lenses/variant.hpp b/lager/lenses/variant.hpp
index bb1ea57..ff14780 100644
--- a/lager/lenses/variant.hpp
+++ b/lager/lenses/variant.hpp
@@ -24,7 +24,7 @@ struct alternative_t : zug::detail::pipeable
             using Whole = std::decay_t<decltype(p)>;
             return f([&]() -> Part {
                 if (std::holds_alternative<T>(p)) {
-                    return std::get<T>(LAGER_FWD(p));
+                    return std::get<T>(p);
                 } else {
                     return std::nullopt;
                 }
-- 
2.43.0


From 4101c512e07f8a79aa02fcfa7d71f2d7d6b5fa36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:34 +0000
Subject: [PATCH 03/22] fix: tree debugger moves to the new branch when
 branching a step again

The cursor was always set to the first branch of the step, so from the
second branch on, the debugged model was not the one that resulted from the
last action.
---
 lager/debug/tree_debugger.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lager/debug/tree_debugger.hpp b/lager/debug/tree_debugger.hpp
index 4e7f773..7862ac0 100644
--- a/lager/debug/tree_debugger.hpp
+++ b/lager/debug/tree_debugger.hpp
@@ -165,9 +165,10 @@ struct tree_debugger
                                                 {pos.branch, pos.step + 1});
                         return history.push_back(step{act, m, {}});
                     } else {
-                        new_cursor = cursor.push_back({0, 0});
                         return history.update(pos.step, [&](auto node_) {
-                            auto node = *node_;
+                            auto node  = *node_;
+                            new_cursor = cursor.push_back(
+                                {node.branches.size(), 0});
                             node.branches =
                                 node.branches.push_back({step{act, m, {}}});
                             return node;
-- 
2.43.0


From 7f350047238957683e6b28819b22ea943af9d126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:34 +0000
Subject: [PATCH 04/22] fix: allow zooming and transforming lvalue writers

with() tried to take the node from the mixin and not from the writer.
---
 lager/with.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lager/with.hpp b/lager/with.hpp
index c13166d..ec1b819 100644
--- a/lager/with.hpp
+++ b/lager/with.hpp
@@ -451,7 +451,7 @@ template <typename... WriterTs>
 auto with_aux(const writer_mixin<WriterTs>&... ins)
 {
     return detail::make_with_expr<writer_base>(
-        std::make_tuple(access::node(std::move(ins))...));
+        std::make_tuple(access::node(ins.make())...));
 }
 
 template <typename... CursorTs>
-- 
2.43.0


From b7981f215afc36f770642c5366d3c59667186cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:52 +0000
Subject: [PATCH 05/22] fix: readers created during a transaction do not show
 uncommitted values

---
 lager/detail/lens_nodes.hpp  |  2 +-
 lager/detail/merge_nodes.hpp |  2 +-
 lager/detail/nodes.hpp       | 11 +++++++++++
 lager/detail/xform_nodes.hpp |  2 +-
 lager/setter.hpp             |  2 +-
 5 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/lager/detail/lens_nodes.hpp b/lager/detail/lens_nodes.hpp
index 51a791b..d9e919d 100644
--- a/lager/detail/lens_nodes.hpp
+++ b/lager/detail/lens_nodes.hpp
@@ -55,7 +55,7 @@ protected:
 public:
     template <typename Lens2, typename ParentsTuple>
     lens_reader_node(Lens2&& l, ParentsTuple&& parents)
-        : base_t{view(l, current_from(parents)),
+        : base_t{view(l, last_from(parents)),
                  std::forward<ParentsTuple>(parents)}
         , lens_{std::forward<Lens2>(l)}
     {}
diff --git a/lager/detail/merge_nodes.hpp b/lager/detail/merge_nodes.hpp
index 45e2cd4..00ca902 100644
--- a/lager/detail/merge_nodes.hpp
+++ b/lager/detail/merge_nodes.hpp
@@ -46,7 +46,7 @@ public:
 
     template <typename ParentsTuple>
     merge_reader_node(ParentsTuple&& parents)
-        : base_t{current_from(parents), std::forward<ParentsTuple>(parents)}
+        : base_t{last_from(parents), std::forward<ParentsTuple>(parents)}
     {}
 
     void recompute() final { this->push_down(current_from(this->parents())); }
diff --git a/lager/detail/nodes.hpp b/lager/detail/nodes.hpp
index f7dabb9..7959568 100644
--- a/lager/detail/nodes.hpp
+++ b/lager/detail/nodes.hpp
@@ -347,6 +347,17 @@ current_from(const std::tuple<std::shared_ptr<Nodes>...>& parents)
         parents);
 }
 
+/*!
+ * New nodes start from the values that are visible in their parents.  Writes
+ * that were not commited yet reach them when these are sent down.
+ */
+template <typename... Nodes>
+decltype(auto) last_from(const std::tuple<std::shared_ptr<Nodes>...>& parents)
+{
+    return std::apply(
+        [&](auto&&... ptrs) { return zug::tuplify(ptrs->last()...); }, parents);
+}
+
 template <typename Node>
 std::shared_ptr<Node> link_to_parents(std::shared_ptr<Node> n)
 {
diff --git a/lager/detail/xform_nodes.hpp b/lager/detail/xform_nodes.hpp
index 9babe57..93cd915 100644
--- a/lager/detail/xform_nodes.hpp
+++ b/lager/detail/xform_nodes.hpp
@@ -50,7 +50,7 @@ ValueT initial_value(Xform&& xform, const std::tuple<ParentPtrs...>& parents)
     LAGER_TRY {
         return std::apply(
             [&](auto&&... ps) {
-                return xform(zug::last)(detail::no_value{}, ps->current()...);
+                return xform(zug::last)(detail::no_value{}, ps->last()...);
             },
             parents);
     } LAGER_CATCH(const no_value_error&) {
diff --git a/lager/setter.hpp b/lager/setter.hpp
index eec8ec2..0b07bc7 100644
--- a/lager/setter.hpp
+++ b/lager/setter.hpp
@@ -35,7 +35,7 @@ public:
     using value_type = typename ParentT::value_type;
 
     setter_node(std::shared_ptr<ParentT> p, FnT fn)
-        : base_t{p->current()}
+        : base_t{p->last()}
         , parent_{std::move(p)}
         , setter_fn_{std::move(fn)}
     {}
-- 
2.43.0


From 3d76054138b850d4927e99aed5c1713f93b375c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:59 +0000
Subject: [PATCH 06/22] fix: sdl_event_loop::finish() ends a loop that is
 paused or waiting for events

---
 lager/event_loop/sdl.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lager/event_loop/sdl.hpp b/lager/event_loop/sdl.hpp
index 4950468..fa796a8 100644
--- a/lager/event_loop/sdl.hpp
+++ b/lager/event_loop/sdl.hpp
@@ -146,7 +146,7 @@ struct sdl_event_loop
         while (continue_ && !done_) {
             auto event = SDL_Event{};
             while (continue_ && ((!paused_ && SDL_PollEvent(&event)) ||
-                                 (paused_ && SDL_WaitEvent(&event)))) {
+                                 (paused_ && !done_ && SDL_WaitEvent(&event)))) {
                 if (event.type == post_event_type_) {
                     auto fnp = std::unique_ptr<event_fn>{
                         static_cast<event_fn*>(event.user.data1)};
@@ -180,7 +180,12 @@ struct sdl_event_loop
 #endif
     }
 
-    void finish() { done_ = true; }
+    void finish()
+    {
+        done_ = true;
+        // wake up the loop, which may be waiting for events
+        post([] {});
+    }
     void pause() { paused_ = true; }
     void resume() { paused_ = false; }
 
-- 
2.43.0


From eb7477b8d8be5e957d8b83643da4f946ee8ca65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:14 +0000
Subject: [PATCH 07/22] fix: show the initial model in the HTTP debugger before
 the first change

The server kept a default constructed model until the store changed for the
first time, so its API answered with a model that the program never had.
---
 lager/debug/http_server.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lager/debug/http_server.hpp b/lager/debug/http_server.hpp
index cbc4726..517bca2 100644
--- a/lager/debug/http_server.hpp
+++ b/lager/debug/http_server.hpp
@@ -259,6 +259,7 @@ struct http_debug_server_impl
         assert(!server_);
         context_ = std::move(ctx);
         data_    = std::move(data);
+        model_   = data_.get();
 
         auto router = detail::http::router{};
         router
-- 
2.43.0


From 2252d9bbaa6bec6ecab186247de3a06c48102380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:51 +0000
Subject: [PATCH 08/22] fix: do not serve files outside of the resources of the
 HTTP debugger

A target with '..' was appended to the resources directory as it is, so that
anyone who reached the port could read any file.
---
 lager/debug/http_server.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lager/debug/http_server.hpp b/lager/debug/http_server.hpp
index 517bca2..be00661 100644
--- a/lager/debug/http_server.hpp
+++ b/lager/debug/http_server.hpp
@@ -339,6 +339,8 @@ struct http_debug_server_impl
 
             .route(beast::http::verb::get, "/?.*", [this](auto&& req) {
                 auto req_path = static_cast<std::string>(req.target());
+                if (leaves_directory_(req_path))
+                    return create_response_(404, "text/html", "Not found");
                 auto rel_path =
                     req_path == "/" ? "/gui/index.html" : "/gui/" + req_path;
                 auto full_path = resources_path() + rel_path;
@@ -381,6 +383,12 @@ private:
     using req_t = detail::http::router::req_t;
     using res_t = detail::http::router::res_t;
 
+    static bool leaves_directory_(const std::string& path)
+    {
+        static const auto parent = std::regex{R"((^|[/\\])\.\.([/\\]|$))"};
+        return std::regex_search(path, parent);
+    }
+
     static beast::string_view mime_type_(beast::string_view path)
     {
         using beast::iequals;
-- 
2.43.0


From 557c98754d3c1700114d760783eda6cfb92285f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:51 +0000
Subject: [PATCH 09/22] fix: with_thunk() can be used in several translation
 units

The function is defined in a header without being inline: a program that
includes the header in two translation units does not link.
---
 lager/extra/thunk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lager/extra/thunk.hpp b/lager/extra/thunk.hpp
index 8939db7..c3488af 100644
--- a/lager/extra/thunk.hpp
+++ b/lager/extra/thunk.hpp
@@ -30,7 +30,7 @@ namespace lager {
  * Thunks are handled as effects and invoked by the loop with the given
  * context.
  */
-auto with_thunk()
+inline auto with_thunk()
 {
     return [](auto next) {
         return [next](auto action,
-- 
2.43.0


From cd487f5e211e463ca264bb0eab9d9db46a71949b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:43 +0000
Subject: [PATCH 10/22] fix: lazy dependencies convert to plain values

deps<fn<T>> could not be converted to deps<T>: the function stored for fn<T>
returns the storage of val<T>, which none of the overloads of
val<T>::extract() takes (only those of references worked).
---
 lager/deps.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lager/deps.hpp b/lager/deps.hpp
index e247597..13a8f2c 100644
--- a/lager/deps.hpp
+++ b/lager/deps.hpp
@@ -107,6 +107,7 @@ struct val : spec
 
     static storage extract(storage st) { return std::move(st); }
     static storage extract(std::function<T()> st) { return st(); }
+    static storage extract(std::function<storage()> st) { return st(); }
 };
 
 /*!
-- 
2.43.0


From fc2bbaadff5f96e677834a01deee93dd12f84a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:54 +0000
Subject: [PATCH 11/22] fix: references can be given with dep::as()

dep::as<dep::key<K, T&>>(x), as used in the documentation of with_deps(), did
not compile: the name type is ambiguous in spec_value, which derives both from
the specification and from std::reference_wrapper.
---
 lager/deps.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lager/deps.hpp b/lager/deps.hpp
index 13a8f2c..c70a75f 100644
--- a/lager/deps.hpp
+++ b/lager/deps.hpp
@@ -215,6 +215,8 @@ struct spec_value
     : Spec
     , Spec::storage
 {
+    using type = typename Spec::type;
+
     spec_value(typename Spec::storage v)
         : Spec::storage{std::move(v)}
     {}
-- 
2.43.0


From ee1578bda173766f63f69b9045c6fee97c2fe975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:33 +0000
Subject: [PATCH 12/22] fix: getset() does not consume temporaries that the
 setter still needs

---
 lager/lenses.hpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/lager/lenses.hpp b/lager/lenses.hpp
index 1f8db7c..9cdcdf8 100644
--- a/lager/lenses.hpp
+++ b/lager/lenses.hpp
@@ -107,7 +107,25 @@ auto getset(Getter&& getter, Setter&& setter)
 {
     return zug::comp([=](auto&& f) {
         return [&, f = LAGER_FWD(f)](auto&& p) {
-            return f(getter(std::forward<decltype(p)>(p)))([&](auto&& x) {
+            // the setter needs the whole, and what the getter returns may
+            // outlive it, so do not move from nor refer into temporaries
+            auto get = [&]() -> decltype(auto) {
+                using whole_t = std::decay_t<decltype(p)>;
+                using ref_t   = decltype(getter(std::forward<decltype(p)>(p)));
+                using part_t  = std::decay_t<ref_t>;
+                if constexpr (std::is_lvalue_reference<decltype(p)>::value ||
+                              std::is_rvalue_reference<ref_t>::value)
+                    return getter(std::forward<decltype(p)>(p));
+                else if constexpr (std::is_lvalue_reference<ref_t>::value &&
+                                   std::is_copy_constructible<part_t>::value)
+                    return part_t(getter(std::forward<decltype(p)>(p)));
+                else if constexpr (std::is_invocable<decltype(getter),
+                                                     const whole_t&>::value)
+                    return getter(std::as_const(p));
+                else
+                    return getter(std::forward<decltype(p)>(p));
+            };
+            return f(get())([&](auto&& x) {
                 return setter(std::forward<decltype(p)>(p),
                               std::forward<decltype(x)>(x));
             });
-- 
2.43.0


From f0141bf8e80d3f6393f526de6a1a8dd68bd8a143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:33 +0000
Subject: [PATCH 13/22] fix: at() does not insert items in tables

---
 lager/lenses/at.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lager/lenses/at.hpp b/lager/lenses/at.hpp
index 9e4bbdf..f25d7e2 100644
--- a/lager/lenses/at.hpp
+++ b/lager/lenses/at.hpp
@@ -101,9 +101,10 @@ template <
                      int> = 0>
 std::decay_t<Whole> at_setter_impl(Whole&& whole, Part&& part, Key&& key)
 {
-    if (part.has_value()) {
+    if (maybe_has_key(whole, key) && part.has_value()) {
         LAGER_TRY
         {
+            (void) whole.at(std::forward<Key>(key));
             return std::forward<Whole>(whole).insert(
                 std::forward<Part>(part).value());
         }
-- 
2.43.0


From e3a5a36d9fe5113eec34a99bac3efb70eb16d418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:33 +0000
Subject: [PATCH 14/22] fix: setting through value_or() gives the whole

---
 lager/lenses/optional.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lager/lenses/optional.hpp b/lager/lenses/optional.hpp
index 9c02cb6..4a593b9 100644
--- a/lager/lenses/optional.hpp
+++ b/lager/lenses/optional.hpp
@@ -121,8 +121,9 @@ auto value_or(T&& t)
 {
     return zug::comp([t = std::forward<T>(t)](auto&& f) {
         return [&, f = LAGER_FWD(f)](auto&& whole) {
-            return f(LAGER_FWD(whole).value_or(t))(
-                [&](auto&& x) { return LAGER_FWD(x); });
+            return f(LAGER_FWD(whole).value_or(t))([&](auto&& x) {
+                return std::decay_t<decltype(whole)>{LAGER_FWD(x)};
+            });
         };
     });
 }
@@ -135,8 +136,9 @@ ZUG_INLINE_CONSTEXPR auto value_or()
     return zug::comp([](auto&& f) {
         return [&, f = LAGER_FWD(f)](auto&& whole) {
             using T = std::decay_t<decltype(whole.value())>;
-            return f(LAGER_FWD(whole).value_or(T{}))(
-                [&](auto&& x) { return LAGER_FWD(x); });
+            return f(LAGER_FWD(whole).value_or(T{}))([&](auto&& x) {
+                return std::decay_t<decltype(whole)>{LAGER_FWD(x)};
+            });
         };
     });
 }
-- 
2.43.0


From 2543d9f434eaa01fd5d9032646d9ccdb16730a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:33 +0000
Subject: [PATCH 15/22] fix: zip() does not move parts out of the whole before
 setting them

---
 lager/lenses/tuple.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lager/lenses/tuple.hpp b/lager/lenses/tuple.hpp
index 8a19c6f..2a797e8 100644
--- a/lager/lenses/tuple.hpp
+++ b/lager/lenses/tuple.hpp
@@ -6,6 +6,7 @@
 
 #include <tuple>
 #include <type_traits>
+#include <utility>
 
 namespace lager {
 namespace lenses {
@@ -20,7 +21,7 @@ struct templated_type_contructor<T<Params...>>
     template <typename... Ts>
     static auto construct(Ts&&... ps)
     {
-        return T<std::remove_reference_t<Ts>...>{std::forward<Ts>(ps)...};
+        return T<std::decay_t<Ts>...>{std::forward<Ts>(ps)...};
     }
 };
 
@@ -146,8 +147,10 @@ auto zip(Lenses&&... lenses)
         [lens_tuple = std::make_tuple(LAGER_FWD(lenses)...)](auto&& f) {
             return [&, f = LAGER_FWD(f)](auto&& whole_tuple) {
                 using Whole = std::decay_t<decltype(whole_tuple)>;
+                // the parts are not moved out of the whole, it is needed to set
+                // parts that can be empty
                 return f(detail::apply_zip<Whole>(
-                    detail::fobj_view, lens_tuple, LAGER_FWD(whole_tuple)))(
+                    detail::fobj_view, lens_tuple, std::as_const(whole_tuple)))(
                     [&](auto&& part_tuple) {
                         return detail::apply_zip<Whole>(detail::fobj_set,
                                                         lens_tuple,
-- 
2.43.0


From 69422ac389d9b62d789d7db7c971911abe097e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:33 +0000
Subject: [PATCH 16/22] fix: unbox does not refer into temporary boxes

---
 lager/lenses/unbox.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lager/lenses/unbox.hpp b/lager/lenses/unbox.hpp
index 6c1e2f6..1593e9a 100644
--- a/lager/lenses/unbox.hpp
+++ b/lager/lenses/unbox.hpp
@@ -3,6 +3,7 @@
 #include <lager/util.hpp>
 #include <zug/compose.hpp>
 
+#include <type_traits>
 #include <utility>
 
 namespace lager {
@@ -16,7 +17,13 @@ namespace lenses {
  */
 ZUG_INLINE_CONSTEXPR auto unbox = zug::comp([](auto&& f) {
     return [f](auto&& p) {
-        return f(LAGER_FWD(p).get())(
+        // what is in a temporary box does not outlive it
+        using box_t  = decltype(p);
+        using part_t = std::conditional_t<
+            std::is_lvalue_reference<box_t>::value,
+            decltype(LAGER_FWD(p).get()),
+            std::decay_t<decltype(LAGER_FWD(p).get())>>;
+        return f(static_cast<part_t>(LAGER_FWD(p).get()))(
             [&](auto&& x) { return std::decay_t<decltype(p)>{LAGER_FWD(x)}; });
     };
 });
-- 
2.43.0


From eb8919ebfa938fac5d80f65bd7bc8af11e164cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:27 +0000
Subject: [PATCH 17/22] fix: loading an empty immer sequence replaces the old
 contents

---
 lager/extra/cereal/immer_array.hpp       | 3 ---
 lager/extra/cereal/immer_flex_vector.hpp | 3 ---
 lager/extra/cereal/immer_vector.hpp      | 6 ------
 3 files changed, 12 deletions(-)

diff --git a/lager/extra/cereal/immer_array.hpp b/lager/extra/cereal/immer_array.hpp
index 73bc3ae..bdaa461 100644
--- a/lager/extra/cereal/immer_array.hpp
+++ b/lager/extra/cereal/immer_array.hpp
@@ -37,9 +37,6 @@ void CEREAL_LOAD_FUNCTION_NAME(Archive& ar, immer::array<T, MP>& array)
     size_type size{};
     ar(make_size_tag(size));
 
-    if (!size)
-        return;
-
     auto t = immer::array<T, MP>{}.transient();
     for (auto i = size_type{}; i < size; ++i) {
         T x;
diff --git a/lager/extra/cereal/immer_flex_vector.hpp b/lager/extra/cereal/immer_flex_vector.hpp
index 988a90f..cdbad0b 100644
--- a/lager/extra/cereal/immer_flex_vector.hpp
+++ b/lager/extra/cereal/immer_flex_vector.hpp
@@ -47,9 +47,6 @@ void CEREAL_LOAD_FUNCTION_NAME(Archive& ar,
     size_type size{};
     ar(make_size_tag(size));
 
-    if (!size)
-        return;
-
     auto t = immer::flex_vector<T, MP, B, BL>{}.transient();
     for (auto i = size_type{}; i < size; ++i) {
         T x;
diff --git a/lager/extra/cereal/immer_vector.hpp b/lager/extra/cereal/immer_vector.hpp
index ee49075..7ee64bd 100644
--- a/lager/extra/cereal/immer_vector.hpp
+++ b/lager/extra/cereal/immer_vector.hpp
@@ -47,9 +47,6 @@ void CEREAL_LOAD_FUNCTION_NAME(Archive& ar, immer::vector<T, MP, B, BL>& vector)
     size_type size{};
     ar(make_size_tag(size));
 
-    if (!size)
-        return;
-
     auto t = immer::vector<T, MP, B, BL>{}.transient();
     for (auto i = size_type{}; i < size; ++i) {
         T x;
@@ -85,9 +82,6 @@ void CEREAL_LOAD_FUNCTION_NAME(
     size_type size{};
     ar(make_size_tag(size));
 
-    if (!size)
-        return;
-
     auto t = immer::vector<immer::box<T, MP>, MP, B, BL>{}.transient();
     for (auto i = size_type{}; i < size; ++i) {
         T x;
-- 
2.43.0


From aecc14e88d7192e17bfe4fa432e85de4f7e9aea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:27 +0000
Subject: [PATCH 18/22] fix: loading an immer map or set replaces the old
 contents

---
 lager/extra/cereal/immer_map.hpp | 12 ++++++++----
 lager/extra/cereal/immer_set.hpp |  6 ++++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/lager/extra/cereal/immer_map.hpp b/lager/extra/cereal/immer_map.hpp
index 6a59e5c..2373943 100644
--- a/lager/extra/cereal/immer_map.hpp
+++ b/lager/extra/cereal/immer_map.hpp
@@ -48,14 +48,16 @@ CEREAL_LOAD_FUNCTION_NAME(Archive& ar, immer::map<K, T, H, E, MP, B>& m)
     size_type size;
     ar(make_size_tag(size));
 
+    auto r = immer::map<K, T, H, E, MP, B>{};
     for (auto i = size_type{}; i < size; ++i) {
         T x;
         ar(x);
         auto id = get_auto_id(x);
-        m       = std::move(m).set(std::move(id), std::move(x));
+        r       = std::move(r).set(std::move(id), std::move(x));
     }
-    if (size != m.size())
+    if (size != r.size())
         LAGER_THROW(std::runtime_error{"duplicate ids?"});
+    m = std::move(r);
 }
 
 template <typename Archive,
@@ -86,14 +88,16 @@ CEREAL_LOAD_FUNCTION_NAME(Archive& ar, immer::map<K, T, H, E, MP, B>& m)
     size_type size;
     ar(make_size_tag(size));
 
+    auto r = immer::map<K, T, H, E, MP, B>{};
     for (auto i = size_type{}; i < size; ++i) {
         K k;
         T x;
         ar(make_map_item(k, x));
-        m = std::move(m).set(std::move(k), std::move(x));
+        r = std::move(r).set(std::move(k), std::move(x));
     }
-    if (size != m.size())
+    if (size != r.size())
         LAGER_THROW(std::runtime_error{"duplicate ids?"});
+    m = std::move(r);
 }
 
 template <typename Archive,
diff --git a/lager/extra/cereal/immer_set.hpp b/lager/extra/cereal/immer_set.hpp
index e862839..16e0e2c 100644
--- a/lager/extra/cereal/immer_set.hpp
+++ b/lager/extra/cereal/immer_set.hpp
@@ -31,13 +31,15 @@ void CEREAL_LOAD_FUNCTION_NAME(Archive& ar, immer::set<T, H, E, MP, B>& m)
     size_type size;
     ar(make_size_tag(size));
 
+    auto r = immer::set<T, H, E, MP, B>{};
     for (auto i = size_type{}; i < size; ++i) {
         T x;
         ar(x);
-        m = std::move(m).insert(std::move(x));
+        r = std::move(r).insert(std::move(x));
     }
-    if (size != m.size())
+    if (size != r.size())
         LAGER_THROW(std::runtime_error{"duplicate items?"});
+    m = std::move(r);
 }
 
 template <typename Archive,
-- 
2.43.0


From ae74a46e82a50adf612a70ebfb42b3f8fabb226e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:27 +0000
Subject: [PATCH 19/22] fix: structs serialized in camel case compile

---
 lager/extra/cereal/struct.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lager/extra/cereal/struct.hpp b/lager/extra/cereal/struct.hpp
index f92631f..4c7239b 100644
--- a/lager/extra/cereal/struct.hpp
+++ b/lager/extra/cereal/struct.hpp
@@ -79,7 +79,7 @@ CEREAL_SERIALIZE_FUNCTION_NAME(Archive& ar, T& v)
 {
     boost::hana::for_each(boost::hana::keys(v), [&](auto&& k) {
         serialize_optional_nvp(ar,
-                               lager::detail::to_camel_case(k.c_str()),
+                               lager::detail::to_camel_case(k.c_str()).c_str(),
                                boost::hana::at_key(v, k));
     });
 }
-- 
2.43.0


From a5ba3b528b8c6470547697e956b6ccc1e0fe9fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:27 +0000
Subject: [PATCH 20/22] fix: CEREAL_OPTIONAL_NVP compiles

---
 lager/extra/cereal/optional_nvp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lager/extra/cereal/optional_nvp.hpp b/lager/extra/cereal/optional_nvp.hpp
index 3e4f165..514fe20 100644
--- a/lager/extra/cereal/optional_nvp.hpp
+++ b/lager/extra/cereal/optional_nvp.hpp
@@ -56,4 +56,4 @@ bool serialize_optional_nvp(Archive& ar, const char* name, T&& value)
  * It requires this patch on cereal to work:
  * https://github.com/arximboldi/cereal/commit/72d3eb200dc0568277255f960bc2bd7eccf8bafc
  */
-#define CEREAL_OPTIONAL_NVP(ar, T) ::cereal::make_optional_nvp(ar, #T, T)
+#define CEREAL_OPTIONAL_NVP(ar, T) ::cereal::serialize_optional_nvp(ar, #T, T)
-- 
2.43.0


From a769171407c39702383e9c6dcf1194e3dd9660f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:29 +0000
Subject: [PATCH 21/22] fix: effects that are empty count as no effect

A lager::effect that is empty was never recognised as such, since it is a
class derived from std::function, and converting one to an effect for other
actions wrapped it into a function that is not empty.  The store then threw
std::bad_function_call when running it.
---
 lager/effect.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lager/effect.hpp b/lager/effect.hpp
index 9a6d35d..edd82f5 100644
--- a/lager/effect.hpp
+++ b/lager/effect.hpp
@@ -53,7 +53,7 @@ lager::effect<lager::actions<...>, ...> " //
                                    std::is_convertible_v<Deps, D2>,
                                int> = 0>
     effect(effect<A2, D2> e)
-        : base_t{std::move(e)}
+        : base_t{e ? base_t{std::move(e)} : base_t{}}
     {}
 
     template <
@@ -190,6 +190,12 @@ bool is_empty_effect(const std::function<future(Ctx)>& v)
     return !v || v.template target<decltype(noop)>() == &noop;
 }
 
+template <typename Action, typename Deps>
+bool is_empty_effect(const effect<Action, Deps>& v)
+{
+    return !v;
+}
+
 template <typename Eff>
 bool is_empty_effect(const Eff& v)
 {
-- 
2.43.0


From cf384dff72669fc9d6e712d56bb5d92405956e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:07 +0000
Subject: [PATCH 22/22] fix: combining a reader with itself, as in with(x, x),
 does not abort

A node that has the same parent several times was linked to it once per
occurrence, which failed the assertion against linking twice (and, without
assertions, sent every change down several times).
---
 lager/detail/nodes.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lager/detail/nodes.hpp b/lager/detail/nodes.hpp
index 7959568..172bf9d 100644
--- a/lager/detail/nodes.hpp
+++ b/lager/detail/nodes.hpp
@@ -58,7 +58,7 @@ namespace detail {
 constexpr struct
 {
     template <typename T1, typename T2>
-    bool operator()(const T1& a, const T2& b)
+    bool operator()(const T1& a, const T2& b) const
     {
         return !a.owner_before(b) && !b.owner_before(a);
     }
@@ -146,6 +146,9 @@ public:
     {
         using namespace std;
         using std::placeholders::_1;
+        // The same parent may be combined several times, as in with(x, x)
+        if (!children_.empty() && owner_equals(children_.back(), child))
+            return;
         assert(find_if(begin(children_),
                        end(children_),
                        bind(owner_equals, child, _1)) == end(children_) &&
-- 
2.43.0

