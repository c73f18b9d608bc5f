From c76cab450779d55ed306ba86b662b7777c5a6a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:29 +0000
Subject: [PATCH 01/30] fix: verify_schemas must check links nested in inline
 models

ModelReference::traverse stopped at inline models, so a dangling link inside
an inlined object, array or oneOf was reported as valid.
---
 opg/src/models.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opg/src/models.rs b/opg/src/models.rs
index a761c3e..24a657b 100644
--- a/opg/src/models.rs
+++ b/opg/src/models.rs
@@ -1045,7 +1045,8 @@ impl ModelReference {
     fn traverse<'a>(&'a self, mut cx: TraverseContext<'a>) -> Result<(), &'a str> {
         match &self {
             ModelReference::Link(ref link) => cx.check(link),
-            _ => Ok(()),
+            ModelReference::Inline(model) => model.traverse(cx),
+            ModelReference::Any => Ok(()),
         }
     }
 }
-- 
2.43.0


From ae38d6880478bd9af4182d7f498ab266114b7435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:29 +0000
Subject: [PATCH 02/30] fix: do not overflow the stack on recursive types

mention_schema registered a component only after its schema had been built,
so a type which mentions itself recursed forever.
---
 opg/src/models.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/opg/src/models.rs b/opg/src/models.rs
index 24a657b..dc8bab9 100644
--- a/opg/src/models.rs
+++ b/opg/src/models.rs
@@ -540,6 +540,14 @@ impl Components {
         let reference = M::select_reference(self, inline, params);
         if let ModelReference::Link(link) = &reference {
             if !self.schemas.contains_key(link) {
+                // Reserve the name first, so that recursive types find themselves already mentioned
+                self.schemas.insert(
+                    link.to_owned(),
+                    Model {
+                        description: None,
+                        data: ModelOneOf::default().into(),
+                    },
+                );
                 let structure = M::get_schema(self);
                 self.schemas.insert(link.to_owned(), structure);
             }
-- 
2.43.0


From 99523e1d1aa51341a4c983d61d34de7d7967d291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:58 +0000
Subject: [PATCH 03/30] fix: an optional mention must not make the shared
 component nullable

When a named type was mentioned for the first time through Option<T> (or a
pointer to it), its nullable variant was registered as the component, so the
meaning of every other reference depended on the order of mentions.
---
 opg/src/macros.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/opg/src/macros.rs b/opg/src/macros.rs
index 3657741..b0d8ca0 100644
--- a/opg/src/macros.rs
+++ b/opg/src/macros.rs
@@ -180,6 +180,14 @@ macro_rules! impl_opg_model (
             fn type_name() -> Option<std::borrow::Cow<'static, str>> {
                 <T as $crate::OpgModel>::type_name()
             }
+
+            fn select_reference(cx: &mut $crate::Components, inline: bool, params: &$crate::ContextParams) -> $crate::ModelReference {
+                match Self::type_name() {
+                    // The component must describe the type itself, not its nullable version
+                    Some(_) if !inline => cx.mention_schema::<T>(false, params),
+                    _ => $crate::ModelReference::Inline(Self::get_schema(cx).apply_params(params)),
+                }
+            }
         }
     };
 
@@ -196,6 +204,11 @@ macro_rules! impl_opg_model (
             fn type_name() -> Option<std::borrow::Cow<'static, str>> {
                 <T as $crate::OpgModel>::type_name()
             }
+
+            #[inline]
+            fn select_reference(cx: &mut $crate::Components, inline: bool, params: &$crate::ContextParams) -> $crate::ModelReference {
+                <T as $crate::OpgModel>::select_reference(cx, inline, params)
+            }
         }
     };
 
-- 
2.43.0


From 885eb61beec15ab0c1c03db298cb649bcebf3d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:58 +0000
Subject: [PATCH 04/30] fix: one element tuple is serialized as an array

serde writes (T,) as [T], but the schema of T itself was published.
---
 opg/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opg/src/lib.rs b/opg/src/lib.rs
index 41d1b77..4ba08a8 100644
--- a/opg/src/lib.rs
+++ b/opg/src/lib.rs
@@ -53,7 +53,7 @@ impl_opg_model!(generic_simple(?Sized): std::cell::RefCell<T>);
 
 impl_opg_model!(generic_simple(nullable): Option<T>);
 
-impl_opg_model!(generic_simple: (T,));
+impl_opg_model!(generic_array: (T,));
 
 impl_opg_model!(generic_tuple: (T1, T2));
 impl_opg_model!(generic_tuple: (T1, T2, T3));
-- 
2.43.0


From bca5b97f19c1308d22c2a55e66d0549d34bff708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:58 +0000
Subject: [PATCH 05/30] fix: omit missing request body description instead of
 writing null

null is not a valid description in OpenAPI 3.0; every other optional
description is already skipped.
---
 opg/src/models.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opg/src/models.rs b/opg/src/models.rs
index dc8bab9..1cf5d2b 100644
--- a/opg/src/models.rs
+++ b/opg/src/models.rs
@@ -346,6 +346,7 @@ impl Serialize for RequestBody {
         struct RequestBodyHelper<'a> {
             #[serde(skip_serializing_if = "is_false")]
             required: bool,
+            #[serde(skip_serializing_if = "Option::is_none")]
             description: &'a Option<String>,
             content: ResponseContent<'a>,
         }
-- 
2.43.0


From 452cbef1cbc0233991dc3f2eb7e7ac8be714bbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:59 +0000
Subject: [PATCH 06/30] fix: allow security schemes to be declared by variable

The branch was using a misspelled macro name, so it never compiled, and it did
not convert the scheme into SecurityScheme as mention_security_scheme does.
---
 opg/src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opg/src/macros.rs b/opg/src/macros.rs
index b0d8ca0..e41b81d 100644
--- a/opg/src/macros.rs
+++ b/opg/src/macros.rs
@@ -383,7 +383,7 @@ macro_rules! describe_api {
         $crate::describe_api!(@opg_security_scheme $result $($schemes)*,)
     };
     (@opg_security_scheme $result:ident $scheme:ident, $($other:tt)*) => {
-        $result.components.security_schemes.insert(stringity!($scheme).to_owned(), $scheme);
+        $result.components.security_schemes.insert(stringify!($scheme).to_owned(), $scheme.clone().into());
         $crate::describe_api!(@opg_security_scheme $result $($other)*)
     };
     (@opg_security_scheme $result:ident (http $name:literal): {$($properties:tt)+}, $($other:tt)*) => {
-- 
2.43.0


From f9c8ed32c31ef9adf89deb5b2cdaf3e71ab97225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:59 +0000
Subject: [PATCH 07/30] fix: security requirement roles are strings

Roles are literals while the requirement holds owned strings, so any
requirement with roles failed to compile.
---
 opg/src/macros.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opg/src/macros.rs b/opg/src/macros.rs
index e41b81d..eedeeb5 100644
--- a/opg/src/macros.rs
+++ b/opg/src/macros.rs
@@ -598,10 +598,10 @@ macro_rules! describe_api {
 
 
     (@opg_path_value_security_item $result:ident $context:ident $security:literal$([$($role:literal),*])?) => {
-        $context.insert($security.to_owned(), vec![$($($role),*)?])
+        $context.insert($security.to_owned(), vec![$($($role.to_owned()),*)?])
     };
     (@opg_path_value_security_item $result:ident $context:ident $security:ident$([$($role:literal),*])?) => {
-        $context.insert($result.components.mention_security_scheme(stringify!($security).to_owned(), &$security), vec![$($($role),*)?])
+        $context.insert($result.components.mention_security_scheme(stringify!($security).to_owned(), &$security), vec![$($($role.to_owned()),*)?])
     };
 
 
-- 
2.43.0


From 6fad566241b12dc454e851899f5b5aaf960a289c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:59 +0000
Subject: [PATCH 08/30] fix: callbacks declared with a literal name lose their
 operations

The branch expanded the tokens which follow the callback instead of its own
paths, and both branches required CallbackObject to be in the user's scope.
---
 opg/src/macros.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/opg/src/macros.rs b/opg/src/macros.rs
index eedeeb5..e3951c3 100644
--- a/opg/src/macros.rs
+++ b/opg/src/macros.rs
@@ -620,14 +620,14 @@ macro_rules! describe_api {
     (@opg_path_value_body_properties $result:ident $description:ident $required:ident $schema:ident $(,)?) => {};
 
     (@opg_path_value_callbacks $result:ident $context:ident $callback:literal: { $($operations:tt)* }, $($other:tt)*) => {
-        let mut callback_object = CallbackObject::default();
-        $crate::describe_api!(@opg_path_value_callbacks_paths $result callback_object $($other)*,);
+        let mut callback_object = $crate::models::CallbackObject::default();
+        $crate::describe_api!(@opg_path_value_callbacks_paths $result callback_object $($operations)*,);
         $context.callbacks.insert($callback.to_owned(), callback_object);
 
         $crate::describe_api!(@opg_path_value_callbacks $result $context $($other)*)
     };
     (@opg_path_value_callbacks $result:ident $context:ident $callback:ident: { $($paths:tt)* }, $($other:tt)*) => {
-        let mut callback_object = CallbackObject::default();
+        let mut callback_object = $crate::models::CallbackObject::default();
         $crate::describe_api!(@opg_path_value_callbacks_paths $result callback_object $($paths)*,);
         $context.callbacks.insert(stringify!($callback).to_owned(), callback_object);
 
-- 
2.43.0


From d751548c292100ff63d8c13a45cc0e2ecb8d14de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:27 +0000
Subject: [PATCH 09/30] fix: struct variants of adjacently tagged enums are
 objects

Their content was published as an array of field values, while serde writes an
object with named fields.
---
 opg_derive/src/opg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index b77129c..18dce53 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -213,7 +213,7 @@ fn serialize_adjacent_tagged_enum(
                         &variant.fields,
                         |field| variant.attrs.inline || field.attrs.inline,
                     )),
-                    StructStyle::Struct => inline_reference(tuple_model(
+                    StructStyle::Struct => inline_reference(object_model(
                         false,
                         &variant.attrs.description,
                         &variant.fields,
-- 
2.43.0


From 87975d16588279a46d76fc261244a301c2170ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:27 +0000
Subject: [PATCH 10/30] fix: do not panic on unit and tuple variants of
 untagged enums

serde supports both (as null and as an array), but the derive macro hit
unreachable!().
---
 opg_derive/src/opg.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 18dce53..064d81e 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -161,13 +161,24 @@ fn serialize_untagged_enum(
 
                 field_model_reference(context_params, field, variant.attrs.inline)
             }
+            StructStyle::Tuple => inline_reference(tuple_model(
+                false,
+                &variant.attrs.description,
+                &variant.fields,
+                |field| variant.attrs.inline || field.attrs.inline,
+            )),
             StructStyle::Struct => inline_reference(object_model(
                 false,
                 &variant.attrs.description,
                 &variant.fields,
                 |field| variant.attrs.inline || field.attrs.inline,
             )),
-            _ => unreachable!(),
+            StructStyle::Unit => {
+                let context_params = ContextParams::from(&variant.attrs).tokenize();
+
+                // serialized as `null`
+                quote! { cx.mention_schema::<()>(true, &#context_params) }
+            }
         })
         .collect::<Vec<_>>();
 
-- 
2.43.0


From b7d0d30c083985e8fbf74b4a3dcc97a772edefb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:30 +0000
Subject: [PATCH 11/30] fix: do not panic on unit variants of adjacently tagged
 enums

serde writes only the tag for such variants, so the content is described for
the other ones and is required only if every variant has it.
---
 opg_derive/src/opg.rs | 42 ++++++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 064d81e..0ffe4b0 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -203,6 +203,12 @@ fn serialize_adjacent_tagged_enum(
     let description = option_string(container.attrs.description.as_deref());
     let nullable = container.attrs.nullable;
 
+    // unit variants are serialized without content
+    let all_with_content = variants
+        .iter()
+        .filter(|variant| !variant.attrs.skip_serializing)
+        .all(|variant| !matches!(variant.style, StructStyle::Unit));
+
     let (variants, one_of) = variants
         .iter()
         .filter(|variant| !variant.attrs.skip_serializing)
@@ -230,7 +236,10 @@ fn serialize_adjacent_tagged_enum(
                         &variant.fields,
                         |field| field.attrs.inline || variant.attrs.inline,
                     )),
-                    _ => unreachable!(),
+                    StructStyle::Unit => {
+                        variants.push(variant_name);
+                        return (variants, one_of);
+                    }
                 };
 
                 variants.push(variant_name);
@@ -242,6 +251,26 @@ fn serialize_adjacent_tagged_enum(
     let type_example = option_string(variants.first().map(|x| x.as_str()));
     let type_name_stringified = container.ident.to_string();
 
+    let insert_content = if one_of.is_empty() {
+        quote!()
+    } else {
+        quote! {
+            properties.insert(#content.to_owned(), _opg::ModelReference::Inline(
+                _opg::Model {
+                    description: #description,
+                    data: _opg::ModelData::OneOf(_opg::ModelOneOf {
+                        one_of: vec![#(#one_of),*],
+                    })
+                }
+            ));
+        }
+    };
+    let require_content = if all_with_content && !one_of.is_empty() {
+        quote!( required.push(#content.to_owned()); )
+    } else {
+        quote!()
+    };
+
     let struct_type_description = quote! {
         {
             let mut properties = std::collections::BTreeMap::new();
@@ -264,15 +293,8 @@ fn serialize_adjacent_tagged_enum(
             ));
             required.push(#tag.to_owned());
 
-            properties.insert(#content.to_owned(), _opg::ModelReference::Inline(
-                _opg::Model {
-                    description: #description,
-                    data: _opg::ModelData::OneOf(_opg::ModelOneOf {
-                        one_of: vec![#(#one_of),*],
-                    })
-                }
-            ));
-            required.push(#content.to_owned());
+            #insert_content
+            #require_content
 
             _opg::ModelTypeDescription::Object(
                 _opg::ModelObject {
-- 
2.43.0


From c61e195721bff4cdedf97e7f925ed3ea5395b666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:58 +0000
Subject: [PATCH 12/30] fix: tagged enums with only unit variants are objects

serde writes {"tag": "Variant"} for them if a tag is specified, but they
were always published as plain strings.
---
 opg_derive/src/attr.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/opg_derive/src/attr.rs b/opg_derive/src/attr.rs
index cf406c5..bbf0e5c 100644
--- a/opg_derive/src/attr.rs
+++ b/opg_derive/src/attr.rs
@@ -494,16 +494,18 @@ fn decide_model_type(
                 .iter()
                 .all(|field| matches!(field.fields, syn::Fields::Unit))
             {
-                return match tag_type {
+                match tag_type {
                     TagType::None => {
                         cx.error_spanned_by(
                             &input.ident,
                             "unit enums are not supported for untagged",
                         );
-                        Err(())
+                        return Err(());
                     }
-                    _ => Ok(ModelType::NewType),
-                };
+                    TagType::External => return Ok(ModelType::NewType),
+                    // serialized as objects with a tag
+                    TagType::Internal { .. } | TagType::Adjacent { .. } => {}
+                }
             }
 
             match tag_type {
-- 
2.43.0


From 89a1923f96b767ff3573832c07d3ab3fd4c97a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:58 +0000
Subject: [PATCH 13/30] fix: skipped fields of tuples are not serialized

They were described as possible items, and types of these fields had to
implement OpgModel.
---
 opg_derive/src/opg.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 0ffe4b0..ce22ad3 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -627,6 +627,7 @@ where
 {
     let data = fields
         .iter()
+        .filter(|field| !field.attrs.skip_serializing)
         .map(|field| {
             field_model_reference(
                 ContextParams::from(&field.attrs),
-- 
2.43.0


From 4dce161a955879fcdf615cea64688feb4fe6009b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:58 +0000
Subject: [PATCH 14/30] fix: do not lose nullable flag of newtypes and string
 enums

#[opg(nullable)] on these containers was accepted and ignored.
---
 opg_derive/src/opg.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index ce22ad3..14ff7ad 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -76,6 +76,7 @@ fn serialize_enum(container: &Container, variants: &[Variant]) -> proc_macro2::T
 
 fn serialize_newtype_enum(container: &Container, variants: &[Variant]) -> proc_macro2::TokenStream {
     let description = option_string(container.attrs.description.as_deref());
+    let nullable = container.attrs.nullable;
 
     let body = if container.attrs.has_repr {
         let variants = variants
@@ -129,7 +130,7 @@ fn serialize_newtype_enum(container: &Container, variants: &[Variant]) -> proc_m
             _opg::Model {
                 description: #description,
                 data: _opg::ModelData::Single(_opg::ModelType {
-                    nullable: false,
+                    nullable: #nullable,
                     type_description: _opg::ModelTypeDescription::String(_opg::ModelString {
                         variants: Some(vec![#(#variants.to_owned()),*]),
                         data: _opg::ModelSimple {
@@ -908,6 +909,7 @@ impl<'a> ContextParams<'a> {
     {
         let other = other.into();
         self.description = self.description.or(other.description);
+        self.nullable = self.nullable.or(other.nullable);
         self.format = self.format.or(other.format);
         self.example = self.example.or(other.example);
         self
-- 
2.43.0


From 53c93ff0afb4794526d596efdf5c9be40d2feb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:28 +0000
Subject: [PATCH 15/30] fix: respect inline flag on the field of newtype
 variants

#[opg(inline)] was honoured on fields of other variants and on the variant
itself, but silently ignored in this place.
---
 opg_derive/src/opg.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 14ff7ad..3deae3a 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -160,7 +160,11 @@ fn serialize_untagged_enum(
                 let field = &variant.fields[0];
                 let context_params = ContextParams::from(&field.attrs).or(&variant.attrs);
 
-                field_model_reference(context_params, field, variant.attrs.inline)
+                field_model_reference(
+                    context_params,
+                    field,
+                    variant.attrs.inline || field.attrs.inline,
+                )
             }
             StructStyle::Tuple => inline_reference(tuple_model(
                 false,
@@ -223,7 +227,11 @@ fn serialize_adjacent_tagged_enum(
                         let field = &variant.fields[0];
                         let context_params = ContextParams::from(&field.attrs).or(&variant.attrs);
 
-                        field_model_reference(context_params, field, variant.attrs.inline)
+                        field_model_reference(
+                            context_params,
+                            field,
+                            variant.attrs.inline || field.attrs.inline,
+                        )
                     }
                     StructStyle::Tuple => inline_reference(tuple_model(
                         false,
@@ -364,7 +372,7 @@ fn serialize_external_tagged_enum(
                         field_model_reference(
                             context_params,
                             field,
-                            variant.attrs.inline,
+                            variant.attrs.inline || field.attrs.inline,
                         )
                     },
                     StructStyle::Tuple => {
-- 
2.43.0


From 7f6316ef5058523fc668d65a7d5224fe139e1eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:29 +0000
Subject: [PATCH 16/30] fix: explicit type on newtype structs

The explicit type was ignored if it was specified on the field, and `any`,
which cannot be a component, made the derive macro panic.
---
 opg_derive/src/opg.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 3deae3a..3436abd 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -557,15 +557,24 @@ fn serialize_newtype_struct(container: &Container, field: &Field) -> proc_macro2
 
     let context_params = ContextParams::from(&field.attrs).or(&container.attrs);
 
-    let body = match container.attrs.explicit_model_type {
+    let explicit_model_type = container
+        .attrs
+        .explicit_model_type
+        .or(field.attrs.explicit_model_type);
+
+    let body = match explicit_model_type {
         Some(explicit_model_type) if explicit_model_type != ExplicitModelType::Any => {
             newtype_model(
-                container.attrs.nullable,
+                container.attrs.nullable || field.attrs.nullable,
                 context_params,
                 explicit_model_type,
             )
         }
-        Some(_) => unreachable!(),
+        Some(_) => syn::Error::new_spanned(
+            &container.original.ident,
+            "`any` type is not supported for newtype structs",
+        )
+        .to_compile_error(),
         None => {
             let context_params = context_params.tokenize();
 
-- 
2.43.0


From a0b6787ff3b328ea06bcd48e6332f4ee5c9567f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:29 +0000
Subject: [PATCH 17/30] fix: respect #[serde(transparent)]

The attribute was parsed but not used, so a transparent struct was published
as an object instead of the type of its only field.
---
 opg_derive/src/bound.rs | 10 ++++++++++
 opg_derive/src/opg.rs   | 14 ++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/opg_derive/src/bound.rs b/opg_derive/src/bound.rs
index 630208f..2554975 100644
--- a/opg_derive/src/bound.rs
+++ b/opg_derive/src/bound.rs
@@ -133,6 +133,16 @@ pub fn with_bound(
     generics
 }
 
+pub fn is_phantom_data(ty: &syn::Type) -> bool {
+    match ungroup(ty) {
+        syn::Type::Path(ty) => match ty.path.segments.last() {
+            Some(seg) => seg.ident == "PhantomData",
+            None => false,
+        },
+        _ => false,
+    }
+}
+
 fn ungroup(mut ty: &syn::Type) -> &syn::Type {
     while let syn::Type::Group(group) = ty {
         ty = &group.elem;
diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 3436abd..caec483 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -50,6 +50,20 @@ fn build_generics(cont: &Container) -> syn::Generics {
 fn serialize_body(container: &Container) -> proc_macro2::TokenStream {
     match &container.data {
         Data::Enum(variants) => serialize_enum(container, variants),
+        Data::Struct(_, fields) if container.attrs.transparent => {
+            // the same field as serde selects
+            match fields
+                .iter()
+                .find(|field| !field.attrs.skip_serializing && !bound::is_phantom_data(field.ty))
+            {
+                Some(field) => serialize_newtype_struct(container, field),
+                None => syn::Error::new_spanned(
+                    &container.original.ident,
+                    "transparent structs must have a serialized field",
+                )
+                .to_compile_error(),
+            }
+        }
         Data::Struct(StructStyle::Struct, fields) => serialize_struct(container, fields),
         Data::Struct(StructStyle::Tuple, fields) => serialize_tuple_struct(container, fields),
         Data::Struct(StructStyle::NewType, fields) => {
-- 
2.43.0


From 26dee6dcbf46b5b5585f4b31d482d7fde5a23bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:30 +0000
Subject: [PATCH 18/30] fix: allow several hints in #[repr(...)]

Types with #[repr(C, packed)], #[repr(C, u8)] and so on were rejected because
of a duplicate opg attribute.
---
 opg_derive/src/attr.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/opg_derive/src/attr.rs b/opg_derive/src/attr.rs
index bbf0e5c..98a9766 100644
--- a/opg_derive/src/attr.rs
+++ b/opg_derive/src/attr.rs
@@ -149,7 +149,10 @@ impl Container {
                     );
                 }
                 (AttrFrom::Repr, item) => {
-                    has_repr.set_true(item);
+                    // there can be several hints, e.g. `#[repr(C, u8)]`
+                    if !has_repr.get() {
+                        has_repr.set_true(item);
+                    }
                 }
             }
         }
-- 
2.43.0


From 71a98921d3c52b3b5bd1b93652478a1f025af7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:01 +0000
Subject: [PATCH 19/30] fix: publish actual values of repr enums

Variants without explicit discriminants were dropped, which left an empty
oneOf, and examples of the others were source tokens ("- 1", "1 << 3")
instead of values.
---
 opg_derive/src/opg.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index caec483..aea6e3a 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -96,16 +96,9 @@ fn serialize_newtype_enum(container: &Container, variants: &[Variant]) -> proc_m
         let variants = variants
             .iter()
             .filter(|variant| !variant.attrs.skip_serializing)
-            .filter_map(|variant| {
-                variant
-                    .original
-                    .discriminant
-                    .as_ref()
-                    .map(|(_, discriminant)| (variant.attrs.name.serialized(), discriminant))
-            })
-            .map(|(name, discriminant)| {
-                let description = format!("{} variant", name);
-                let example = quote::ToTokens::to_token_stream(discriminant).to_string();
+            .map(|variant| {
+                let description = format!("{} variant", variant.attrs.name.serialized());
+                let ident = &variant.ident;
 
                 quote! {
                     _opg::Model {
@@ -114,7 +107,7 @@ fn serialize_newtype_enum(container: &Container, variants: &[Variant]) -> proc_m
                             nullable: false,
                             type_description: _opg::ModelTypeDescription::Integer(_opg::ModelSimple {
                                 format: None,
-                                example: Some(#example.to_owned()),
+                                example: Some((Self::#ident as i128).to_string()),
                             })
                         }),
                     }
-- 
2.43.0


From d6ca8f4518201c524ef882733a0d9067a1cf02be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:27 +0000
Subject: [PATCH 20/30] fix: describe the tag of structs with #[serde(tag =
 "...")]

The attribute was parsed for structs but not used, so the field which serde
always writes was missing.
---
 opg_derive/src/opg.rs | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index aea6e3a..fddda19 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -527,6 +527,39 @@ fn serialize_struct(container: &Container, fields: &[Field]) -> proc_macro2::Tok
 
     let object_type_description = object_type_description(fields, |field| field.attrs.inline);
 
+    // serde adds the name of the struct as a field
+    let object_type_description = match &container.attrs.tag_type {
+        TagType::Internal { tag } => {
+            let type_name = container.attrs.name.serialized();
+            let tag_description = format!("{} type", container.ident);
+
+            quote! {
+                {
+                    let mut type_description = #object_type_description;
+                    if let _opg::ModelTypeDescription::Object(object) = &mut type_description {
+                        let _ = object.add_property(#tag.to_owned(), _opg::ModelReference::Inline(
+                            _opg::Model {
+                                description: Some(#tag_description.to_owned()),
+                                data: _opg::ModelData::Single(_opg::ModelType {
+                                    nullable: false,
+                                    type_description: _opg::ModelTypeDescription::String(_opg::ModelString {
+                                        variants: Some(vec![#type_name.to_owned()]),
+                                        data: _opg::ModelSimple {
+                                            format: None,
+                                            example: Some(#type_name.to_owned()),
+                                        }
+                                    })
+                                })
+                            }
+                        ), true);
+                    }
+                    type_description
+                }
+            }
+        }
+        _ => object_type_description,
+    };
+
     let body = quote! {
         _opg::Model {
             description: #description,
-- 
2.43.0


From 9fffeb59177117733b8c3d8857eb10958ff9963e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:28 +0000
Subject: [PATCH 21/30] fix: component names of types with raw identifiers

`r#type` was published as is, but '#' is not allowed in component names and
breaks the reference, which is a URI fragment.
---
 opg_derive/src/opg.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index fddda19..edbb10a 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -881,10 +881,12 @@ fn implement_type(
             }
         }
     } else {
+        let type_name = dummy::unraw(type_name);
+
         quote! {
             #[inline]
             fn type_name() -> Option<std::borrow::Cow<'static, str>> {
-                Some(stringify!(#type_name).into())
+                Some(#type_name.into())
             }
         }
     };
-- 
2.43.0


From df1a4e739871b5723ae1285dff84b22985e66d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:29 +0000
Subject: [PATCH 22/30] fix: newtype variants with a skipped field are unit
 variants

serde writes them without content, and their type doesn't have to implement
OpgModel.
---
 opg_derive/src/ast.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/opg_derive/src/ast.rs b/opg_derive/src/ast.rs
index 5af4965..37cf8fd 100644
--- a/opg_derive/src/ast.rs
+++ b/opg_derive/src/ast.rs
@@ -124,6 +124,11 @@ fn enum_from_ast<'a>(
             .map(|variant| {
                 let attrs = attr::Variant::from_ast(cx, variant);
                 let (style, fields) = struct_from_ast(cx, &variant.fields);
+                let style = match style {
+                    // serialized as a unit variant
+                    StructStyle::NewType if fields[0].attrs.skip_serializing => StructStyle::Unit,
+                    style => style,
+                };
                 Variant {
                     ident: variant.ident.clone(),
                     attrs,
-- 
2.43.0


From 564eb6ae17129ecda7e9f734f6312f5f84a347ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:29 +0000
Subject: [PATCH 23/30] fix: reject descriptions which are not strings

#[opg(42)] was silently ignored, unlike any other misplaced literal.
---
 opg_derive/src/attr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/opg_derive/src/attr.rs b/opg_derive/src/attr.rs
index 98a9766..ddf9362 100644
--- a/opg_derive/src/attr.rs
+++ b/opg_derive/src/attr.rs
@@ -108,7 +108,7 @@ impl Container {
                 }
                 (AttrFrom::Serde, _) => {}
                 (AttrFrom::Opg, Lit(lit)) => {
-                    if let Ok(s) = get_lit_str_simple(lit) {
+                    if let Ok(s) = get_lit_str(cx, DESCRIPTION, lit) {
                         description.set(lit, s.value().clone());
                     }
                 }
@@ -239,7 +239,7 @@ impl Variant {
                 }
                 (AttrFrom::Serde, _) => {}
                 (AttrFrom::Opg, Lit(lit)) => {
-                    if let Ok(s) = get_lit_str_simple(lit) {
+                    if let Ok(s) = get_lit_str(cx, DESCRIPTION, lit) {
                         description.set(lit, s.value().clone());
                     }
                 }
@@ -364,7 +364,7 @@ impl Field {
                 }
                 (AttrFrom::Serde, _) => {}
                 (AttrFrom::Opg, Lit(lit)) => {
-                    if let Ok(s) = get_lit_str_simple(lit) {
+                    if let Ok(s) = get_lit_str(cx, DESCRIPTION, lit) {
                         description.set(lit, s.value().clone());
                     }
                 }
-- 
2.43.0


From 2773bc19a7b93810605c40fbcb65e5fdc4560820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:46 +0000
Subject: [PATCH 24/30] fix: report tuple variants of internally tagged enums

They cannot be serialized, but the derive macro panicked instead of pointing
to the variant.
---
 opg_derive/src/opg.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index edbb10a..9dc25b5 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -462,7 +462,11 @@ fn serialize_internal_tagged_enum(
                         variant.attrs.inline || field.attrs.inline
                     })
                 }
-                _ => unreachable!(),
+                StructStyle::Tuple => syn::Error::new_spanned(
+                    &variant.original.ident,
+                    "tuple variants are not supported for internally tagged enums",
+                )
+                .to_compile_error(),
             };
 
             quote! {
-- 
2.43.0


From cb3f133aef5f0dc4412a20c1d6c4c35cf6d58d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:21 +0000
Subject: [PATCH 25/30] fix: publish the mandatory paths object even if it is
 empty

---
 opg/src/models.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/opg/src/models.rs b/opg/src/models.rs
index 1cf5d2b..16cf54a 100644
--- a/opg/src/models.rs
+++ b/opg/src/models.rs
@@ -29,10 +29,7 @@ pub struct Opg {
     pub servers: Vec<Server>,
 
     /// The available paths and operations for the API
-    #[serde(
-        serialize_with = "serialize_ordered_entries",
-        skip_serializing_if = "Vec::is_empty"
-    )]
+    #[serde(serialize_with = "serialize_ordered_entries")]
     pub paths: Vec<(Path, PathValue)>,
 
     /// An element to hold various schemas for the specification
-- 
2.43.0


From 2e1fbda7e37e84150ad7471a3a4fee79d3363e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:21 +0000
Subject: [PATCH 26/30] fix: derive path parameter names from type names which
 start with a non-ASCII letter

---
 opg/src/macros.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opg/src/macros.rs b/opg/src/macros.rs
index e3951c3..e790f67 100644
--- a/opg/src/macros.rs
+++ b/opg/src/macros.rs
@@ -733,7 +733,8 @@ macro_rules! describe_api {
             let name = {
                 let full_name = stringify!($current);
                 let name = &full_name[full_name.rfind(':').map(|i| i + 1).unwrap_or_default()..];
-                name[..1].to_ascii_lowercase() + &name[1..]
+                let mut chars = name.chars();
+                chars.next().map(|c| c.to_ascii_lowercase()).into_iter().chain(chars).collect::<String>()
             };
             $crate::describe_api!(@opg_path_insert_url_param $result $context name $current)
         });
-- 
2.43.0


From 8c33292ccb71a72acb5771b51f607a4bebf58b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:22 +0000
Subject: [PATCH 27/30] fix: accept a trailing comma after the paths of a
 callback

---
 opg/src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opg/src/macros.rs b/opg/src/macros.rs
index e790f67..0933407 100644
--- a/opg/src/macros.rs
+++ b/opg/src/macros.rs
@@ -637,7 +637,7 @@ macro_rules! describe_api {
 
     (@opg_path_value_callbacks_paths $result:ident $context:ident $(($($path_segment:tt)+): {
         $($properties:tt)*
-    }),*$(,)?) => {
+    }),*$(,)*) => {
         $({
             let mut path = Vec::new();
             let mut context = $crate::models::PathValue::default();
-- 
2.43.0


From 78275b157d66423dc6333f74156b8aef37fc486b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:45 +0000
Subject: [PATCH 28/30] fix: do not bind info properties as variables, their
 values may refer to variables of these names

---
 opg/src/macros.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/opg/src/macros.rs b/opg/src/macros.rs
index 0933407..50f4cf2 100644
--- a/opg/src/macros.rs
+++ b/opg/src/macros.rs
@@ -351,9 +351,8 @@ macro_rules! describe_api {
 
 
     (@opg_property $result:ident info $($property:ident: $property_value:expr),*$(,)?) => {{
-        $(let $property = $crate::describe_api!(@opg_info_property $property $property_value));*;
         $result.info = $crate::models::Info {
-            $($property,)*
+            $($property: $crate::describe_api!(@opg_info_property $property $property_value),)*
             ..Default::default()
         };
     }};
-- 
2.43.0


From 1df1eb6957d8f84eb6d81cfd7c19c352a059e993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:17 +0000
Subject: [PATCH 29/30] fix: enums with a representation that is not an integer
 are serialized by name

---
 opg_derive/src/attr.rs   | 10 +++++++++-
 opg_derive/src/symbol.rs | 15 +++++++++++++++
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/opg_derive/src/attr.rs b/opg_derive/src/attr.rs
index ddf9362..6db35b0 100644
--- a/opg_derive/src/attr.rs
+++ b/opg_derive/src/attr.rs
@@ -150,7 +150,7 @@ impl Container {
                 }
                 (AttrFrom::Repr, item) => {
                     // there can be several hints, e.g. `#[repr(C, u8)]`
-                    if !has_repr.get() {
+                    if is_integer_repr(item) && !has_repr.get() {
                         has_repr.set_true(item);
                     }
                 }
@@ -532,6 +532,14 @@ fn decide_model_type(
     })
 }
 
+/// Other hints, e.g. `#[repr(C)]` or `#[repr(align(8))]`, do not affect serialization
+fn is_integer_repr(item: &syn::NestedMeta) -> bool {
+    match item {
+        Meta(Path(word)) => INTEGER_REPRS.iter().any(|repr| word == *repr),
+        _ => false,
+    }
+}
+
 fn get_renames<'a>(
     cx: &ParsingContext,
     items: &'a Punctuated<syn::NestedMeta, syn::Token![,]>,
diff --git a/opg_derive/src/symbol.rs b/opg_derive/src/symbol.rs
index 118dde8..4df0b34 100644
--- a/opg_derive/src/symbol.rs
+++ b/opg_derive/src/symbol.rs
@@ -47,6 +47,21 @@ define_symbols! {
     REPR => "repr",
 }
 
+pub const INTEGER_REPRS: [Symbol; 12] = [
+    Symbol("u8"),
+    Symbol("i8"),
+    Symbol("u16"),
+    Symbol("i16"),
+    Symbol("u32"),
+    Symbol("i32"),
+    Symbol("u64"),
+    Symbol("i64"),
+    Symbol("u128"),
+    Symbol("i128"),
+    Symbol("usize"),
+    Symbol("isize"),
+];
+
 #[derive(Copy, Clone)]
 pub struct Symbol(&'static str);
 
-- 
2.43.0


From aca96e4879fde41ef864d00d8e7647f94560ead7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:01 +0000
Subject: [PATCH 30/30] fix: an explicit type on a newtype variant was ignored,
 the one on a newtype struct overrode its field's

---
 opg_derive/src/ast.rs | 7 ++++++-
 opg_derive/src/opg.rs | 4 ++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/opg_derive/src/ast.rs b/opg_derive/src/ast.rs
index 37cf8fd..12cd90b 100644
--- a/opg_derive/src/ast.rs
+++ b/opg_derive/src/ast.rs
@@ -123,12 +123,17 @@ fn enum_from_ast<'a>(
             .iter()
             .map(|variant| {
                 let attrs = attr::Variant::from_ast(cx, variant);
-                let (style, fields) = struct_from_ast(cx, &variant.fields);
+                let (style, mut fields) = struct_from_ast(cx, &variant.fields);
                 let style = match style {
                     // serialized as a unit variant
                     StructStyle::NewType if fields[0].attrs.skip_serializing => StructStyle::Unit,
                     style => style,
                 };
+                if let StructStyle::NewType = style {
+                    let field = &mut fields[0].attrs;
+                    field.explicit_model_type =
+                        field.explicit_model_type.or(attrs.explicit_model_type);
+                }
                 Variant {
                     ident: variant.ident.clone(),
                     attrs,
diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 9dc25b5..67b6b94 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -601,10 +601,10 @@ fn serialize_newtype_struct(container: &Container, field: &Field) -> proc_macro2
 
     let context_params = ContextParams::from(&field.attrs).or(&container.attrs);
 
-    let explicit_model_type = container
+    let explicit_model_type = field
         .attrs
         .explicit_model_type
-        .or(field.attrs.explicit_model_type);
+        .or(container.attrs.explicit_model_type);
 
     let body = match explicit_model_type {
         Some(explicit_model_type) if explicit_model_type != ExplicitModelType::Any => {
-- 
2.43.0

