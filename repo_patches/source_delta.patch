From a0fbe27789edec8b17806a920e4c78b1edccde8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:47 +0000
Subject: [PATCH 01/16] fix: verify the owner history of relations and property
 sets

The common root attributes of relations and property sets were left out of the
reference check, so a file whose owner history pointed at any other kind of
record was loaded.
---
 ifc_rs/src/properties/set.rs                               | 1 +
 ifc_rs/src/relations/rel_aggregates.rs                     | 1 +
 ifc_rs/src/relations/rel_associates_material.rs            | 1 +
 ifc_rs/src/relations/rel_contained_in_spatial_structure.rs | 1 +
 ifc_rs/src/relations/rel_declares.rs                       | 1 +
 ifc_rs/src/relations/rel_defines_by_properties.rs          | 1 +
 ifc_rs/src/relations/rel_defines_by_type.rs                | 1 +
 ifc_rs/src/relations/rel_fills_element.rs                  | 1 +
 ifc_rs/src/relations/rel_voids_element.rs                  | 1 +
 9 files changed, 9 insertions(+)

diff --git a/ifc_rs/src/properties/set.rs b/ifc_rs/src/properties/set.rs
index 009dfa3..392b0d6 100644
--- a/ifc_rs/src/properties/set.rs
+++ b/ifc_rs/src/properties/set.rs
@@ -31,6 +31,7 @@ use crate::{parser::*, prelude::*};
 /// https://standards.buildingsmart.org/IFC/DEV/IFC4_2/FINAL/HTML/schema/ifckernel/lexical/ifcpropertyset.htm
 #[derive(IfcVerify)]
 pub struct PropertySet {
+    #[inherited]
     root: Root,
 
     /// Contained set of properties. For property sets defined as part of the IFC Object model, the
diff --git a/ifc_rs/src/relations/rel_aggregates.rs b/ifc_rs/src/relations/rel_aggregates.rs
index 3ebd024..ec06747 100644
--- a/ifc_rs/src/relations/rel_aggregates.rs
+++ b/ifc_rs/src/relations/rel_aggregates.rs
@@ -19,6 +19,7 @@ use crate::{
 /// https://standards.buildingsmart.org/IFC/DEV/IFC4_2/FINAL/HTML/link/ifcrelaggregates.htm
 #[derive(IfcVerify)]
 pub struct RelAggregates {
+    #[inherited]
     root: Root,
 
     /// The object definition, either an object type or an object
diff --git a/ifc_rs/src/relations/rel_associates_material.rs b/ifc_rs/src/relations/rel_associates_material.rs
index 014a65c..74d16c7 100644
--- a/ifc_rs/src/relations/rel_associates_material.rs
+++ b/ifc_rs/src/relations/rel_associates_material.rs
@@ -18,6 +18,7 @@ use crate::{
 /// https://standards.buildingsmart.org/IFC/DEV/IFC4_2/FINAL/HTML/link/ifcrelassociatesmaterial.htm
 #[derive(IfcVerify)]
 pub struct RelAssociatesMaterial {
+    #[inherited]
     rel_associates: RelAssociates,
 
     /// Material definition assigned to the elements or element types.
diff --git a/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs b/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs
index f10d7b5..86085d6 100644
--- a/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs
+++ b/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs
@@ -19,6 +19,7 @@ use crate::prelude::*;
 /// https://standards.buildingsmart.org/IFC/DEV/IFC4_2/FINAL/HTML/link/ifcrelcontainedinspatialstructure.htm
 #[derive(IfcVerify)]
 pub struct RelContainedInSpatialStructure {
+    #[inherited]
     root: Root,
 
     /// Set of products, which are contained within this level of the
diff --git a/ifc_rs/src/relations/rel_declares.rs b/ifc_rs/src/relations/rel_declares.rs
index 0af6c46..170d5ab 100644
--- a/ifc_rs/src/relations/rel_declares.rs
+++ b/ifc_rs/src/relations/rel_declares.rs
@@ -19,6 +19,7 @@ use crate::{
 /// https://standards.buildingsmart.org/IFC/DEV/IFC4_2/FINAL/HTML/link/ifcreldeclares.htm
 #[derive(IfcVerify)]
 pub struct RelDeclares {
+    #[inherited]
     root: Root,
 
     /// Reference to the IfcProject to which additional information is assigned.
diff --git a/ifc_rs/src/relations/rel_defines_by_properties.rs b/ifc_rs/src/relations/rel_defines_by_properties.rs
index a53a448..e4590d6 100644
--- a/ifc_rs/src/relations/rel_defines_by_properties.rs
+++ b/ifc_rs/src/relations/rel_defines_by_properties.rs
@@ -26,6 +26,7 @@ use crate::prelude::*;
 /// https://standards.buildingsmart.org/IFC/DEV/IFC4_2/FINAL/HTML/schema/ifckernel/lexical/ifcreldefinesbyproperties.htm
 #[derive(IfcVerify)]
 pub struct RelDefinesByProperties {
+    #[inherited]
     root: Root,
 
     /// Reference to the objects (or single object) to which the property definition applies.
diff --git a/ifc_rs/src/relations/rel_defines_by_type.rs b/ifc_rs/src/relations/rel_defines_by_type.rs
index b3c3c53..ca2747f 100644
--- a/ifc_rs/src/relations/rel_defines_by_type.rs
+++ b/ifc_rs/src/relations/rel_defines_by_type.rs
@@ -22,6 +22,7 @@ use crate::prelude::*;
 /// https://standards.buildingsmart.org/IFC/DEV/IFC4_2/FINAL/HTML/link/ifcreldefinesbytype.htm
 #[derive(IfcVerify)]
 pub struct RelDefinesByType {
+    #[inherited]
     root: Root,
 
     pub related_objects: IfcList<Id>,
diff --git a/ifc_rs/src/relations/rel_fills_element.rs b/ifc_rs/src/relations/rel_fills_element.rs
index 7eeda55..1dc8dd2 100644
--- a/ifc_rs/src/relations/rel_fills_element.rs
+++ b/ifc_rs/src/relations/rel_fills_element.rs
@@ -17,6 +17,7 @@ use crate::{
 /// https://standards.buildingsmart.org/IFC/DEV/IFC4_2/FINAL/HTML/schema/ifcproductextension/lexical/ifcrelfillselement.htm
 #[derive(IfcVerify)]
 pub struct RelFillsElement {
+    #[inherited]
     root: Root,
     /// Opening Element being filled by virtue of this relationship.
     relating_opening_element: TypedId<OpeningElement>,
diff --git a/ifc_rs/src/relations/rel_voids_element.rs b/ifc_rs/src/relations/rel_voids_element.rs
index 3ab148b..3430394 100644
--- a/ifc_rs/src/relations/rel_voids_element.rs
+++ b/ifc_rs/src/relations/rel_voids_element.rs
@@ -20,6 +20,7 @@ use crate::{
 
 #[derive(IfcVerify)]
 pub struct RelVoidsElement {
+    #[inherited]
     root: Root,
     /// Reference to element in which a void is created by associated feature
     /// subtraction element.
-- 
2.43.0


From 445ab779362b616a5a869081ae55467b6fa4a431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:35 +0000
Subject: [PATCH 02/16] fix: allow layout inside the brackets of every record
 and list

Fourteen record kinds and all lists did not accept white space or comments
behind the opening or before the closing bracket; such records were silently
kept as unknown text.
---
 ifc_rs/src/geometry/axis/deserialize.rs             | 13 ++++++++-----
 .../src/geometry/indexed_poly_curve/deserialize.rs  |  9 ++++++---
 ifc_rs/src/geometry/point_list/deserialize.rs       | 13 ++++++++-----
 .../geometry/representation_context/deserialize.rs  |  9 ++++++---
 .../representation_subcontext/deserialize.rs        |  9 ++++++---
 ifc_rs/src/objects/actor_role/deserialize.rs        |  9 ++++++---
 ifc_rs/src/objects/address/deserialize.rs           | 13 ++++++++-----
 ifc_rs/src/objects/application/deserialize.rs       |  8 +++++---
 ifc_rs/src/objects/organization/deserialize.rs      |  7 ++++---
 ifc_rs/src/objects/owner_history/deserialize.rs     |  7 ++++---
 ifc_rs/src/objects/person/deserialize.rs            |  9 ++++++---
 ifc_rs/src/objects/person_and_org/deserialize.rs    |  9 ++++++---
 ifc_rs/src/parser/list.rs                           |  4 ++--
 13 files changed, 75 insertions(+), 44 deletions(-)

diff --git a/ifc_rs/src/geometry/axis/deserialize.rs b/ifc_rs/src/geometry/axis/deserialize.rs
index 48cecf4..e673d8b 100644
--- a/ifc_rs/src/geometry/axis/deserialize.rs
+++ b/ifc_rs/src/geometry/axis/deserialize.rs
@@ -6,15 +6,18 @@ use winnow::{
 use super::{Axis2D, Axis3D};
 use crate::{
     id::TypedId,
-    parser::{comma::Comma, optional::OptionalParameter, IFCParse, IFCParser},
+    parser::{
+        comma::Comma, optional::OptionalParameter, p_space_or_comment_surrounded, IFCParse,
+        IFCParser,
+    },
 };
 
 impl IFCParse for Axis2D {
     fn parse<'a>() -> impl IFCParser<'a, Self> {
         delimited(
-            "IFCAXIS2PLACEMENT2D(",
+            p_space_or_comment_surrounded("IFCAXIS2PLACEMENT2D("),
             separated_pair(TypedId::parse(), Comma::parse(), OptionalParameter::parse()),
-            ");",
+            p_space_or_comment_surrounded(");"),
         )
         .map(|(location, local_x)| Self { location, local_x })
     }
@@ -23,7 +26,7 @@ impl IFCParse for Axis2D {
 impl IFCParse for Axis3D {
     fn parse<'a>() -> impl IFCParser<'a, Self> {
         delimited(
-            "IFCAXIS2PLACEMENT3D(",
+            p_space_or_comment_surrounded("IFCAXIS2PLACEMENT3D("),
             (
                 TypedId::parse(),
                 Comma::parse(),
@@ -31,7 +34,7 @@ impl IFCParse for Axis3D {
                 Comma::parse(),
                 OptionalParameter::parse(),
             ),
-            ");",
+            p_space_or_comment_surrounded(");"),
         )
         .map(|(location, _, local_z, _, local_x)| Self {
             location,
diff --git a/ifc_rs/src/geometry/indexed_poly_curve/deserialize.rs b/ifc_rs/src/geometry/indexed_poly_curve/deserialize.rs
index 9082733..21cc0d2 100644
--- a/ifc_rs/src/geometry/indexed_poly_curve/deserialize.rs
+++ b/ifc_rs/src/geometry/indexed_poly_curve/deserialize.rs
@@ -3,13 +3,16 @@ use winnow::{combinator::delimited, Parser};
 use crate::{
     geometry::indexed_poly_curve::IndexedPolyCurve,
     id::Id,
-    parser::{comma::Comma, optional::OptionalParameter, IFCParse, IFCParser},
+    parser::{
+        comma::Comma, optional::OptionalParameter, p_space_or_comment_surrounded, IFCParse,
+        IFCParser,
+    },
 };
 
 impl IFCParse for IndexedPolyCurve {
     fn parse<'a>() -> impl IFCParser<'a, Self> {
         delimited(
-            "IFCINDEXEDPOLYCURVE(",
+            p_space_or_comment_surrounded("IFCINDEXEDPOLYCURVE("),
             (
                 Id::parse(),
                 Comma::parse(),
@@ -17,7 +20,7 @@ impl IFCParse for IndexedPolyCurve {
                 Comma::parse(),
                 OptionalParameter::parse(),
             ),
-            ");",
+            p_space_or_comment_surrounded(");"),
         )
         .map(|(points, _, segments, _, self_intersect)| Self {
             points,
diff --git a/ifc_rs/src/geometry/point_list/deserialize.rs b/ifc_rs/src/geometry/point_list/deserialize.rs
index 03b613d..e853344 100644
--- a/ifc_rs/src/geometry/point_list/deserialize.rs
+++ b/ifc_rs/src/geometry/point_list/deserialize.rs
@@ -2,7 +2,10 @@ use winnow::{combinator::delimited, Parser};
 
 use crate::{
     geometry::point_list::{PointList2D, PointList3D},
-    parser::{comma::Comma, list::IfcList, optional::OptionalParameter, IFCParse, IFCParser},
+    parser::{
+        comma::Comma, list::IfcList, optional::OptionalParameter, p_space_or_comment_surrounded,
+        IFCParse, IFCParser,
+    },
 };
 
 impl IFCParse for PointList2D {
@@ -11,9 +14,9 @@ impl IFCParse for PointList2D {
         Self: Sized,
     {
         delimited(
-            "IFCCARTESIANPOINTLIST2D(",
+            p_space_or_comment_surrounded("IFCCARTESIANPOINTLIST2D("),
             (IfcList::parse(), Comma::parse(), OptionalParameter::parse()),
-            ");",
+            p_space_or_comment_surrounded(");"),
         )
         .map(|(coord_list, _, tag_list)| Self {
             coord_list,
@@ -28,9 +31,9 @@ impl IFCParse for PointList3D {
         Self: Sized,
     {
         delimited(
-            "IFCCARTESIANPOINTLIST3D(",
+            p_space_or_comment_surrounded("IFCCARTESIANPOINTLIST3D("),
             (IfcList::parse(), Comma::parse(), OptionalParameter::parse()),
-            ");",
+            p_space_or_comment_surrounded(");"),
         )
         .map(|(coord_list, _, tag_list)| Self {
             coord_list,
diff --git a/ifc_rs/src/geometry/representation_context/deserialize.rs b/ifc_rs/src/geometry/representation_context/deserialize.rs
index 1c3bde4..f24532c 100644
--- a/ifc_rs/src/geometry/representation_context/deserialize.rs
+++ b/ifc_rs/src/geometry/representation_context/deserialize.rs
@@ -2,14 +2,17 @@ use super::GeometricRepresentationContext;
 use crate::{
     geometry::dimension_count::DimensionCount,
     id::Id,
-    parser::{comma::Comma, optional::OptionalParameter, IFCParse, IFCParser},
+    parser::{
+        comma::Comma, optional::OptionalParameter, p_space_or_comment_surrounded, IFCParse,
+        IFCParser,
+    },
 };
 
 impl IFCParse for GeometricRepresentationContext {
     fn parse<'a>() -> impl IFCParser<'a, Self> {
         winnow::seq! {
             GeometricRepresentationContext {
-                _: "IFCGEOMETRICREPRESENTATIONCONTEXT(",
+                _: p_space_or_comment_surrounded("IFCGEOMETRICREPRESENTATIONCONTEXT("),
                 context_identifier: OptionalParameter::parse(),
                 _: Comma::parse(),
                 context_type: OptionalParameter::parse(),
@@ -21,7 +24,7 @@ impl IFCParse for GeometricRepresentationContext {
                 world_coord_system: Id::parse(),
                 _: Comma::parse(),
                 true_north: OptionalParameter::parse(),
-                _: ");",
+                _: p_space_or_comment_surrounded(");"),
             }
         }
     }
diff --git a/ifc_rs/src/geometry/representation_subcontext/deserialize.rs b/ifc_rs/src/geometry/representation_subcontext/deserialize.rs
index 33463a6..d96dc67 100644
--- a/ifc_rs/src/geometry/representation_subcontext/deserialize.rs
+++ b/ifc_rs/src/geometry/representation_subcontext/deserialize.rs
@@ -6,14 +6,17 @@ use crate::{
         representation_subcontext::GeometricRepresentationSubContext,
     },
     id::{Id, TypedId},
-    parser::{comma::Comma, optional::OptionalParameter, IFCParse, IFCParser},
+    parser::{
+        comma::Comma, optional::OptionalParameter, p_space_or_comment_surrounded, IFCParse,
+        IFCParser,
+    },
 };
 
 impl IFCParse for GeometricRepresentationSubContext {
     fn parse<'a>() -> impl IFCParser<'a, Self> {
         winnow::seq! {
             GeometricRepresentationSubContext {
-                _: "IFCGEOMETRICREPRESENTATIONSUBCONTEXT(",
+                _: p_space_or_comment_surrounded("IFCGEOMETRICREPRESENTATIONSUBCONTEXT("),
                 context_identifier: OptionalParameter::parse(),
                 _: Comma::parse(),
                 context_type: OptionalParameter::parse(),
@@ -33,7 +36,7 @@ impl IFCParse for GeometricRepresentationSubContext {
                 target_view: GeometricProjection::parse(),
                 _: Comma::parse(),
                 user_defined_target_view: OptionalParameter::parse(),
-                _: ");"
+                _: p_space_or_comment_surrounded(");")
             }
         }
     }
diff --git a/ifc_rs/src/objects/actor_role/deserialize.rs b/ifc_rs/src/objects/actor_role/deserialize.rs
index 6931a29..eda0d4c 100644
--- a/ifc_rs/src/objects/actor_role/deserialize.rs
+++ b/ifc_rs/src/objects/actor_role/deserialize.rs
@@ -2,13 +2,16 @@ use winnow::{combinator::delimited, Parser};
 
 use crate::{
     objects::actor_role::{ActorRole, Role},
-    parser::{comma::Comma, optional::OptionalParameter, IFCParse, IFCParser},
+    parser::{
+        comma::Comma, optional::OptionalParameter, p_space_or_comment_surrounded, IFCParse,
+        IFCParser,
+    },
 };
 
 impl IFCParse for ActorRole {
     fn parse<'a>() -> impl IFCParser<'a, Self> {
         delimited(
-            "IFCACTORROLE(",
+            p_space_or_comment_surrounded("IFCACTORROLE("),
             (
                 Role::parse(),
                 Comma::parse(),
@@ -16,7 +19,7 @@ impl IFCParse for ActorRole {
                 Comma::parse(),
                 OptionalParameter::parse(),
             ),
-            ");",
+            p_space_or_comment_surrounded(");"),
         )
         .map(|(role, _, user_defined_role, _, description)| Self {
             role,
diff --git a/ifc_rs/src/objects/address/deserialize.rs b/ifc_rs/src/objects/address/deserialize.rs
index 90d1a22..43f7335 100644
--- a/ifc_rs/src/objects/address/deserialize.rs
+++ b/ifc_rs/src/objects/address/deserialize.rs
@@ -2,13 +2,16 @@ use winnow::{combinator::delimited, Parser};
 
 use crate::{
     objects::address::{PostalAddress, TelecomAddress},
-    parser::{comma::Comma, optional::OptionalParameter, IFCParse, IFCParser},
+    parser::{
+        comma::Comma, optional::OptionalParameter, p_space_or_comment_surrounded, IFCParse,
+        IFCParser,
+    },
 };
 
 impl IFCParse for TelecomAddress {
     fn parse<'a>() -> impl IFCParser<'a, Self> {
         delimited(
-            "IFCTELECOMADDRESS(",
+            p_space_or_comment_surrounded("IFCTELECOMADDRESS("),
             (
                 OptionalParameter::parse(),
                 Comma::parse(),
@@ -26,7 +29,7 @@ impl IFCParse for TelecomAddress {
                 Comma::parse(),
                 OptionalParameter::parse(),
             ),
-            ");",
+            p_space_or_comment_surrounded(");"),
         )
         .map(
             |(
@@ -62,7 +65,7 @@ impl IFCParse for TelecomAddress {
 impl IFCParse for PostalAddress {
     fn parse<'a>() -> impl IFCParser<'a, Self> {
         delimited(
-            "IFCPOSTALADDRESS(",
+            p_space_or_comment_surrounded("IFCPOSTALADDRESS("),
             (
                 OptionalParameter::parse(),
                 Comma::parse(),
@@ -84,7 +87,7 @@ impl IFCParse for PostalAddress {
                 Comma::parse(),
                 OptionalParameter::parse(),
             ),
-            ");",
+            p_space_or_comment_surrounded(");"),
         )
         .map(
             |(
diff --git a/ifc_rs/src/objects/application/deserialize.rs b/ifc_rs/src/objects/application/deserialize.rs
index 596ee75..ce48ebf 100644
--- a/ifc_rs/src/objects/application/deserialize.rs
+++ b/ifc_rs/src/objects/application/deserialize.rs
@@ -1,14 +1,16 @@
 use crate::{
     id::TypedId,
     objects::application::Application,
-    parser::{comma::Comma, string::StringPrimitive, IFCParse, IFCParser},
+    parser::{
+        comma::Comma, p_space_or_comment_surrounded, string::StringPrimitive, IFCParse, IFCParser,
+    },
 };
 
 impl IFCParse for Application {
     fn parse<'a>() -> impl IFCParser<'a, Self> {
         winnow::seq! {
             Application {
-                _ : "IFCAPPLICATION(",
+                _ : p_space_or_comment_surrounded("IFCAPPLICATION("),
                 application_developer: TypedId::parse(),
                 _: Comma::parse(),
                 version: StringPrimitive::parse(),
@@ -16,7 +18,7 @@ impl IFCParse for Application {
                 application_full_name: StringPrimitive::parse(),
                 _: Comma::parse(),
                 application_identifier: StringPrimitive::parse(),
-                _: ");",
+                _: p_space_or_comment_surrounded(");"),
             }
         }
     }
diff --git a/ifc_rs/src/objects/organization/deserialize.rs b/ifc_rs/src/objects/organization/deserialize.rs
index b853465..fc35516 100644
--- a/ifc_rs/src/objects/organization/deserialize.rs
+++ b/ifc_rs/src/objects/organization/deserialize.rs
@@ -3,14 +3,15 @@ use winnow::{combinator::delimited, Parser};
 use crate::{
     objects::organization::Organization,
     parser::{
-        comma::Comma, optional::OptionalParameter, string::StringPrimitive, IFCParse, IFCParser,
+        comma::Comma, optional::OptionalParameter, p_space_or_comment_surrounded,
+        string::StringPrimitive, IFCParse, IFCParser,
     },
 };
 
 impl IFCParse for Organization {
     fn parse<'a>() -> impl IFCParser<'a, Self> {
         delimited(
-            "IFCORGANIZATION(",
+            p_space_or_comment_surrounded("IFCORGANIZATION("),
             (
                 OptionalParameter::parse(),
                 Comma::parse(),
@@ -22,7 +23,7 @@ impl IFCParse for Organization {
                 Comma::parse(),
                 OptionalParameter::parse(),
             ),
-            ");",
+            p_space_or_comment_surrounded(");"),
         )
         .map(
             |(id, _, name, _, description, _, roles, _, addresses)| Self {
diff --git a/ifc_rs/src/objects/owner_history/deserialize.rs b/ifc_rs/src/objects/owner_history/deserialize.rs
index ece44d9..0b43011 100644
--- a/ifc_rs/src/objects/owner_history/deserialize.rs
+++ b/ifc_rs/src/objects/owner_history/deserialize.rs
@@ -3,14 +3,15 @@ use winnow::{combinator::delimited, Parser};
 use crate::{
     objects::{change_action::ChangeAction, owner_history::OwnerHistory},
     parser::{
-        comma::Comma, optional::OptionalParameter, timestamp::IfcTimestamp, IFCParse, IFCParser,
+        comma::Comma, optional::OptionalParameter, p_space_or_comment_surrounded,
+        timestamp::IfcTimestamp, IFCParse, IFCParser,
     },
 };
 
 impl IFCParse for OwnerHistory {
     fn parse<'a>() -> impl IFCParser<'a, Self> {
         delimited(
-            "IFCOWNERHISTORY(",
+            p_space_or_comment_surrounded("IFCOWNERHISTORY("),
             (
                 OptionalParameter::parse(),
                 Comma::parse(),
@@ -28,7 +29,7 @@ impl IFCParse for OwnerHistory {
                 Comma::parse(),
                 IfcTimestamp::parse(),
             ),
-            ");",
+            p_space_or_comment_surrounded(");"),
         )
         .map(
             |(
diff --git a/ifc_rs/src/objects/person/deserialize.rs b/ifc_rs/src/objects/person/deserialize.rs
index c235276..c72f47d 100644
--- a/ifc_rs/src/objects/person/deserialize.rs
+++ b/ifc_rs/src/objects/person/deserialize.rs
@@ -2,13 +2,16 @@ use winnow::{combinator::delimited, Parser};
 
 use crate::{
     objects::person::Person,
-    parser::{comma::Comma, optional::OptionalParameter, IFCParse, IFCParser},
+    parser::{
+        comma::Comma, optional::OptionalParameter, p_space_or_comment_surrounded, IFCParse,
+        IFCParser,
+    },
 };
 
 impl IFCParse for Person {
     fn parse<'a>() -> impl IFCParser<'a, Self> {
         delimited(
-            "IFCPERSON(",
+            p_space_or_comment_surrounded("IFCPERSON("),
             (
                 OptionalParameter::parse(),
                 Comma::parse(),
@@ -26,7 +29,7 @@ impl IFCParse for Person {
                 Comma::parse(),
                 OptionalParameter::parse(),
             ),
-            ");",
+            p_space_or_comment_surrounded(");"),
         )
         .map(
             |(
diff --git a/ifc_rs/src/objects/person_and_org/deserialize.rs b/ifc_rs/src/objects/person_and_org/deserialize.rs
index 860315c..33170d0 100644
--- a/ifc_rs/src/objects/person_and_org/deserialize.rs
+++ b/ifc_rs/src/objects/person_and_org/deserialize.rs
@@ -3,13 +3,16 @@ use winnow::{combinator::delimited, Parser};
 use crate::{
     id::Id,
     objects::person_and_org::PersonAndOrganization,
-    parser::{comma::Comma, optional::OptionalParameter, IFCParse, IFCParser},
+    parser::{
+        comma::Comma, optional::OptionalParameter, p_space_or_comment_surrounded, IFCParse,
+        IFCParser,
+    },
 };
 
 impl IFCParse for PersonAndOrganization {
     fn parse<'a>() -> impl IFCParser<'a, Self> {
         delimited(
-            "IFCPERSONANDORGANIZATION(",
+            p_space_or_comment_surrounded("IFCPERSONANDORGANIZATION("),
             (
                 Id::parse(),
                 Comma::parse(),
@@ -17,7 +20,7 @@ impl IFCParse for PersonAndOrganization {
                 Comma::parse(),
                 OptionalParameter::parse(),
             ),
-            ");",
+            p_space_or_comment_surrounded(");"),
         )
         .map(|(the_person, _, the_organization, _, roles)| Self {
             the_person: the_person.into(),
diff --git a/ifc_rs/src/parser/list.rs b/ifc_rs/src/parser/list.rs
index 972bb21..d7ef246 100644
--- a/ifc_rs/src/parser/list.rs
+++ b/ifc_rs/src/parser/list.rs
@@ -8,7 +8,7 @@ use winnow::{
 
 use crate::parser::IFCParse;
 
-use super::p_space_or_comment_surrounded;
+use super::{p_space_or_comment, p_space_or_comment_surrounded};
 
 #[derive(Debug, Clone)]
 pub struct IfcList<T>(pub Vec<T>);
@@ -30,7 +30,7 @@ impl<T: IFCParse> IFCParse for IfcList<T> {
     {
         let p_t_opt_comma = terminated(T::parse(), p_space_or_comment_surrounded(opt(",")));
         preceded(
-            "(",
+            ("(", p_space_or_comment()),
             repeat_till(.., p_t_opt_comma, ")").map(|(v, _): (Vec<_>, _)| v),
         )
         .map(Self)
-- 
2.43.0


From 1735c4f85c07465ce3415e7ee7dc61a7fc3422e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:26 +0000
Subject: [PATCH 03/16] fix: report a reference to a record that does not exist
 instead of panicking

---
 ifc_rs/src/meta/datamap/mod.rs    |  9 +++++++++
 ifc_rs_verify_derive/src/field.rs | 24 ++++++++++++------------
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/ifc_rs/src/meta/datamap/mod.rs b/ifc_rs/src/meta/datamap/mod.rs
index 73531d6..1ca95fd 100644
--- a/ifc_rs/src/meta/datamap/mod.rs
+++ b/ifc_rs/src/meta/datamap/mod.rs
@@ -55,6 +55,15 @@ impl DataMap {
         &**self.0.get(&id.into()).unwrap()
     }
 
+    /// like [`Self::get_untyped`], but reports an id without a record as an error
+    pub(crate) fn lookup(&self, id: impl Into<Id>) -> anyhow::Result<&dyn IfcType> {
+        let id = id.into();
+        self.0
+            .get(&id)
+            .map(|ifc_type| &**ifc_type)
+            .ok_or_else(|| anyhow::anyhow!("no record with id {id}"))
+    }
+
     pub fn get_mut<T: IfcType>(&mut self, typed_id: TypedId<T>) -> &mut T {
         self.0
             .get_mut(&typed_id.id())
diff --git a/ifc_rs_verify_derive/src/field.rs b/ifc_rs_verify_derive/src/field.rs
index bfbd6bd..772337f 100644
--- a/ifc_rs_verify_derive/src/field.rs
+++ b/ifc_rs_verify_derive/src/field.rs
@@ -149,7 +149,7 @@ impl ToTokens for Field {
                     quote! {
 
                         let id = self.#var_name;
-                        let t = ifc.data.get_untyped(id);
+                        let t = ifc.data.lookup(id)?;
                         #multiple
 
                     }
@@ -160,7 +160,7 @@ impl ToTokens for Field {
                     quote! {
 
                         self.#var_name.0.iter().try_for_each(|id| {
-                            let t = ifc.data.get_untyped(*id);
+                            let t = ifc.data.lookup(*id)?;
                             #multiple
 
                             Ok(())
@@ -174,7 +174,7 @@ impl ToTokens for Field {
                     quote! {
 
                         let id = self.#var_name.id();
-                        let t = ifc.data.get_untyped(id);
+                        let t = ifc.data.lookup(id)?;
                         #single
 
                     }
@@ -186,7 +186,7 @@ impl ToTokens for Field {
 
                         self.#var_name.0.iter().try_for_each(|typed_id| {
                             let id = typed_id.id();
-                            let t = ifc.data.get_untyped(id);
+                            let t = ifc.data.lookup(id)?;
                             #single
 
                             Ok(())
@@ -201,7 +201,7 @@ impl ToTokens for Field {
 
                         if let Some(typed_id) = self.#var_name.id() {
                             let id = typed_id.id();
-                            let t = ifc.data.get_untyped(id);
+                            let t = ifc.data.lookup(id)?;
                             #single
                         }
 
@@ -215,7 +215,7 @@ impl ToTokens for Field {
                         self.#var_name.0.iter().try_for_each(|id_or| {
                             if let Some(typed_id) = id_or.id() {
                                 let id = typed_id.id();
-                                let t = ifc.data.get_untyped(id);
+                                let t = ifc.data.lookup(id)?;
                                 #single
                             }
 
@@ -232,7 +232,7 @@ impl ToTokens for Field {
                     quote! {
 
                         if let Some(id) = self.#var_name.custom() {
-                            let t = ifc.data.get_untyped(*id);
+                            let t = ifc.data.lookup(*id)?;
                             #multiple
                         }
 
@@ -245,7 +245,7 @@ impl ToTokens for Field {
 
                         if let Some(#var_name) = self.#var_name.custom() {
                             #var_name.0.iter().try_for_each(|id| {
-                                let t = ifc.data.get_untyped(*id);
+                                let t = ifc.data.lookup(*id)?;
                                 #multiple
 
                                 Ok(())
@@ -261,7 +261,7 @@ impl ToTokens for Field {
 
                         if let Some(typed_id) = self.#var_name.custom() {
                             let id = typed_id.id();
-                            let t = ifc.data.get_untyped(id);
+                            let t = ifc.data.lookup(id)?;
                             #single
                         }
 
@@ -275,7 +275,7 @@ impl ToTokens for Field {
                         if let Some(#var_name) = self.#var_name.custom() {
                             #var_name.0.iter().try_for_each(|typed_id| {
                                 let id = typed_id.id();
-                                let t = ifc.data.get_untyped(id);
+                                let t = ifc.data.lookup(id)?;
                                 #single
 
                                 Ok(())
@@ -292,7 +292,7 @@ impl ToTokens for Field {
                         if let Some(id_or) = self.#var_name.custom() {
                             if let Some(typed_id) = id_or.id() {
                                 let id = typed_id.id();
-                                let t = ifc.data.get_untyped(id);
+                                let t = ifc.data.lookup(id)?;
                                 #single
                             }
                         }
@@ -308,7 +308,7 @@ impl ToTokens for Field {
                             #var_name.0.iter().try_for_each(|id_or| {
                                 if let Some(typed_id) = id_or.id() {
                                     let id = typed_id.id();
-                                    let t = ifc.data.get_untyped(id);
+                                    let t = ifc.data.lookup(id)?;
                                     #single
                                 }
 
-- 
2.43.0


From 91c06fa5c4294739c704f2a5ac52f8ce0445bdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:37 +0000
Subject: [PATCH 04/16] fix: reject out-of-range and malformed time stamps
 instead of panicking

---
 ifc_rs/src/meta/header/deserialize.rs | 7 +++----
 ifc_rs/src/parser/timestamp.rs        | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/ifc_rs/src/meta/header/deserialize.rs b/ifc_rs/src/meta/header/deserialize.rs
index 16c42fe..0d9e689 100644
--- a/ifc_rs/src/meta/header/deserialize.rs
+++ b/ifc_rs/src/meta/header/deserialize.rs
@@ -114,18 +114,17 @@ impl Header {
     }
 
     fn p_name<'a>() -> impl IFCParser<'a, FileDetails> {
-        // TODO: Better ideas for failing here
-        fn time_from_string(s: String) -> DateTime<Utc> {
+        fn time_from_string(s: String) -> Option<DateTime<Utc>> {
             let date_res = DateTime::parse_from_rfc3339(s.as_str())
                 .or_else(|_| DateTime::parse_from_rfc3339(format!("{s}Z").as_str()));
-            date_res.unwrap().into()
+            date_res.ok().map(Into::into)
         }
         // filename can be $ or an actual filename, see #1, AutoCAD related
         let mut p_name = alt((
             "$".map(|_| FileName::default()),
             p_quote_word().map(FileName),
         ));
-        let mut p_time = p_quote_word().map(time_from_string).map(TimeStamp);
+        let mut p_time = p_quote_word().verify_map(time_from_string).map(TimeStamp);
         let mut p_author = delimited(
             "(",
             separated(
diff --git a/ifc_rs/src/parser/timestamp.rs b/ifc_rs/src/parser/timestamp.rs
index 1548461..c2a6c67 100644
--- a/ifc_rs/src/parser/timestamp.rs
+++ b/ifc_rs/src/parser/timestamp.rs
@@ -24,7 +24,7 @@ impl IFCParse for IfcTimestamp {
     where
         Self: Sized,
     {
-        dec_int.map(|i| Self(chrono::DateTime::from_timestamp(i, 0).unwrap()))
+        dec_int.verify_map(|i| chrono::DateTime::from_timestamp(i, 0).map(Self))
     }
 }
 
-- 
2.43.0


From 77384cbfb16800fd4cbdb68e19b2a611f1ffcf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:03 +0000
Subject: [PATCH 05/16] fix: keep semicolons in texts and comments of
 unsupported records

---
 ifc_rs/src/parser/dummy.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/ifc_rs/src/parser/dummy.rs b/ifc_rs/src/parser/dummy.rs
index 823b343..c08162a 100644
--- a/ifc_rs/src/parser/dummy.rs
+++ b/ifc_rs/src/parser/dummy.rs
@@ -18,10 +18,20 @@ impl IFCParse for Dummy {
     where
         Self: Sized,
     {
-        use super::p_space_or_comment_surrounded;
-        use winnow::{combinator::repeat_till, token::any, Parser};
-
-        repeat_till(.., any, p_space_or_comment_surrounded(";"))
+        use super::{p_comment, p_space_or_comment_surrounded};
+        use winnow::{
+            combinator::{alt, repeat_till},
+            token::{any, take_until},
+            Parser,
+        };
+
+        // a semicolon inside of a text or a comment doesn't end the record
+        let p_part = alt((
+            ("'", take_until(.., "'"), "'").take(),
+            p_comment().take(),
+            any.take(),
+        ));
+        repeat_till(.., p_part, p_space_or_comment_surrounded(";"))
             .map(|(s, _): (String, _)| Self { s })
     }
 }
-- 
2.43.0


From 9c278876ae12c1610dcbfb2291d3961b3838b0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:48 +0000
Subject: [PATCH 06/16] fix: allow layout inside the brackets of values

---
 ifc_rs/src/units/measure/plane_angle.rs    | 3 ++-
 ifc_rs/src/values/bool.rs                  | 7 +++++--
 ifc_rs/src/values/identifier.rs            | 7 +++++--
 ifc_rs/src/values/label.rs                 | 7 +++++--
 ifc_rs/src/values/real.rs                  | 7 +++++--
 ifc_rs/src/values/thermal_transmittance.rs | 4 ++--
 6 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/ifc_rs/src/units/measure/plane_angle.rs b/ifc_rs/src/units/measure/plane_angle.rs
index bc84c46..406413b 100644
--- a/ifc_rs/src/units/measure/plane_angle.rs
+++ b/ifc_rs/src/units/measure/plane_angle.rs
@@ -19,7 +19,8 @@ impl IFCParse for PlaneAngleMeasure {
     fn parse<'a>() -> impl IFCParser<'a, Self> {
         winnow::seq! {
             PlaneAngleMeasure {
-                _: p_space_or_comment_surrounded("IFCPLANEANGLEMEASURE("),
+                _: p_space_or_comment_surrounded("IFCPLANEANGLEMEASURE"),
+                _: p_space_or_comment_surrounded("("),
 
                 value: RealPrimitive::parse(),
 
diff --git a/ifc_rs/src/values/bool.rs b/ifc_rs/src/values/bool.rs
index 9d5a781..ae16a0a 100644
--- a/ifc_rs/src/values/bool.rs
+++ b/ifc_rs/src/values/bool.rs
@@ -16,8 +16,11 @@ impl IFCParse for BoolValue {
         Self: Sized,
     {
         delimited(
-            (alt(("IFCBOOLEAN", "IfcBoolean")), "("),
-            BoolPrimitive::parse(),
+            (
+                alt(("IFCBOOLEAN", "IfcBoolean")),
+                p_space_or_comment_surrounded("("),
+            ),
+            p_space_or_comment_surrounded(BoolPrimitive::parse()),
             ")",
         )
         .map(Self)
diff --git a/ifc_rs/src/values/identifier.rs b/ifc_rs/src/values/identifier.rs
index 70229fc..9e26fb3 100644
--- a/ifc_rs/src/values/identifier.rs
+++ b/ifc_rs/src/values/identifier.rs
@@ -16,8 +16,11 @@ impl IFCParse for IdentifierValue {
         Self: Sized,
     {
         delimited(
-            (alt(("IFCIDENTIFIER", "IfcIdentifier")), "("),
-            StringPrimitive::parse(),
+            (
+                alt(("IFCIDENTIFIER", "IfcIdentifier")),
+                p_space_or_comment_surrounded("("),
+            ),
+            p_space_or_comment_surrounded(StringPrimitive::parse()),
             ")",
         )
         .map(Self)
diff --git a/ifc_rs/src/values/label.rs b/ifc_rs/src/values/label.rs
index c380be8..625ec3e 100644
--- a/ifc_rs/src/values/label.rs
+++ b/ifc_rs/src/values/label.rs
@@ -16,8 +16,11 @@ impl IFCParse for LabelValue {
         Self: Sized,
     {
         delimited(
-            (alt(("IFCLABEL", "IfcLabel")), "("),
-            StringPrimitive::parse(),
+            (
+                alt(("IFCLABEL", "IfcLabel")),
+                p_space_or_comment_surrounded("("),
+            ),
+            p_space_or_comment_surrounded(StringPrimitive::parse()),
             ")",
         )
         .map(Self)
diff --git a/ifc_rs/src/values/real.rs b/ifc_rs/src/values/real.rs
index 990c66f..1663951 100644
--- a/ifc_rs/src/values/real.rs
+++ b/ifc_rs/src/values/real.rs
@@ -17,8 +17,11 @@ impl IFCParse for RealValue {
         Self: Sized,
     {
         delimited(
-            (alt(("IFCREAL", "IfcReal")), "("),
-            RealPrimitive::parse(),
+            (
+                alt(("IFCREAL", "IfcReal")),
+                p_space_or_comment_surrounded("("),
+            ),
+            p_space_or_comment_surrounded(RealPrimitive::parse()),
             ")",
         )
         .map(Self)
diff --git a/ifc_rs/src/values/thermal_transmittance.rs b/ifc_rs/src/values/thermal_transmittance.rs
index a8047d1..ce03d01 100644
--- a/ifc_rs/src/values/thermal_transmittance.rs
+++ b/ifc_rs/src/values/thermal_transmittance.rs
@@ -21,9 +21,9 @@ impl IFCParse for ThermalTransmittanceValue {
                     "IFCTHERMALTRANSMITTANCEMEASURE",
                     "IfcThermaltransmittancemeasure",
                 )),
-                "(",
+                p_space_or_comment_surrounded("("),
             ),
-            RealPrimitive::parse(),
+            p_space_or_comment_surrounded(RealPrimitive::parse()),
             ")",
         )
         .map(Self)
-- 
2.43.0


From 7fa116df97b72b2330d0a5e7ae0df9f48a561f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:02 +0000
Subject: [PATCH 07/16] fix: write an apostrophe inside of a text twice

---
 ifc_rs/src/parser/mod.rs    | 5 +++++
 ifc_rs/src/parser/string.rs | 4 ++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/ifc_rs/src/parser/mod.rs b/ifc_rs/src/parser/mod.rs
index 0322e8d..80f7aeb 100644
--- a/ifc_rs/src/parser/mod.rs
+++ b/ifc_rs/src/parser/mod.rs
@@ -59,6 +59,11 @@ pub(crate) fn p_quote_word<'a>() -> impl IFCParser<'a, String> {
     delimited("'", p_word_until('\''), "'")
 }
 
+/// a quoted text, in which an apostrophe is written twice
+pub(crate) fn quote(s: &str) -> String {
+    format!("'{}'", s.replace('\'', "''"))
+}
+
 pub(crate) fn p_comment<'a>() -> impl IFCParser<'a, ()> {
     preceded(
         "/*",
diff --git a/ifc_rs/src/parser/string.rs b/ifc_rs/src/parser/string.rs
index 74a0e3e..ac97d08 100644
--- a/ifc_rs/src/parser/string.rs
+++ b/ifc_rs/src/parser/string.rs
@@ -2,7 +2,7 @@ use std::fmt::Display;
 
 use winnow::Parser;
 
-use crate::parser::{p_quote_word, IFCParse, IFCParser};
+use crate::parser::{p_quote_word, quote, IFCParse, IFCParser};
 
 // IFC doesn't support UTF8 in all versions and uses a special encoding for things like
 // german umlaute. The easiest thing to use it `\X2\<unicode sequence>\X0\`
@@ -58,6 +58,6 @@ impl IFCParse for StringPrimitive {
 
 impl Display for StringPrimitive {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        write!(f, "'{label}'", label = translate_encode(self.0.as_str()))
+        write!(f, "{}", quote(&translate_encode(self.0.as_str())))
     }
 }
-- 
2.43.0


From 8a1278f36c8840df0fae38c391673dc63a4767a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:24 +0000
Subject: [PATCH 08/16] fix: read and write apostrophes inside of header texts

---
 ifc_rs/src/meta/header/deserialize.rs | 14 +++++++-------
 ifc_rs/src/meta/header/serialize.rs   | 13 +++++++------
 ifc_rs/src/parser/mod.rs              |  6 ++++++
 3 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/ifc_rs/src/meta/header/deserialize.rs b/ifc_rs/src/meta/header/deserialize.rs
index 0d9e689..1381825 100644
--- a/ifc_rs/src/meta/header/deserialize.rs
+++ b/ifc_rs/src/meta/header/deserialize.rs
@@ -122,14 +122,14 @@ impl Header {
         // filename can be $ or an actual filename, see #1, AutoCAD related
         let mut p_name = alt((
             "$".map(|_| FileName::default()),
-            p_quote_word().map(FileName),
+            p_quoted().map(FileName),
         ));
-        let mut p_time = p_quote_word().verify_map(time_from_string).map(TimeStamp);
+        let mut p_time = p_quoted().verify_map(time_from_string).map(TimeStamp);
         let mut p_author = delimited(
             "(",
             separated(
                 ..,
-                p_space_or_comment_surrounded(p_quote_word()).map(Author),
+                p_space_or_comment_surrounded(p_quoted()).map(Author),
                 ",",
             )
             .map(|v: Vec<_>| AuthorList(v)),
@@ -139,7 +139,7 @@ impl Header {
             "(",
             separated(
                 ..,
-                p_space_or_comment_surrounded(p_quote_word()).map(Organization),
+                p_space_or_comment_surrounded(p_quoted()).map(Organization),
                 ",",
             )
             .map(|v: Vec<_>| OrganizationList(v)),
@@ -156,11 +156,11 @@ impl Header {
                 _: Comma::parse(),
                 organization: p_org,
                 _: Comma::parse(),
-                preprocessor_version: p_quote_word().map(PreprocessorVersion),
+                preprocessor_version: p_quoted().map(PreprocessorVersion),
                 _: Comma::parse(),
-                originating_system: p_quote_word().map(OriginatingSystem),
+                originating_system: p_quoted().map(OriginatingSystem),
                 _: Comma::parse(),
-                authorization: p_quote_word().map(Authorization),
+                authorization: p_quoted().map(Authorization),
                 _: p_space_or_comment_surrounded((")", p_space_or_comment(), ";"))
             }
         }
diff --git a/ifc_rs/src/meta/header/serialize.rs b/ifc_rs/src/meta/header/serialize.rs
index a59bea5..94982ef 100644
--- a/ifc_rs/src/meta/header/serialize.rs
+++ b/ifc_rs/src/meta/header/serialize.rs
@@ -8,6 +8,7 @@ use super::{
     schema::FileSchemas,
     Header,
 };
+use crate::parser::quote;
 
 impl Display for Header {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
@@ -54,7 +55,7 @@ impl Display for ViewDefinition {
 
 impl Display for FileDetails {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        write!(f, "'{name}'", name = self.name.0)?;
+        write!(f, "{name}", name = quote(&self.name.0))?;
         write!(f, ",")?;
         write!(
             f,
@@ -68,7 +69,7 @@ impl Display for FileDetails {
             authors = self
                 .author
                 .iter()
-                .map(|author| format!("'{a}'", a = author.0))
+                .map(|author| quote(&author.0))
                 .join(",")
         )?;
         write!(f, ",")?;
@@ -78,15 +79,15 @@ impl Display for FileDetails {
             orgs = self
                 .organization
                 .iter()
-                .map(|org| format!("'{o}'", o = org.0))
+                .map(|org| quote(&org.0))
                 .join(",")
         )?;
         write!(f, ",")?;
-        write!(f, "'{prep_v}'", prep_v = self.preprocessor_version.0)?;
+        write!(f, "{prep_v}", prep_v = quote(&self.preprocessor_version.0))?;
         write!(f, ",")?;
-        write!(f, "'{sys}'", sys = self.originating_system.0)?;
+        write!(f, "{sys}", sys = quote(&self.originating_system.0))?;
         write!(f, ",")?;
-        write!(f, "'{auth}'", auth = self.authorization.0)?;
+        write!(f, "{auth}", auth = quote(&self.authorization.0))?;
         Ok(())
     }
 }
diff --git a/ifc_rs/src/parser/mod.rs b/ifc_rs/src/parser/mod.rs
index 80f7aeb..1722634 100644
--- a/ifc_rs/src/parser/mod.rs
+++ b/ifc_rs/src/parser/mod.rs
@@ -59,6 +59,12 @@ pub(crate) fn p_quote_word<'a>() -> impl IFCParser<'a, String> {
     delimited("'", p_word_until('\''), "'")
 }
 
+/// the counterpart of [`quote`]
+pub(crate) fn p_quoted<'a>() -> impl IFCParser<'a, String> {
+    let p_part = alt((take_while(1.., |c: char| c != '\''), "''".value("'")));
+    delimited("'", repeat(.., p_part), "'")
+}
+
 /// a quoted text, in which an apostrophe is written twice
 pub(crate) fn quote(s: &str) -> String {
     format!("'{}'", s.replace('\'', "''"))
-- 
2.43.0


From 2432670ecf88ecb56d082859bae5b21782cd635a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:40 +0000
Subject: [PATCH 09/16] fix: use the schema's keywords for electric units,
 coulomb and the commissioning engineer

---
 ifc_rs/src/objects/actor_role/mod.rs |  2 +-
 ifc_rs/src/units/name.rs             |  2 +-
 ifc_rs/src/units/unit_enum.rs        | 12 ++++++------
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/ifc_rs/src/objects/actor_role/mod.rs b/ifc_rs/src/objects/actor_role/mod.rs
index 500a923..bb2f890 100644
--- a/ifc_rs/src/objects/actor_role/mod.rs
+++ b/ifc_rs/src/objects/actor_role/mod.rs
@@ -65,7 +65,7 @@ pub enum Role {
     FacilitiesManager,
     #[strum(to_string = ".CIVILENGINEER.")]
     CivilEngineer,
-    #[strum(to_string = ".COMISSIONENGINEER.")]
+    #[strum(to_string = ".COMMISSIONINGENGINEER.")]
     ComissionEngineer,
     #[strum(to_string = ".ENGINEER.")]
     Engineer,
diff --git a/ifc_rs/src/units/name.rs b/ifc_rs/src/units/name.rs
index 570943e..76f7069 100644
--- a/ifc_rs/src/units/name.rs
+++ b/ifc_rs/src/units/name.rs
@@ -24,7 +24,7 @@ pub enum IfcUnitName {
     Candela,
 
     /// Unit for electric charge.
-    #[strum(to_string = ".COULOUMB.")]
+    #[strum(to_string = ".COULOMB.")]
     Couloumb,
 
     /// Unit for volume.
diff --git a/ifc_rs/src/units/unit_enum.rs b/ifc_rs/src/units/unit_enum.rs
index 39ea217..b95904c 100644
--- a/ifc_rs/src/units/unit_enum.rs
+++ b/ifc_rs/src/units/unit_enum.rs
@@ -28,27 +28,27 @@ pub enum IfcUnitEnum {
     DoseEquivalentUnit,
 
     /// Represents units of electric capacitance, such as "Farad"
-    #[strum(to_string = ".ELCTRICCAPACITANCEUNIT.")]
+    #[strum(to_string = ".ELECTRICCAPACITANCEUNIT.")]
     ElectricCapacitanceUnit,
 
     /// Represents units of electric charge, such as "Coulomb"
-    #[strum(to_string = ".ELCTRICCHARGEUNIT.")]
+    #[strum(to_string = ".ELECTRICCHARGEUNIT.")]
     ElectricChargeUnit,
 
     /// Represents units of electric conductance, such as "Siemens"
-    #[strum(to_string = ".ELCTRICCONDUCTANCEUNIT.")]
+    #[strum(to_string = ".ELECTRICCONDUCTANCEUNIT.")]
     ElectricConductanceUnit,
 
     /// Represents units of electric current, such as "Ampere"
-    #[strum(to_string = ".ELCTRICCURRENTUNIT.")]
+    #[strum(to_string = ".ELECTRICCURRENTUNIT.")]
     ElectricCurrentUnit,
 
     /// Represents units of electric resistance, such as "Ohm"
-    #[strum(to_string = ".ELCTRICRESISTANCEUNIT.")]
+    #[strum(to_string = ".ELECTRICRESISTANCEUNIT.")]
     ElectricResistanceUnit,
 
     /// Represents units of electric voltage, such as "Volt"
-    #[strum(to_string = ".ELCTRICVOLTAGEUNIT.")]
+    #[strum(to_string = ".ELECTRICVOLTAGEUNIT.")]
     ElectricVoltageUnit,
 
     /// Represents units of energy, such as "Joule"
-- 
2.43.0


From 3dffe55d988950c049dc0bfc46713eb473e0047d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:15 +0000
Subject: [PATCH 10/16] fix: allow layout around an empty header description

---
 ifc_rs/src/meta/header/deserialize.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ifc_rs/src/meta/header/deserialize.rs b/ifc_rs/src/meta/header/deserialize.rs
index 1381825..54d7654 100644
--- a/ifc_rs/src/meta/header/deserialize.rs
+++ b/ifc_rs/src/meta/header/deserialize.rs
@@ -66,7 +66,7 @@ impl Header {
         let p_view_def = Self::p_view_definition();
         let p_item = p_space_or_comment_surrounded(delimited("'", p_view_def, "'"));
         let p_any_items = separated(.., p_item, ",");
-        let p_no_items = ("''").map(|_| vec![]);
+        let p_no_items = p_space_or_comment_surrounded("''").map(|_| vec![]);
         delimited("(", alt((p_no_items, p_any_items)), ")")
     }
 
-- 
2.43.0


From 0e5c5af2ae28fe334ff564bdc150478336a14e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:33 +0000
Subject: [PATCH 11/16] fix: relate the storey properties to their storey

---
 ifc_rs/src/ifc_builder/building.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ifc_rs/src/ifc_builder/building.rs b/ifc_rs/src/ifc_builder/building.rs
index efb07bc..bfbff8c 100644
--- a/ifc_rs/src/ifc_builder/building.rs
+++ b/ifc_rs/src/ifc_builder/building.rs
@@ -57,7 +57,8 @@ impl<'a> IfcBuildingBuilder<'a> {
             IfcValue::Real(elevation.into()),
             None,
         );
-        _ = property_builder.finish();
+        let property_set = property_builder.finish();
+        storey_builder.relate_properties_object(property_set, storey_id);
 
         storey_builder
     }
-- 
2.43.0


From d683fefe6dabec28121c76337dfe6b2818500fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:58 +0000
Subject: [PATCH 12/16] fix: define built spaces by their space type

---
 ifc_rs/src/ifc_builder/storey.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/ifc_rs/src/ifc_builder/storey.rs b/ifc_rs/src/ifc_builder/storey.rs
index e557af4..19fbd81 100644
--- a/ifc_rs/src/ifc_builder/storey.rs
+++ b/ifc_rs/src/ifc_builder/storey.rs
@@ -286,6 +286,25 @@ impl<'a> Drop for IfcStoreyBuilder<'a> {
         // insert all spatial relations of this story
         self.project.ifc.data.insert_new(spatial_relation);
 
+        // spaces ----------------------
+
+        // relate space type to space
+        for (index, (space_type, spaces)) in self.space_type_to_space.iter().enumerate() {
+            let mut space_space_type_relation = RelDefinesByType::new(
+                format!("SpaceTypeToSpace{index}"),
+                *space_type,
+                &mut self.project.ifc,
+            )
+            .owner_history(self.owner_history, &mut self.project.ifc);
+
+            for space in spaces {
+                space_space_type_relation =
+                    space_space_type_relation.relate_obj(*space, &mut self.project.ifc)
+            }
+
+            self.project.ifc.data.insert_new(space_space_type_relation);
+        }
+
         // rel aggregates ----------------------
         let rel_agg = RelAggregates::new(
             "StoreySpacesLink",
-- 
2.43.0


From e844bfc8978990a5b053a5042d089220e6b900ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:10 +0000
Subject: [PATCH 13/16] fix: keep the representation identifier when a storey
 transforms an element

---
 ifc_rs/src/ifc_builder/transforms.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ifc_rs/src/ifc_builder/transforms.rs b/ifc_rs/src/ifc_builder/transforms.rs
index d79639b..1f0ca47 100644
--- a/ifc_rs/src/ifc_builder/transforms.rs
+++ b/ifc_rs/src/ifc_builder/transforms.rs
@@ -173,9 +173,20 @@ impl<'a> IfcStoreyBuilder<'a> {
                         shape_repr,
                         &mut self.project.ifc,
                     );
+
+                    let shape_repr_identifier = self
+                        .project
+                        .ifc
+                        .data
+                        .get(shape_repr)
+                        .representation_identifier
+                        .custom()
+                        .copied()
+                        .unwrap_or_else(|| RepresentationIdentifier::Body);
+
                     let r = ShapeRepresentation::new(
                         self.sub_context,
-                        RepresentationIdentifier::Body,
+                        shape_repr_identifier,
                         RepresentationType::MappedRepresentation,
                         &mut self.project.ifc,
                     )
-- 
2.43.0


From 7b5fd933bda10691e8bb32939fdac30e8143f36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:32 +0000
Subject: [PATCH 14/16] fix: let a storey contain shading devices when a file
 is loaded

---
 .../relations/rel_contained_in_spatial_structure.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs b/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs
index 86085d6..9ccb8db 100644
--- a/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs
+++ b/ifc_rs/src/relations/rel_contained_in_spatial_structure.rs
@@ -24,7 +24,18 @@ pub struct RelContainedInSpatialStructure {
 
     /// Set of products, which are contained within this level of the
     /// spatial structure hierarchy.
-    #[ifc_types(Site, Building, Storey, OpeningElement, Slab, Roof, Wall, Window, Door)]
+    #[ifc_types(
+        Site,
+        Building,
+        Storey,
+        OpeningElement,
+        Slab,
+        Roof,
+        Wall,
+        Window,
+        Door,
+        ShadingDevice
+    )]
     pub related_elements: IfcList<Id>,
 
     /// Spatial structure element, within which the element is
-- 
2.43.0


From 2ca5c2054b85469cbd6e954d71f38e566ad155ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:30 +0000
Subject: [PATCH 15/16] fix: the true north of a context is a direction, as
 loading requires

---
 ifc_rs/src/geometry/direction/mod.rs              | 2 ++
 ifc_rs/src/geometry/representation_context/mod.rs | 4 ++--
 ifc_rs/src/traits/sub_types.rs                    | 2 ++
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ifc_rs/src/geometry/direction/mod.rs b/ifc_rs/src/geometry/direction/mod.rs
index 1aa39ed..f58b6b8 100644
--- a/ifc_rs/src/geometry/direction/mod.rs
+++ b/ifc_rs/src/geometry/direction/mod.rs
@@ -26,6 +26,7 @@ impl From<DVec2> for Direction2D {
 }
 
 impl IfcType for Direction2D {}
+impl Direction for Direction2D {}
 
 /// The IfcDirection provides a direction in two or three dimensional space depending on the number
 /// of DirectionRatio's provided. The IfcDirection does not imply a vector length, and the
@@ -45,3 +46,4 @@ impl From<DVec3> for Direction3D {
 }
 
 impl IfcType for Direction3D {}
+impl Direction for Direction3D {}
diff --git a/ifc_rs/src/geometry/representation_context/mod.rs b/ifc_rs/src/geometry/representation_context/mod.rs
index a6b0b01..5470660 100644
--- a/ifc_rs/src/geometry/representation_context/mod.rs
+++ b/ifc_rs/src/geometry/representation_context/mod.rs
@@ -70,9 +70,9 @@ impl GeometricRepresentationContext {
         self
     }
 
-    pub fn true_north<A: AxisPlacement>(
+    pub fn true_north<D: Direction>(
         mut self,
-        direction: impl Into<IdOr<A>>,
+        direction: impl Into<IdOr<D>>,
         ifc: &mut IFC,
     ) -> Self {
         self.true_north = direction.into().or_insert(ifc).id().into();
diff --git a/ifc_rs/src/traits/sub_types.rs b/ifc_rs/src/traits/sub_types.rs
index cbdb5ef..555f214 100644
--- a/ifc_rs/src/traits/sub_types.rs
+++ b/ifc_rs/src/traits/sub_types.rs
@@ -4,6 +4,8 @@ pub trait Transform3D: IfcType {}
 
 pub trait AxisPlacement: IfcType {}
 
+pub trait Direction: IfcType {}
+
 pub trait Curve: IfcType {}
 
 pub trait CartesianPoint: IfcType {}
-- 
2.43.0


From d918439d360fa24bf4e2a76bbd9b8f597de24e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:33 +0000
Subject: [PATCH 16/16] fix: do not take a doubled apostrophe in a list of
 texts for two texts

---
 ifc_rs/src/parser/string.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ifc_rs/src/parser/string.rs b/ifc_rs/src/parser/string.rs
index ac97d08..4712e9b 100644
--- a/ifc_rs/src/parser/string.rs
+++ b/ifc_rs/src/parser/string.rs
@@ -1,6 +1,9 @@
 use std::fmt::Display;
 
-use winnow::Parser;
+use winnow::{
+    combinator::{not, terminated},
+    Parser,
+};
 
 use crate::parser::{p_quote_word, quote, IFCParse, IFCParser};
 
@@ -52,7 +55,8 @@ impl IFCParse for StringPrimitive {
     where
         Self: Sized,
     {
-        p_quote_word().map(Self::from)
+        // a doubled apostrophe is no end of a text and must not be taken for two texts of a list
+        terminated(p_quote_word(), not("'")).map(Self::from)
     }
 }
 
-- 
2.43.0

