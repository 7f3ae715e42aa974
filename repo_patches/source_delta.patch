From ebe6101e0f51173258083f207a9b889ac4aace55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:08 +0000
Subject: [PATCH 01/32] fix: reject messages with fewer than three fields
 instead of panicking

---
 src/message.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/message.rs b/src/message.rs
index 3c4059a..778ca31 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -483,7 +483,8 @@ fn parse_group(
 fn parse_header(
     v: &mut VecDeque<StringField>, header: &mut FieldMap, dd: &DataDictionary,
 ) -> SessResult<()> {
-    if v[0].tag() != BeginString::field()
+    if v.len() < 3
+        || v[0].tag() != BeginString::field()
         || v[1].tag() != BodyLength::field()
         || v[2].tag() != MsgType::field()
     {
-- 
2.43.0


From 3d474a1d03038cc786e9947e4c5173d58457709b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:08 +0000
Subject: [PATCH 02/32] fix: do not panic extracting session ids when the last
 field has no SOH

---
 src/message.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/message.rs b/src/message.rs
index 778ca31..1aebb20 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -397,7 +397,8 @@ fn extract_field_value<'a>(tag: &str, s: &'a str) -> &'a str {
     if let Some(indx) = s.find(pat.as_str()) {
         let field_start_pos = indx + pat_prefix.len();
         // ignore the first SOH prefix, if any, and start from tag
-        let end_pos = s[field_start_pos..].find(SOH).unwrap();
+        // last field of the message may not be terminated with SOH
+        let end_pos = s[field_start_pos..].find(SOH).unwrap_or(s.len() - field_start_pos);
         let start_pos = s[field_start_pos..].find('=').unwrap();
         return &s[field_start_pos + start_pos + 1..field_start_pos + end_pos];
     }
-- 
2.43.0


From 3a40560f49f9dc5d7dfd0020b66bcadc4d50689d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:08 +0000
Subject: [PATCH 03/32] fix: do not allocate repeating group instances beyond
 what the message can hold

---
 src/message.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/message.rs b/src/message.rs
index 1aebb20..c39a37e 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -427,6 +427,11 @@ fn parse_group(
         Ok(c) => c,
         Err(e) => return Err(SessionRejectError::incorrect_data_format_err()),
     };
+    if declared_count as usize > v.len() {
+        // every group instance needs at least its delimiter field. Do not allocate for a count
+        // which the remaining message cannot satisfy
+        return Err(SessionRejectError::incorrect_num_in_grp_count());
+    }
     let delimiter = rg.delimiter();
     let group = fmap.set_group(fld.tag(), declared_count, delimiter);
     let mut actual_count: i32 = -1;
-- 
2.43.0


From 639ac98e77544e893248a712b0ec48834bf46dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:39 +0000
Subject: [PATCH 04/32] fix: reject a field that appears more than once instead
 of dropping one value

---
 src/message.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/message.rs b/src/message.rs
index c39a37e..202342e 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -137,6 +137,10 @@ impl FieldMap {
         map_iter
     }
 
+    fn is_set(&self, tag: Tag) -> bool {
+        self.fields.contains_key(&tag)
+    }
+
     fn is_ordered_field(&self, tag: Tag) -> bool {
         self.field_order.contains(&tag)
     }
@@ -458,12 +462,18 @@ fn parse_group(
                 return Err(SessionRejectError::required_tag_missing_err());
             }
             let group_instance = &mut group[actual_count as usize];
+            if group_instance.is_set(next_field.tag()) {
+                return Err(SessionRejectError::tag_appear_more_than_once());
+            }
             parse_group(v, msg_type, &next_field, group_instance, rg_dd)?;
         } else if rg_dd.is_msg_field(msg_type, next_field.tag()) {
             if actual_count < 0 {
                 // means first field not found i.e. delimiter
                 return Err(SessionRejectError::required_tag_missing_err());
             }
+            if group[actual_count as usize].is_set(next_field.tag()) {
+                return Err(SessionRejectError::tag_appear_more_than_once());
+            }
             // verify the order of fields
             let offset = field_order.iter().position(|f| *f == next_field.tag()).unwrap() as i32;
             if offset < previous_offset {
@@ -501,7 +511,11 @@ fn parse_header(
             // start of body
             v.push_front(fld);
             return Ok(());
-        } else if dd.is_msg_group(HEADER_ID, fld.tag()) {
+        }
+        if header.is_set(fld.tag()) {
+            return Err(SessionRejectError::tag_appear_more_than_once());
+        }
+        if dd.is_msg_group(HEADER_ID, fld.tag()) {
             parse_group(v, HEADER_ID, &fld, header, dd)?;
         } else {
             header.set_field(fld);
@@ -525,6 +539,9 @@ fn parse_body(
             v.push_front(fld);
             return Ok(());
         }
+        if msg.body.is_set(fld.tag()) {
+            return Err(SessionRejectError::tag_appear_more_than_once());
+        }
         if dd.is_msg_group(msg_type.as_str(), fld.tag()) {
             parse_group(v, &msg_type, &fld, &mut msg.body, dd)?;
         } else {
@@ -541,6 +558,9 @@ fn parse_trailer(
         if !dd.is_trailer_field(fld.tag()) {
             return Err(SessionRejectError::tag_specified_out_of_order());
         }
+        if trailer.is_set(fld.tag()) {
+            return Err(SessionRejectError::tag_appear_more_than_once());
+        }
         trailer.set_field(fld);
     }
     Ok(())
-- 
2.43.0


From 065399b45f35a4a8f759824e17c12d04863a0e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:09 +0000
Subject: [PATCH 05/32] fix: include nested groups in the field order check of
 a repeating group

---
 src/message.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/message.rs b/src/message.rs
index 202342e..1fc1621 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -465,7 +465,13 @@ fn parse_group(
             if group_instance.is_set(next_field.tag()) {
                 return Err(SessionRejectError::tag_appear_more_than_once());
             }
+            // verify the order of nested group
+            let offset = field_order.iter().position(|f| *f == next_field.tag()).unwrap() as i32;
+            if offset < previous_offset {
+                return Err(SessionRejectError::repeating_grp_out_of_order());
+            }
             parse_group(v, msg_type, &next_field, group_instance, rg_dd)?;
+            previous_offset = offset;
         } else if rg_dd.is_msg_field(msg_type, next_field.tag()) {
             if actual_count < 0 {
                 // means first field not found i.e. delimiter
-- 
2.43.0


From 698f32d2197da8c5921b69a2334f4dfe78ba2e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:09 +0000
Subject: [PATCH 06/32] fix: setting a repeating group again replaces its
 instances

---
 src/message.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/message.rs b/src/message.rs
index 1fc1621..ffba2ab 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -114,8 +114,9 @@ impl FieldMap {
     pub fn set_group(&mut self, tag: Tag, value: u32, rep_grp_delimiter: Tag) -> &mut Group {
         let grp_field = StringField::new(tag, value.to_string().as_str());
         self.set_field(grp_field);
-        let group =
-            self.group.entry(tag).or_insert_with(|| Group::new(rep_grp_delimiter, tag, value));
+        let group = self.group.entry(tag).or_default();
+        // setting the group again replaces the previous instances
+        *group = Group::new(rep_grp_delimiter, tag, value);
         // create group instances and insert into group
         for i in 0..value {
             group.add_group(FieldMap::new());
-- 
2.43.0


From 760bfba78da6c86fbd512f668faabaafb4604d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:09 +0000
Subject: [PATCH 07/32] fix: encode the delimiter first in each repeating group
 instance

---
 src/message.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/message.rs b/src/message.rs
index ffba2ab..e316792 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -119,7 +119,8 @@ impl FieldMap {
         *group = Group::new(rep_grp_delimiter, tag, value);
         // create group instances and insert into group
         for i in 0..value {
-            group.add_group(FieldMap::new());
+            // delimiter is always the first field of an instance
+            group.add_group(FieldMap::with_field_order(&[rep_grp_delimiter]));
         }
         group
     }
-- 
2.43.0


From cba3d05755ff5ab3890a47434a86b7f60672d858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:10 +0000
Subject: [PATCH 08/32] fix: encode CheckSum as the last field of the trailer

---
 src/message.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/message.rs b/src/message.rs
index e316792..f2b4e1d 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -264,6 +264,8 @@ impl Message {
     pub fn new() -> Self {
         Self {
             header: FieldMap::with_field_order(&[8, 9, 35]),
+            // signature length, signature and checksum. checksum is always the last field
+            trailer: FieldMap::with_field_order(&[93, 89, 10]),
             ..Default::default()
         }
     }
-- 
2.43.0


From def0dff6556da0afdbe2ebab3e583193e1f069d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:50 +0000
Subject: [PATCH 09/32] fix: encode fields in the order in which they were set
 or received

---
 src/message.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/message.rs b/src/message.rs
index f2b4e1d..8a1550a 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -1,4 +1,5 @@
 use getset::{CopyGetters, Getters, MutGetters};
+use indexmap::IndexMap;
 use std::cmp::Ordering;
 use std::collections::{HashMap, VecDeque};
 use std::fmt::{write, Display};
@@ -82,7 +83,8 @@ impl Display for StringField {
 
 #[derive(Debug, Default, Clone)]
 pub struct FieldMap {
-    fields: HashMap<Tag, StringField>,
+    // insertion order is the order in which fields without any field_order are encoded
+    fields: IndexMap<Tag, StringField>,
     group: HashMap<Tag, Group>,
     field_order: Vec<Tag>,
 }
-- 
2.43.0


From 850397107026645386126d8f379526ec4bd96a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:50 +0000
Subject: [PATCH 10/32] fix: reject field tags written with a sign or leading
 zeros

---
 src/message.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/message.rs b/src/message.rs
index 8a1550a..6e0b65a 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -348,7 +348,8 @@ impl Message {
             let (tag, value) = match field.split_once('=') {
                 Some((t, v)) => {
                     let parse_result = t.parse::<u32>();
-                    if parse_result.is_err() {
+                    // u32 parsing also accepts a sign and leading zeros
+                    if parse_result.is_err() || t.starts_with(&['+', '0']) {
                         return Err(SessionRejectError::invalid_tag_err());
                     }
                     if v.is_empty() {
-- 
2.43.0


From 90b6b794008e8dccfab1b22662042a668ed2f235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:50 +0000
Subject: [PATCH 11/32] fix: do not silently ignore session sections placed
 before the default section

---
 src/session/session_settings.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/session/session_settings.rs b/src/session/session_settings.rs
index 642b4e5..43d8341 100644
--- a/src/session/session_settings.rs
+++ b/src/session/session_settings.rs
@@ -108,10 +108,10 @@ impl Properties {
                 default_found = true;
                 default_session_id = Some(SessionId::default());
                 setting_map.insert(default_session_id.clone().unwrap(), default_section);
-            } else if line.starts_with('[') && line.ends_with(']') && default_found {
+            } else if line.starts_with('[') && line.ends_with(']') {
                 // some other section in config file
                 if !default_found {
-                    panic!("default section should be first section. not found");
+                    panic!("default section not found. it should be the first section");
                 }
                 let section = parse_table(&mut lines);
                 let defaults = setting_map.get(default_session_id.as_ref().unwrap()).unwrap();
-- 
2.43.0


From 84cbb6169b1572c3ffbc67a6d07d0d0990cb01f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:16 +0000
Subject: [PATCH 12/32] fix: reject a session configured twice instead of
 dropping one

---
 src/session/session_settings.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/session/session_settings.rs b/src/session/session_settings.rs
index 43d8341..71212b1 100644
--- a/src/session/session_settings.rs
+++ b/src/session/session_settings.rs
@@ -116,7 +116,9 @@ impl Properties {
                 let section = parse_table(&mut lines);
                 let defaults = setting_map.get(default_session_id.as_ref().unwrap()).unwrap();
                 let session_id = SessionId::from_map(&section, defaults);
-                setting_map.insert(session_id, section);
+                if setting_map.insert(session_id, section).is_some() {
+                    panic!("duplicate session section found");
+                }
             }
         }
         if !default_found {
-- 
2.43.0


From 10b283dede7b761dad0431b961770a2e6678f290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:16 +0000
Subject: [PATCH 13/32] fix: create a non stop schedule when no start and end
 time is configured

---
 src/session/session_schedule.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/session/session_schedule.rs b/src/session/session_schedule.rs
index 18b6b18..c3e4f96 100644
--- a/src/session/session_schedule.rs
+++ b/src/session/session_schedule.rs
@@ -59,9 +59,10 @@ impl SessionSchedule {
         let time_zone: chrono_tz::Tz =
             settings.get_optional_config(session_id, TIMEZONE_SETTING).unwrap_or(chrono_tz::UTC);
         SessionSchedule::new(
-            start_time.unwrap(),
+            // times are not used by a non stop schedule
+            start_time.unwrap_or_default(),
             start_day,
-            end_time.unwrap(),
+            end_time.unwrap_or_default(),
             end_day,
             time_zone,
             is_non_stop,
-- 
2.43.0


From 568c2fc8cf793918dd6d30768ba7dd71c57b3449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:16 +0000
Subject: [PATCH 14/32] fix: refuse a schedule with only one of start_day and
 end_day when it is created

---
 src/session/session_schedule.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/session/session_schedule.rs b/src/session/session_schedule.rs
index c3e4f96..c9ae525 100644
--- a/src/session/session_schedule.rs
+++ b/src/session/session_schedule.rs
@@ -52,6 +52,9 @@ impl SessionSchedule {
 
         let start_day = settings.get_optional_config::<Weekday>(session_id, START_DAY_SETTING);
         let end_day = settings.get_optional_config::<Weekday>(session_id, END_DAY_SETTING);
+        if start_day.is_some() != end_day.is_some() {
+            panic!("start_day and end_day both are mandatory for a weekly session");
+        }
         if is_non_stop && (start_day.is_some() || end_day.is_some()) {
             panic!("start or end day specified without start time or end time");
         }
-- 
2.43.0


From 083fe24ccc06731f78742408c025f89b57af9c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:42 +0000
Subject: [PATCH 15/32] fix: do not panic on session times skipped or repeated
 by a dst change

---
 src/session/session_schedule.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/session/session_schedule.rs b/src/session/session_schedule.rs
index c9ae525..6d68fd9 100644
--- a/src/session/session_schedule.rs
+++ b/src/session/session_schedule.rs
@@ -77,10 +77,13 @@ impl SessionSchedule {
             return true;
         }
 
-        let now_datetime = self.time_zone.from_utc_datetime(&Utc::now().naive_utc());
+        // wall clock time in session's time zone. Start and end times are also wall clock times,
+        // they may not exist or may be ambiguous as an instant when dst changes
+        let now_datetime =
+            self.time_zone.from_utc_datetime(&Utc::now().naive_utc()).naive_local();
         // get today's session start and end datetime
-        let today_start_datetime = now_datetime.date().and_time(self.start_time).unwrap();
-        let today_end_datetime = now_datetime.date().and_time(self.end_time).unwrap();
+        let today_start_datetime = now_datetime.date().and_time(self.start_time);
+        let today_end_datetime = now_datetime.date().and_time(self.end_time);
         if self.start_day.is_none() && self.end_day.is_none() {
             // daily session start and end
             // now should be between today's session start and end datetimes
@@ -105,8 +108,7 @@ impl SessionSchedule {
         }
         // weekly start_date is on correct weekday for sesssion
         // update the date with time of self.start_time
-        let weekly_start_datetime =
-            weekly_start_date.and_time(today_start_datetime.time()).unwrap();
+        let weekly_start_datetime = weekly_start_date.and_time(today_start_datetime.time());
 
         while weekly_end_date.weekday() != session_end_weekday {
             // go forward one day
@@ -117,7 +119,7 @@ impl SessionSchedule {
                 return false;
             }
         }
-        let weekly_end_datetime = weekly_end_date.and_time(today_end_datetime.time()).unwrap();
+        let weekly_end_datetime = weekly_end_date.and_time(today_end_datetime.time());
         weekly_start_datetime <= now_datetime && now_datetime <= weekly_end_datetime
     }
 
-- 
2.43.0


From 498a6e0a19fc652a4c65bdd8ac79170c1dacf139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:42 +0000
Subject: [PATCH 16/32] fix: support daily sessions which end on the next day

---
 src/session/session_schedule.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/session/session_schedule.rs b/src/session/session_schedule.rs
index 6d68fd9..6109f84 100644
--- a/src/session/session_schedule.rs
+++ b/src/session/session_schedule.rs
@@ -86,6 +86,10 @@ impl SessionSchedule {
         let today_end_datetime = now_datetime.date().and_time(self.end_time);
         if self.start_day.is_none() && self.end_day.is_none() {
             // daily session start and end
+            if self.start_time > self.end_time {
+                // overnight session, which ends on the next day
+                return today_start_datetime <= now_datetime || now_datetime <= today_end_datetime;
+            }
             // now should be between today's session start and end datetimes
             return today_start_datetime <= now_datetime && now_datetime <= today_end_datetime;
         }
-- 
2.43.0


From 455b6f51b04fd329f62137e3a299f50638cd29a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:43 +0000
Subject: [PATCH 17/32] fix: support weekly sessions which end on the same
 weekday of next week

---
 src/session/session_schedule.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/session/session_schedule.rs b/src/session/session_schedule.rs
index 6109f84..41f4997 100644
--- a/src/session/session_schedule.rs
+++ b/src/session/session_schedule.rs
@@ -99,6 +99,12 @@ impl SessionSchedule {
         let mut weekly_end_date = today_end_datetime.date();
         let session_start_weekday = self.start_day.unwrap();
         let session_end_weekday = self.end_day.unwrap();
+        if session_start_weekday == session_end_weekday && self.start_time > self.end_time {
+            // week long session, which ends on the same weekday of next week
+            return now_datetime.weekday() != session_start_weekday
+                || today_start_datetime <= now_datetime
+                || now_datetime <= today_end_datetime;
+        }
         // using only the date, start going back until you find the date which has
         // same weekday as self.start_day
         while weekly_start_date.weekday() != session_start_weekday {
-- 
2.43.0


From cfb7c1dbd4fd9dd68bfe56e7cf8a0649a7831a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:09 +0000
Subject: [PATCH 18/32] fix: report a missing component as an error instead of
 panicking

---
 src/data_dictionary.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data_dictionary.rs b/src/data_dictionary.rs
index 7aa75a3..1ac9e6d 100644
--- a/src/data_dictionary.rs
+++ b/src/data_dictionary.rs
@@ -289,7 +289,7 @@ impl DataDictionary {
                     // required attrib for processing componend does not depend on outer node
                     let comp_node = components
                         .get(comp_name)
-                        .unwrap_or_else(|| panic!("msg: {}, comp: {}", msg_type, comp_name));
+                        .ok_or_else(|| XmlError::XmlNodeNotFound(comp_name.to_string()))?;
                     group_dd.add_xml_component(
                         msg_type,
                         comp_node,
@@ -353,7 +353,7 @@ impl DataDictionary {
                     let comp_name = get_name_attr(&child)?;
                     let comp_node = components
                         .get(comp_name)
-                        .unwrap_or_else(|| panic!("msgtype {}, component {}", msg_type, comp_name));
+                        .ok_or_else(|| XmlError::XmlNodeNotFound(comp_name.to_string()))?;
                     // "required" attribute of each comp inside comp is treated independently
                     // it does no depend on outer component.
                     self.add_xml_component(msg_type, comp_node, is_comp_required, components, doc)?
@@ -417,7 +417,7 @@ impl DataDictionary {
                     let comp_name = get_name_attr(&child)?;
                     let comp_node = components
                         .get(comp_name)
-                        .unwrap_or_else(|| panic!("msgtype {}, component {}", msg_type, comp_name));
+                        .ok_or_else(|| XmlError::XmlNodeNotFound(comp_name.to_string()))?;
                     self.add_xml_component(msg_type, comp_node, comp_required, components, doc)?;
                 }
                 "group" => {
-- 
2.43.0


From 856b5795019320a5c62fed689b6a7f08dd3b4853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:37 +0000
Subject: [PATCH 19/32] fix: report a component which includes itself as an
 error instead of overflowing the stack

---
 src/data_dictionary.rs | 25 +++++++++++++++++++++++++
 src/quickfix_errors.rs |  2 ++
 2 files changed, 27 insertions(+)

diff --git a/src/data_dictionary.rs b/src/data_dictionary.rs
index 1ac9e6d..8bc19cb 100644
--- a/src/data_dictionary.rs
+++ b/src/data_dictionary.rs
@@ -450,6 +450,9 @@ impl FromStr for DataDictionary {
 
         let component_node = lookup_node("components", &doc)?;
         let component_map: NodeMap = get_component_nodes_by_name(component_node)?;
+        for (name, node) in component_map.iter() {
+            check_component_cycle(node, &component_map, &mut vec![name.as_str()])?;
+        }
 
         let header_node = lookup_node(HEADER_ID, &doc)?;
         dd.add_xml_message(&HEADER_ID, &header_node, &component_map, &doc)?;
@@ -545,6 +548,28 @@ fn get_component_nodes_by_name<'a, 'i>(components: Node<'a, 'i>) -> DResult<Node
     Ok(cmap)
 }
 
+// a component which includes itself, directly or through other components, can not be expanded
+fn check_component_cycle<'a>(
+    node: &Node, components: &'a NodeMap, path: &mut Vec<&'a str>,
+) -> DResult<()> {
+    for child in node.descendants().filter(|n| n.is_element() && n.has_tag_name("component")) {
+        // the node itself is also a component and first of its descendants
+        if child == *node {
+            continue;
+        }
+        let child_name = get_name_attr(&child)?;
+        if path.contains(&child_name) {
+            return Err(XmlError::CyclicComponent(child_name.to_string()));
+        }
+        if let Some((key, child_node)) = components.get_key_value(child_name) {
+            path.push(key.as_str());
+            check_component_cycle(child_node, components, path)?;
+            path.pop();
+        }
+    }
+    Ok(())
+}
+
 fn lookup_field_num_with_name(field_name: &str, doc: &Document) -> DResult<u32> {
     let fields = lookup_node("fields", doc)?;
     for node in fields.children().filter(|n| n.has_attribute("number") && n.has_attribute("name")) {
diff --git a/src/quickfix_errors.rs b/src/quickfix_errors.rs
index 7605c29..60b603c 100644
--- a/src/quickfix_errors.rs
+++ b/src/quickfix_errors.rs
@@ -190,6 +190,8 @@ pub enum XmlError {
     AttributeNotFound(String),
     #[error("Unknown xml tag {}", .0)]
     UnknownXmlTag(String),
+    #[error("Component {} includes itself", .0)]
+    CyclicComponent(String),
 }
 
 pub enum InvalidMessage {
-- 
2.43.0


From 13266952b1eb2703dc8de547bc2858476bee4b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:37 +0000
Subject: [PATCH 20/32] fix: ignore messages of unknown sessions instead of
 stopping message processing

---
 src/network.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/network.rs b/src/network.rs
index a57f93f..ad67e5f 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -250,10 +250,16 @@ fn start_receiver_task<A: Application + Send + Sync + 'static>(
             println!("received: {}", s);
             let session_id: SessionId = Message::get_reverse_session_id(&s);
 
-            let dd = sessions
+            let dd = match sessions
                 .get_session(&session_id)
                 .map(|sess| Arc::clone(sess.data_dictionary()))
-                .unwrap();
+            {
+                Some(dd) => dd,
+                None => {
+                    println!("ignoring message of unknown session {}", session_id);
+                    continue;
+                }
+            };
             if let Ok(message) = Message::from_str(&s, &dd) {
                 println!("msg parsed");
                 if let Ok(_) = Session::verify(&message, &sessions) {
-- 
2.43.0


From b10e4b64e0e2d6754350d3f23f350095e46c5532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:37 +0000
Subject: [PATCH 21/32] fix: sending to a session which is not connected does
 not stop message processing

---
 src/session/session_and_state.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/session/session_and_state.rs b/src/session/session_and_state.rs
index 4214ebd..aa84fd5 100644
--- a/src/session/session_and_state.rs
+++ b/src/session/session_and_state.rs
@@ -100,8 +100,16 @@ impl Session {
     pub fn sync_send_to_target(session_id: &SessionId, sessions: &SessionMap, msg: Message) {
         // let synchronous_send = true;
         let sess_ref = sessions.get_session(session_id).unwrap();
-        let responder = sess_ref.responder.as_ref().unwrap().clone();
-        responder.send(msg.to_string()).unwrap();
+        let responder = match sess_ref.responder.as_ref() {
+            Some(responder) => responder.clone(),
+            None => {
+                println!("session {} is not accepting connections yet", session_id);
+                return;
+            }
+        };
+        if responder.send(msg.to_string()).is_err() {
+            println!("session {} is not connected", session_id);
+        }
         // if !synchronous_send {
         //     tokio::spawn(async move {
         //         responder.send(msg.to_string()).await.unwrap();
-- 
2.43.0


From bd9fdc3cdbfc61e1bf613b6bde3243d564598ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:06 +0000
Subject: [PATCH 22/32] fix: stop reading from a closed connection instead of
 spinning or panicking

---
 src/io/acceptor.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/io/acceptor.rs b/src/io/acceptor.rs
index d76be60..2a57551 100644
--- a/src/io/acceptor.rs
+++ b/src/io/acceptor.rs
@@ -71,7 +71,10 @@ fn start_socket_listener_task(read_half: OwnedReadHalf, to_app: TioSender<String
         let mut buf: Vec<u8> = Vec::with_capacity(1024);
         let mut buf_reader = BufReader::new(read_half);
         loop {
-            read_message(&mut buf_reader, &mut buf).await;
+            if !read_message(&mut buf_reader, &mut buf).await {
+                // connection is closed
+                break;
+            }
             let raw_msg = String::from_utf8_lossy(&buf[..buf.len()]).to_string();
             to_app.send(raw_msg).await.unwrap();
             buf.clear();
@@ -93,9 +96,17 @@ fn start_app_listner_task(
     });
 }
 
-async fn read_message<R: AsyncBufReadExt + Unpin>(reader: &mut R, buf: &mut Vec<u8>) {
+// returns false if the connection is closed before a complete message is read
+async fn read_message<R: AsyncBufReadExt + Unpin>(reader: &mut R, buf: &mut Vec<u8>) -> bool {
     loop {
-        let bytes_read = reader.read_until(SOH as u8, buf).await.unwrap();
+        let bytes_read = match reader.read_until(SOH as u8, buf).await {
+            Ok(0) => return false,
+            Ok(bytes_read) => bytes_read,
+            Err(e) => {
+                println!("Error in reading: {:?}", e);
+                return false;
+            }
+        };
         // println!("bytes received: {:?}", &buf);
         let slice_start = buf.len() - bytes_read;
         let slice_end = buf.len();
@@ -104,7 +115,7 @@ async fn read_message<R: AsyncBufReadExt + Unpin>(reader: &mut R, buf: &mut Vec<
         if byte_slice.starts_with(&[49, 48, 61]) {
             // b"10="
             // checksum tag found, break
-            break;
+            return true;
         }
     }
 }
-- 
2.43.0


From 96bdc3eda628f1b4bebe3c936914bed05ecd8296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:06 +0000
Subject: [PATCH 23/32] fix: do not process a message truncated by a closed
 connection

---
 src/io/acceptor.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/io/acceptor.rs b/src/io/acceptor.rs
index 2a57551..6f70792 100644
--- a/src/io/acceptor.rs
+++ b/src/io/acceptor.rs
@@ -110,6 +110,10 @@ async fn read_message<R: AsyncBufReadExt + Unpin>(reader: &mut R, buf: &mut Vec<
         // println!("bytes received: {:?}", &buf);
         let slice_start = buf.len() - bytes_read;
         let slice_end = buf.len();
+        if !buf.ends_with(&[SOH as u8]) {
+            // closed in the middle of a field, which may be the checksum
+            return false;
+        }
         // last read data
         let byte_slice = &buf[slice_start..slice_end];
         if byte_slice.starts_with(&[49, 48, 61]) {
-- 
2.43.0


From 96c68bfb9d3d7d9a5e17925b9236658a604d39bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:30 +0000
Subject: [PATCH 24/32] fix: release both halves of a connection when it is
 closed by the peer

---
 src/io/acceptor.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/io/acceptor.rs b/src/io/acceptor.rs
index 6f70792..68e102f 100644
--- a/src/io/acceptor.rs
+++ b/src/io/acceptor.rs
@@ -6,6 +6,7 @@ use tokio::io::{AsyncBufReadExt, AsyncWriteExt, BufReader};
 use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
 use tokio::net::TcpListener;
 use tokio::sync::mpsc::{channel as tio_channel, Receiver as TioReceiver, Sender as TioSender};
+use tokio::task::JoinHandle;
 
 #[derive(Debug)]
 pub struct IoAcceptor {
@@ -59,14 +60,16 @@ impl IoAcceptor {
                     }
                 };
                 let (owned_read, owned_write) = stream.into_split();
-                start_socket_listener_task(owned_read, socket_to_app_send.clone());
-                start_app_listner_task(owned_write, app_to_socket_send.subscribe());
+                let writer = start_app_listner_task(owned_write, app_to_socket_send.subscribe());
+                start_socket_listener_task(owned_read, socket_to_app_send.clone(), writer);
             }
         });
     }
 }
 
-fn start_socket_listener_task(read_half: OwnedReadHalf, to_app: TioSender<String>) {
+fn start_socket_listener_task(
+    read_half: OwnedReadHalf, to_app: TioSender<String>, writer: JoinHandle<()>,
+) {
     tokio::spawn(async move {
         let mut buf: Vec<u8> = Vec::with_capacity(1024);
         let mut buf_reader = BufReader::new(read_half);
@@ -79,21 +82,26 @@ fn start_socket_listener_task(read_half: OwnedReadHalf, to_app: TioSender<String
             to_app.send(raw_msg).await.unwrap();
             buf.clear();
         }
+        // the other half of connection is not needed anymore
+        writer.abort();
     });
 }
 
 fn start_app_listner_task(
     mut write_half: OwnedWriteHalf, mut from_app: TioBroadcastReceiver<String>,
-) {
+) -> JoinHandle<()> {
     tokio::spawn(async move {
         println!("starting internal msg receiv");
         // if there is message to be sent out to remote socket then read and send
         while let Ok(msg) = from_app.recv().await {
             println!("sending {}", &msg);
-            let _res = write_half.write_all(msg.as_bytes()).await.unwrap();
+            if let Err(e) = write_half.write_all(msg.as_bytes()).await {
+                println!("Error in sending: {:?}", e);
+                break;
+            }
             println!("sent {}", &msg);
         }
-    });
+    })
 }
 
 // returns false if the connection is closed before a complete message is read
-- 
2.43.0


From 96adbcaf5d18a25547ec08912052227c4696f0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:07 +0000
Subject: [PATCH 25/32] fix: keep one listener per address so that waiting
 connections are not lost

---
 src/io/acceptor.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/io/acceptor.rs b/src/io/acceptor.rs
index 68e102f..46db475 100644
--- a/src/io/acceptor.rs
+++ b/src/io/acceptor.rs
@@ -2,11 +2,16 @@ use crate::io::*;
 use crate::message::SOH;
 use std::net::SocketAddr;
 use std::sync::Arc;
+use std::time::Duration;
 use tokio::io::{AsyncBufReadExt, AsyncWriteExt, BufReader};
 use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
 use tokio::net::TcpListener;
 use tokio::sync::mpsc::{channel as tio_channel, Receiver as TioReceiver, Sender as TioSender};
 use tokio::task::JoinHandle;
+use tokio::time::sleep;
+
+// wait before retrying failed bind or accept
+const RETRY_INTERVAL: Duration = Duration::from_secs(1);
 
 #[derive(Debug)]
 pub struct IoAcceptor {
@@ -38,17 +43,20 @@ impl IoAcceptor {
         let socket_to_app_send = self.socket_to_app_send.clone();
         let app_to_socket_send = self._app_to_socket_send.clone();
         tokio::spawn(async move {
-            loop {
-                let listener = match TcpListener::bind(bind_addr).await {
+            // keep the same listener, connections waiting to be accepted are lost with it
+            let listener = loop {
+                match TcpListener::bind(bind_addr).await {
                     Ok(listener) => {
                         println!("listening on {}", bind_addr);
-                        listener
+                        break listener;
                     }
                     Err(e) => {
                         println!("Error in bind: {:?}", e);
-                        continue;
+                        sleep(RETRY_INTERVAL).await;
                     }
                 };
+            };
+            loop {
                 let (stream, _) = match listener.accept().await {
                     Ok((stream, remote_addr)) => {
                         println!("accepted connection from {}", remote_addr);
@@ -56,6 +64,7 @@ impl IoAcceptor {
                     }
                     Err(e) => {
                         println!("Error in accepting connection: {:?}", e);
+                        sleep(RETRY_INTERVAL).await;
                         continue;
                     }
                 };
-- 
2.43.0


From c9793794c2fad80aab221cfb261e4693c44c0e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:41 +0000
Subject: [PATCH 26/32] fix: send the messages of a session only to its own
 connections

---
 src/io/acceptor.rs               | 54 +++++++++++++++++++++++++-------
 src/network.rs                   |  5 +--
 src/session/session_and_state.rs |  4 +--
 3 files changed, 47 insertions(+), 16 deletions(-)

diff --git a/src/io/acceptor.rs b/src/io/acceptor.rs
index 46db475..72511b0 100644
--- a/src/io/acceptor.rs
+++ b/src/io/acceptor.rs
@@ -1,7 +1,9 @@
 use crate::io::*;
-use crate::message::SOH;
+use crate::message::{Message, SOH};
+use crate::session::SessionId;
+use std::collections::HashSet;
 use std::net::SocketAddr;
-use std::sync::Arc;
+use std::sync::{Arc, Mutex};
 use std::time::Duration;
 use tokio::io::{AsyncBufReadExt, AsyncWriteExt, BufReader};
 use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
@@ -10,27 +12,33 @@ use tokio::sync::mpsc::{channel as tio_channel, Receiver as TioReceiver, Sender
 use tokio::task::JoinHandle;
 use tokio::time::sleep;
 
+// sessions whose messages are received on a connection
+type ConnectedSessions = Arc<Mutex<HashSet<SessionId>>>;
+
 // wait before retrying failed bind or accept
 const RETRY_INTERVAL: Duration = Duration::from_secs(1);
 
 #[derive(Debug)]
 pub struct IoAcceptor {
     bind_addr: SocketAddr,
+    session_ids: Arc<HashSet<SessionId>>, // sessions which are accepted on this address
     socket_to_app_send: TioSender<String>, // for sending message to application
 
-    _app_to_socket_send: TioBroadcastSender<String>, // used by acceptor to recv data from app
-                                                     // app_to_socket_send: TioSender<String>,           // used by app code to send data to this
+    // used by acceptor to recv data from app
+    _app_to_socket_send: TioBroadcastSender<(SessionId, String)>,
+    // app_to_socket_send: TioSender<String>,           // used by app code to send data to this
 }
 
 impl IoAcceptor {
     pub fn create(
-        bind_addr: SocketAddr, to_send: TioSender<String>,
-    ) -> (Self, TioBroadcastSender<String>) {
+        bind_addr: SocketAddr, session_ids: HashSet<SessionId>, to_send: TioSender<String>,
+    ) -> (Self, TioBroadcastSender<(SessionId, String)>) {
         let self_bind_addr = bind_addr.clone();
         // dropping the receiving end
-        let (tx, _) = broadcast::channel::<String>(32);
+        let (tx, _) = broadcast::channel::<(SessionId, String)>(32);
         let acceptor = IoAcceptor {
             bind_addr: bind_addr,
+            session_ids: Arc::new(session_ids),
             socket_to_app_send: to_send,
             _app_to_socket_send: tx.clone(),
             // app_to_socket_send: tx,
@@ -41,6 +49,7 @@ impl IoAcceptor {
     pub fn start(&self) {
         let bind_addr = self.bind_addr.clone();
         let socket_to_app_send = self.socket_to_app_send.clone();
+        let session_ids = Arc::clone(&self.session_ids);
         let app_to_socket_send = self._app_to_socket_send.clone();
         tokio::spawn(async move {
             // keep the same listener, connections waiting to be accepted are lost with it
@@ -69,15 +78,27 @@ impl IoAcceptor {
                     }
                 };
                 let (owned_read, owned_write) = stream.into_split();
-                let writer = start_app_listner_task(owned_write, app_to_socket_send.subscribe());
-                start_socket_listener_task(owned_read, socket_to_app_send.clone(), writer);
+                let connected = ConnectedSessions::default();
+                let writer = start_app_listner_task(
+                    owned_write,
+                    app_to_socket_send.subscribe(),
+                    connected.clone(),
+                );
+                start_socket_listener_task(
+                    owned_read,
+                    socket_to_app_send.clone(),
+                    Arc::clone(&session_ids),
+                    connected,
+                    writer,
+                );
             }
         });
     }
 }
 
 fn start_socket_listener_task(
-    read_half: OwnedReadHalf, to_app: TioSender<String>, writer: JoinHandle<()>,
+    read_half: OwnedReadHalf, to_app: TioSender<String>, session_ids: Arc<HashSet<SessionId>>,
+    connected: ConnectedSessions, writer: JoinHandle<()>,
 ) {
     tokio::spawn(async move {
         let mut buf: Vec<u8> = Vec::with_capacity(1024);
@@ -88,6 +109,10 @@ fn start_socket_listener_task(
                 break;
             }
             let raw_msg = String::from_utf8_lossy(&buf[..buf.len()]).to_string();
+            let session_id = Message::get_reverse_session_id(&raw_msg);
+            if session_ids.contains(&session_id) {
+                connected.lock().unwrap().insert(session_id);
+            }
             to_app.send(raw_msg).await.unwrap();
             buf.clear();
         }
@@ -97,12 +122,17 @@ fn start_socket_listener_task(
 }
 
 fn start_app_listner_task(
-    mut write_half: OwnedWriteHalf, mut from_app: TioBroadcastReceiver<String>,
+    mut write_half: OwnedWriteHalf, mut from_app: TioBroadcastReceiver<(SessionId, String)>,
+    connected: ConnectedSessions,
 ) -> JoinHandle<()> {
     tokio::spawn(async move {
         println!("starting internal msg receiv");
         // if there is message to be sent out to remote socket then read and send
-        while let Ok(msg) = from_app.recv().await {
+        while let Ok((session_id, msg)) = from_app.recv().await {
+            if !connected.lock().unwrap().contains(&session_id) {
+                // message of some other session which is accepted on same address
+                continue;
+            }
             println!("sending {}", &msg);
             if let Err(e) = write_half.write_all(msg.as_bytes()).await {
                 println!("Error in sending: {:?}", e);
diff --git a/src/network.rs b/src/network.rs
index ad67e5f..0a8c2bd 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -166,7 +166,7 @@ impl<A: Application + Send + Sync + 'static> SocketAcceptor<A> {
     }
 
     fn set_session_responder(
-        &mut self, session_id: &SessionId, msg_sender: TioBroadcastSender<String>,
+        &mut self, session_id: &SessionId, msg_sender: TioBroadcastSender<(SessionId, String)>,
     ) {
         self.session_map().entry(session_id).and_modify(|session| {
             session.set_responder(Some(msg_sender));
@@ -193,8 +193,9 @@ impl<A: Application + Send + Sync + 'static> SocketAcceptor<A> {
         let (socket_to_app_tx, socket_to_app_rx) = tio_channel::<String>(64);
         start_receiver_task(socket_to_app_rx, Arc::clone(self.app()), self.session_map().clone());
         for (s_addr, s_desc) in socket_to_descriptor.iter() {
+            let session_ids = s_desc.accepted_connections().keys().cloned().collect();
             let (io_acceptor, app_to_socket_tx) =
-                IoAcceptor::create(*s_addr, socket_to_app_tx.clone());
+                IoAcceptor::create(*s_addr, session_ids, socket_to_app_tx.clone());
             // update app_to_socket_tx in all the session accepted by this socket_descriptor
             for (accepted_sid, _) in s_desc.accepted_connections() {
                 self.set_session_responder(accepted_sid, app_to_socket_tx.clone());
diff --git a/src/session/session_and_state.rs b/src/session/session_and_state.rs
index aa84fd5..8481302 100644
--- a/src/session/session_and_state.rs
+++ b/src/session/session_and_state.rs
@@ -35,7 +35,7 @@ pub struct Session {
     state: SessionState,
     // session_map: Option<Arc<Mutex<HashMap<se>>>>,
     #[getset(set = "pub")]
-    responder: Option<TioBroadcastSender<String>>,
+    responder: Option<TioBroadcastSender<(SessionId, String)>>,
     #[getset(get = "pub")]
     data_dictionary: Arc<DataDictionary>,
 }
@@ -107,7 +107,7 @@ impl Session {
                 return;
             }
         };
-        if responder.send(msg.to_string()).is_err() {
+        if responder.send((session_id.clone(), msg.to_string())).is_err() {
             println!("session {} is not connected", session_id);
         }
         // if !synchronous_send {
-- 
2.43.0


From 699e6f98ebfe89c297c02df54678a6367e341d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:45 +0000
Subject: [PATCH 27/32] hook: include the verification harness under
 cfg(fix_rs_verif)

---
 src/main.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index b4d4c4f..45e9a95 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -10,6 +10,12 @@ mod network;
 mod quickfix_errors;
 mod session;
 
+// verification harness, compiled only with --cfg fix_rs_verif
+#[cfg(fix_rs_verif)]
+pub mod verif {
+    include!(env!("FIX_RS_VERIF_HARNESS"));
+}
+
 use std::{thread, time::Duration};
 
 use application::DefaultApplication;
-- 
2.43.0


From 5afebda355b3901983feae9d0b86d717c27d9769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:53 +0000
Subject: [PATCH 28/32] fix: keep CheckSum last behind trailer fields that have
 no fixed order

---
 src/message.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/message.rs b/src/message.rs
index 6e0b65a..0496d06 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -177,11 +177,13 @@ impl<'a> FieldMapIter<'a> {
         let mut temp_vec: Vec<&StringField> = field_map.fields.values().collect();
         if !field_map.field_order.is_empty() {
             temp_vec.sort_by_cached_key(|&field| {
-                field_map
+                let position = field_map
                     .field_order
                     .iter()
                     .position(|needle| *needle == field.tag())
-                    .map_or(usize::MAX, |pos| pos)
+                    .map_or(usize::MAX, |pos| pos);
+                // checksum stays behind the fields which are not in the order
+                (field.tag() == 10, position)
             })
         }
         for str_field in temp_vec {
-- 
2.43.0


From 540c28ae0ebb1bc59d623deb3f93b5105067d528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:02 +0000
Subject: [PATCH 29/32] fix: refuse a section header that is not closed instead
 of dropping its section

---
 src/session/session_settings.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/session/session_settings.rs b/src/session/session_settings.rs
index 71212b1..173ce91 100644
--- a/src/session/session_settings.rs
+++ b/src/session/session_settings.rs
@@ -119,6 +119,9 @@ impl Properties {
                 if setting_map.insert(session_id, section).is_some() {
                     panic!("duplicate session section found");
                 }
+            } else if line.starts_with('[') {
+                // skipping it would drop the whole section
+                panic!("invalid section header: {}", line);
             }
         }
         if !default_found {
-- 
2.43.0


From 858bde9b9b1959455dd20d1ddae40d57aa66f9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:43 +0000
Subject: [PATCH 30/32] fix: let the checksum's sum wrap around instead of
 overflowing on very long messages

---
 src/message.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/message.rs b/src/message.rs
index 0496d06..91e3938 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -301,7 +301,8 @@ impl Message {
         {
             if sfield.tag() != 10 {
                 for byt in sfield.to_string().as_bytes() {
-                    byte_sum = byte_sum + *byt as u32;
+                    // only the remainder of 256 counts, which wrapping around keeps
+                    byte_sum = byte_sum.wrapping_add(*byt as u32);
                 }
             }
         }
-- 
2.43.0


From 0be8f230861744951707efdd00e50c806e62cf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:19 +0000
Subject: [PATCH 31/32] fix: parse repeating groups of the trailer into their
 instances

---
 src/message.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/message.rs b/src/message.rs
index 91e3938..2e4930f 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -6,7 +6,7 @@ use std::fmt::{write, Display};
 use std::ops::{Index, IndexMut};
 use std::str::FromStr;
 
-use crate::data_dictionary::{DataDictionary, HEADER_ID};
+use crate::data_dictionary::{DataDictionary, HEADER_ID, TRAILER_ID};
 use crate::fields::*;
 use crate::quickfix_errors::SessionRejectError;
 use crate::session::{SessionId, SessionIdBuilder};
@@ -577,7 +577,11 @@ fn parse_trailer(
         if trailer.is_set(fld.tag()) {
             return Err(SessionRejectError::tag_appear_more_than_once());
         }
-        trailer.set_field(fld);
+        if dd.is_msg_group(TRAILER_ID, fld.tag()) {
+            parse_group(v, TRAILER_ID, &fld, trailer, dd)?;
+        } else {
+            trailer.set_field(fld);
+        }
     }
     Ok(())
 }
-- 
2.43.0


From 8b5499b5128c072f8f3b7c96926c053830bf5031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:13 +0000
Subject: [PATCH 32/32] fix: follow components which are included in many
 places only once when looking for cycles

---
 src/data_dictionary.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/data_dictionary.rs b/src/data_dictionary.rs
index 8bc19cb..d259032 100644
--- a/src/data_dictionary.rs
+++ b/src/data_dictionary.rs
@@ -450,8 +450,10 @@ impl FromStr for DataDictionary {
 
         let component_node = lookup_node("components", &doc)?;
         let component_map: NodeMap = get_component_nodes_by_name(component_node)?;
+        let mut checked = HashSet::new();
         for (name, node) in component_map.iter() {
-            check_component_cycle(node, &component_map, &mut vec![name.as_str()])?;
+            let mut path = vec![name.as_str()];
+            check_component_cycle(node, &component_map, &mut path, &mut checked)?;
         }
 
         let header_node = lookup_node(HEADER_ID, &doc)?;
@@ -550,7 +552,7 @@ fn get_component_nodes_by_name<'a, 'i>(components: Node<'a, 'i>) -> DResult<Node
 
 // a component which includes itself, directly or through other components, can not be expanded
 fn check_component_cycle<'a>(
-    node: &Node, components: &'a NodeMap, path: &mut Vec<&'a str>,
+    node: &Node, components: &'a NodeMap, path: &mut Vec<&'a str>, checked: &mut HashSet<&'a str>,
 ) -> DResult<()> {
     for child in node.descendants().filter(|n| n.is_element() && n.has_tag_name("component")) {
         // the node itself is also a component and first of its descendants
@@ -562,9 +564,14 @@ fn check_component_cycle<'a>(
             return Err(XmlError::CyclicComponent(child_name.to_string()));
         }
         if let Some((key, child_node)) = components.get_key_value(child_name) {
+            // components included in many places are followed only once
+            if checked.contains(key.as_str()) {
+                continue;
+            }
             path.push(key.as_str());
-            check_component_cycle(child_node, components, path)?;
+            check_component_cycle(child_node, components, path, checked)?;
             path.pop();
+            checked.insert(key.as_str());
         }
     }
     Ok(())
-- 
2.43.0

