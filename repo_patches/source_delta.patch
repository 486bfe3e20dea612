From 61197970de93c910520372ddeaec5aceb15962ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:52 +0000
Subject: [PATCH 01/59] fix: a begin, end or dur of zero is a specified time,
 not a missing one

---
 ebu_tt_live/bindings/validation/timing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ebu_tt_live/bindings/validation/timing.py b/ebu_tt_live/bindings/validation/timing.py
index a966554..40741e3 100644
--- a/ebu_tt_live/bindings/validation/timing.py
+++ b/ebu_tt_live/bindings/validation/timing.py
@@ -36,8 +36,8 @@ class TimingValidationMixin(object):
             context.pop('timing_attribute_name', None)
 
     def _pre_init_variables(self, dataset, element_content):
-        self._begin_timedelta = self.begin and self.begin.timedelta or None
-        self._end_timedelta = self.end and self.end.timedelta or None
+        self._begin_timedelta = self.begin.timedelta if self.begin is not None else None
+        self._end_timedelta = self.end.timedelta if self.end is not None else None
         # We make sure end time is always none at the beginning because it can cause a LogicError with a stale value
         self._computed_begin_time = None
         self._computed_end_time = None
@@ -321,7 +321,7 @@ class BodyTimingValidationMixin(TimingValidationMixin):
 
     def _pre_init_variables(self, dataset, element_content):
         super(BodyTimingValidationMixin, self)._pre_init_variables(dataset, element_content)
-        self._dur_timedelta = self.dur and self.dur.timedelta or None
+        self._dur_timedelta = self.dur.timedelta if self.dur is not None else None
 
     def _post_cleanup_variables(self):
         del self._dur_timedelta
-- 
2.43.0


From ec9676d4cf99580560e2a3434447b6d03f298d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:52 +0000
Subject: [PATCH 02/59] fix: begin and end are compared as times, not as text

---
 ebu_tt_live/bindings/validation/timing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebu_tt_live/bindings/validation/timing.py b/ebu_tt_live/bindings/validation/timing.py
index 40741e3..a7929ca 100644
--- a/ebu_tt_live/bindings/validation/timing.py
+++ b/ebu_tt_live/bindings/validation/timing.py
@@ -46,7 +46,7 @@ class TimingValidationMixin(object):
     def _element_badly_timed(self, value, element):
         return (element.begin is not None and \
                 element.end is not None and \
-                element.end <= element.begin)
+                element.end.timedelta <= element.begin.timedelta)
         
     def _post_cleanup_variables(self):
         del self._semantic_dataset
-- 
2.43.0


From 22a9b8732da87a811ba18f1e2439cde1914b66f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:55 +0000
Subject: [PATCH 03/59] fix: an incompatible document is refused with its own
 error instead of a KeyError

---
 ebu_tt_live/documents/ebutt3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebu_tt_live/documents/ebutt3.py b/ebu_tt_live/documents/ebutt3.py
index df11650..c2955a4 100644
--- a/ebu_tt_live/documents/ebutt3.py
+++ b/ebu_tt_live/documents/ebutt3.py
@@ -642,12 +642,12 @@ class EBUTT3DocumentSequence(TimelineUtilMixin, CloningDocumentSequence):
         if self.sequence_identifier != document.sequence_identifier or \
                 self._reference_clock.time_base != document.time_base:
             raise IncompatibleSequenceError(
-                ERR_DOCUMENT_NOT_COMPATIBLE.format('ebuttp:sequenceIdentifier or ttp:timeBase')
+                ERR_DOCUMENT_NOT_COMPATIBLE.format(attr_names='ebuttp:sequenceIdentifier or ttp:timeBase')
             )
         if self._reference_clock.time_base == 'clock':
             if self._reference_clock.clock_mode != document.clock_mode:
                 raise IncompatibleSequenceError(
-                    ERR_DOCUMENT_NOT_COMPATIBLE.format('ttp:clockMode')
+                    ERR_DOCUMENT_NOT_COMPATIBLE.format(attr_names='ttp:clockMode')
                 )
         existing_document = None
         try:
-- 
2.43.0


From 1affa64891612b50d585023d1238d87acb362377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:55 +0000
Subject: [PATCH 04/59] fix: a document without an end can arrive after a later
 one

---
 ebu_tt_live/documents/ebutt3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebu_tt_live/documents/ebutt3.py b/ebu_tt_live/documents/ebutt3.py
index c2955a4..89bb7ea 100644
--- a/ebu_tt_live/documents/ebutt3.py
+++ b/ebu_tt_live/documents/ebutt3.py
@@ -774,7 +774,7 @@ class EBUTT3DocumentSequence(TimelineUtilMixin, CloningDocumentSequence):
                     raise SequenceOverridden()
                 if item.element.sequence_number > document.sequence_number:
                     # This means our document may get trimmed into shape
-                    if this_ends.when > item.when:
+                    if this_ends.when is None or this_ends.when > item.when:
                         trims_this = item
                     break
 
-- 
2.43.0


From 1c81d81fef6fe2c8b6b4c355cf8cd4f09487a30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:15 +0000
Subject: [PATCH 05/59] fix: documents ending when the next begins, or trimmed
 twice, do not confuse the sequence

---
 ebu_tt_live/documents/ebutt3.py | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/ebu_tt_live/documents/ebutt3.py b/ebu_tt_live/documents/ebutt3.py
index 89bb7ea..3601b82 100644
--- a/ebu_tt_live/documents/ebutt3.py
+++ b/ebu_tt_live/documents/ebutt3.py
@@ -732,12 +732,10 @@ class EBUTT3DocumentSequence(TimelineUtilMixin, CloningDocumentSequence):
         this_ends = TimingEventEnd(document)
         # The one this document might trim
         begins_before = None
-        # The one this document definitely trims
-        ends_after = None
         # The one that will trim this document. One with a higher seq number
         trims_this = None
 
-        _end_found = False
+        _ended_elements = []
         for item in self.timeline.irange(
             maximum=this_begins,
             reverse=True
@@ -752,24 +750,18 @@ class EBUTT3DocumentSequence(TimelineUtilMixin, CloningDocumentSequence):
                 raise discarderror
 
             if isinstance(item, TimingEventBegin):
-                if not _end_found or _end_found.element != item.element:
+                if item.element not in _ended_elements:
                     # This will be trimmed
                     begins_before = item
                 # Once a begin event is found we quit
                 break
             elif isinstance(item, TimingEventEnd):
-                if _end_found:
-                    raise ValueError(ERR_DOCUMENT_SEQUENCE_INCONSISTENCY)
-                _end_found = item
+                # More than one can be found here: a document may end at the very moment when the next one begins.
+                _ended_elements.append(item.element)
 
         for item in self.timeline.irange(this_begins):
             # This loop goes forward looking at offending events
-            if isinstance(item, TimingEventEnd):
-                ends_after = item
-                if begins_before and ends_after.element != begins_before.element and ends_after.when != begins_before.when:
-                    raise ValueError(ERR_DOCUMENT_SEQUENCE_INCONSISTENCY)
-
-            elif isinstance(item, TimingEventBegin):
+            if isinstance(item, TimingEventBegin):
                 if document.sequence_number > item.element.sequence_number:
                     raise SequenceOverridden()
                 if item.element.sequence_number > document.sequence_number:
@@ -789,9 +781,10 @@ class EBUTT3DocumentSequence(TimelineUtilMixin, CloningDocumentSequence):
             ))
         if begins_before:
             # Move up previous document's end R17
-            if ends_after:
+            try:
+                ends_after = self.locate_element_end(begins_before.element)
                 self.timeline.remove(ends_after)
-            else:
+            except LookupError:
                 ends_after = TimingEventEnd(begins_before.element)
             ends_after.when = this_begins.when
             document_logger.info(DOC_TRIMMED.format(
-- 
2.43.0


From 7a6e2116a8bf415e16c6b5754287755fa7424e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:59 +0000
Subject: [PATCH 06/59] fix: a document without styling or layout can be cut
 into segments

---
 ebu_tt_live/documents/ebutt3_segmentation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ebu_tt_live/documents/ebutt3_segmentation.py b/ebu_tt_live/documents/ebutt3_segmentation.py
index 3b948ea..54d4c30 100644
--- a/ebu_tt_live/documents/ebutt3_segmentation.py
+++ b/ebu_tt_live/documents/ebutt3_segmentation.py
@@ -154,10 +154,10 @@ class EBUTT3Segmenter(RecursiveOperation):
             if isinstance(item, region_type):
                 self._segment.head.layout.region.remove(self._semantic_dataset['instance_mapping'][item])
 
-        if len(self._segment.head.styling.style) == 0:
+        if self._segment.head.styling is not None and len(self._segment.head.styling.style) == 0:
             self._segment.head.styling = None
-        if len(self._segment.head.layout.region) == 0:
-            self._segment.head.layout.region = None
+        if self._segment.head.layout is not None and len(self._segment.head.layout.region) == 0:
+            self._segment.head.layout = None
 
     def compute_document_segment(self):
         # Init
-- 
2.43.0


From ad85664ec69db58bfcf1e9b3d8cd8982fe172c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:59 +0000
Subject: [PATCH 07/59] fix: multiRowAlign survives the copying of a style

---
 ebu_tt_live/bindings/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ebu_tt_live/bindings/__init__.py b/ebu_tt_live/bindings/__init__.py
index 4b1eb43..803c3f9 100644
--- a/ebu_tt_live/bindings/__init__.py
+++ b/ebu_tt_live/bindings/__init__.py
@@ -124,6 +124,7 @@ class style_type(StyledElementMixin, IDMixin, SizingValidationMixin, SemanticVal
             wrapOption=self.wrapOption,
             padding=self.padding,
             linePadding=self.linePadding,
+            multiRowAlign=self.multiRowAlign,
             _strict_keywords=False
         )
         return copied_style
-- 
2.43.0


From 2075778a4a6879a7ed8daca7c81e093695665d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:23 +0000
Subject: [PATCH 08/59] fix: a segment in which a document shows nothing has an
 empty body instead of none

---
 ebu_tt_live/bindings/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebu_tt_live/bindings/__init__.py b/ebu_tt_live/bindings/__init__.py
index 803c3f9..1662105 100644
--- a/ebu_tt_live/bindings/__init__.py
+++ b/ebu_tt_live/bindings/__init__.py
@@ -989,7 +989,8 @@ class body_type(LiveStyledElementMixin, BodyTimingValidationMixin, SemanticValid
         self._semantic_pop_styles(dataset=dataset)
 
     def _semantic_before_copy(self, dataset, element_content=None):
-        self._assert_in_segment(dataset=dataset, element_content=element_content)
+        # The body is always part of the segment, even when nothing inside it is.
+        pass
 
     def _semantic_after_subtree_copy(self, copied_instance, dataset, element_content=None):
         self._semantic_copy_apply_leaf_timing(
-- 
2.43.0


From 72a8d4a8c6961b4da7ce0eac957c7e40814ce4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:23 +0000
Subject: [PATCH 09/59] fix: segments of open-ended documents and open-ended
 segments have no end

---
 ebu_tt_live/bindings/__init__.py             | 3 +++
 ebu_tt_live/documents/ebutt3_segmentation.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/ebu_tt_live/bindings/__init__.py b/ebu_tt_live/bindings/__init__.py
index 1662105..5948a1b 100644
--- a/ebu_tt_live/bindings/__init__.py
+++ b/ebu_tt_live/bindings/__init__.py
@@ -647,6 +647,9 @@ class tt_type(SemanticDocumentMixin, raw.tt_type):
         return element
 
     def get_timing_type(self, timedelta_in):
+        if timedelta_in is None:
+            # Undefined times stay undefined
+            return None
         if self.timeBase == 'clock':
             return ebuttdt.LimitedClockTimingType(timedelta_in)
         if self.timeBase == 'media':
diff --git a/ebu_tt_live/documents/ebutt3_segmentation.py b/ebu_tt_live/documents/ebutt3_segmentation.py
index 54d4c30..e9cd65f 100644
--- a/ebu_tt_live/documents/ebutt3_segmentation.py
+++ b/ebu_tt_live/documents/ebutt3_segmentation.py
@@ -135,6 +135,9 @@ class EBUTT3Segmenter(RecursiveOperation):
 # NOTE: Some of the code below includes handling of SMPTE time base, which was removed from version 1.0 of the specification.
 
     def _convert_time(self, timedelta_value):
+        if timedelta_value is None:
+            # Open-ended segment
+            return None
         if self.document.time_base == 'clock':
             return ebuttdt.LimitedClockTimingType(timedelta_value)
         elif self.document.time_base == 'media':
-- 
2.43.0


From 19e7ea840d7a57aa96af6fc63392ab326b612a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:38 +0000
Subject: [PATCH 10/59] fix: a container that outlasts its content does not
 prevent segmentation

---
 ebu_tt_live/bindings/validation/base.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ebu_tt_live/bindings/validation/base.py b/ebu_tt_live/bindings/validation/base.py
index 5048ee6..7e23aec 100644
--- a/ebu_tt_live/bindings/validation/base.py
+++ b/ebu_tt_live/bindings/validation/base.py
@@ -124,8 +124,10 @@ class SemanticValidationMixin(object):
         raise NotImplementedError()
 
     def _find_deconflicted_elem_by_id(self, elem_id, dataset):
+        # A container that shows nothing in the segment may refer to elements that are not needed in the segment. Such
+        # a container is going to be discarded.
         old_elem = dataset['tt_element'].get_element_by_id(elem_id)
-        new_elem = dataset['instance_mapping'][old_elem]
+        new_elem = dataset['instance_mapping'].get(old_elem)
         return new_elem
 
     def _semantic_deconflicted_ids(self, attr_name, dataset):
@@ -140,13 +142,14 @@ class SemanticValidationMixin(object):
 
         if isinstance(old_elem_ids, six.text_type):
             new_elem = self._find_deconflicted_elem_by_id(elem_id=old_elem_ids, dataset=dataset)
-            return new_elem.id
+            return new_elem.id if new_elem is not None else None
         else:
             new_elem_ids = []
             for elem_id in old_elem_ids:
                 new_elem = self._find_deconflicted_elem_by_id(elem_id=elem_id, dataset=dataset)
-                new_elem_ids.append(new_elem.id)
-            return new_elem_ids
+                if new_elem is not None:
+                    new_elem_ids.append(new_elem.id)
+            return new_elem_ids or None
 
     def get_attribute_value(self, att_name):
         """
-- 
2.43.0


From 11eef544d7258b4bb6408f0ad0b9c95d6f3e1203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:38 +0000
Subject: [PATCH 11/59] fix: retiming delay of a document with a body duration
 but no begin

The end of such a document stayed where it was, so the delayed content was cut short or lost.
---
 ebu_tt_live/node/delay.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ebu_tt_live/node/delay.py b/ebu_tt_live/node/delay.py
index c873e93..c76ad3f 100644
--- a/ebu_tt_live/node/delay.py
+++ b/ebu_tt_live/node/delay.py
@@ -116,6 +116,12 @@ def update_children_timing(element, timebase, delay_int):
                     delay = FullClockTimingType(timedelta(seconds=delay_int))
                     child.value.end = FullClockTimingType(child.value.end.timedelta + delay.timedelta)
 
+            if getattr(child.value, 'dur', None) is not None and child.value.begin is None:
+                # A duration without a begin (only the body may have one) counts from the availability of the
+                # document, which stays the same.
+                dur_type = LimitedClockTimingType if timebase == 'clock' else FullClockTimingType
+                child.value.dur = dur_type(child.value.dur.timedelta + timedelta(seconds=delay_int))
+
             if hasattr(child.value, 'begin') and child.value.begin != None:
 
                 if timebase == 'clock':
-- 
2.43.0


From 4ae9588230f0f41cab994655578a316347ebbec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:25 +0000
Subject: [PATCH 12/59] fix: nodes that modify a document do not pass on the
 XML it was read from

---
 ebu_tt_live/node/deduplicator.py | 3 ++-
 ebu_tt_live/node/delay.py        | 3 ++-
 ebu_tt_live/node/handover.py     | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/ebu_tt_live/node/deduplicator.py b/ebu_tt_live/node/deduplicator.py
index e58364a..01b76fb 100644
--- a/ebu_tt_live/node/deduplicator.py
+++ b/ebu_tt_live/node/deduplicator.py
@@ -31,7 +31,8 @@ class DeDuplicatorNode(AbstractCombinedNode):
         )
         self._sequence_identifier = sequence_identifier
 
-    def process_document(self, document, **kwargs):
+    def process_document(self, document, raw_xml=None, **kwargs):
+        # The raw_xml is not passed on because it does not describe the modified document.
         if self.is_document(document):
 
             if document.sequence_identifier == self._sequence_identifier:
diff --git a/ebu_tt_live/node/delay.py b/ebu_tt_live/node/delay.py
index c76ad3f..2a3871e 100644
--- a/ebu_tt_live/node/delay.py
+++ b/ebu_tt_live/node/delay.py
@@ -30,7 +30,8 @@ class RetimingDelayNode(AbstractCombinedNode):
         self._fixed_delay = fixed_delay
         self._document_sequence = document_sequence
 
-    def process_document(self, document, **kwargs):
+    def process_document(self, document, raw_xml=None, **kwargs):
+        # The raw_xml is not passed on because it does not describe the modified document.
         if self.is_document(document):
 
             if document.sequence_identifier == self._document_sequence:
diff --git a/ebu_tt_live/node/handover.py b/ebu_tt_live/node/handover.py
index 33bfdf0..f2fb989 100644
--- a/ebu_tt_live/node/handover.py
+++ b/ebu_tt_live/node/handover.py
@@ -32,7 +32,7 @@ class HandoverNode(SwitcherNode):
         self._last_sequence_number = 0
         self._known_sequences = {}
 
-    def process_document(self, document, **kwargs):
+    def process_document(self, document, raw_xml=None, **kwargs):
         """
         The specified functionality is met by keeping the following priorities in mind when processing an
         incoming document:
@@ -57,6 +57,7 @@ class HandoverNode(SwitcherNode):
 
 
         :param document:
+        :param raw_xml: It is not passed on because it does not describe the modified document.
         :param kwargs:
 
         """
-- 
2.43.0


From cb6c5f3f066b55c1d11112bb8f3509c0cf3fe42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:25 +0000
Subject: [PATCH 13/59] fix: two buffer delay nodes in a row add up instead of
 failing

---
 ebu_tt_live/node/delay.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ebu_tt_live/node/delay.py b/ebu_tt_live/node/delay.py
index 2a3871e..ab08cc0 100644
--- a/ebu_tt_live/node/delay.py
+++ b/ebu_tt_live/node/delay.py
@@ -94,9 +94,10 @@ class BufferDelayNode(AbstractCombinedNode):
         )
         self._fixed_delay = fixed_delay
 
-    def process_document(self, document, **kwargs):
+    def process_document(self, document, delay=None, **kwargs):
 
-        self.producer_carriage.emit_data(data=document, delay=self._fixed_delay, **kwargs)
+        # The delay of a preceding node adds up with the one of this node.
+        self.producer_carriage.emit_data(data=document, delay=(delay or 0) + self._fixed_delay, **kwargs)
 
 
 def update_children_timing(element, timebase, delay_int):
-- 
2.43.0


From f9fe35100effe085b5e89be14b2265866c24a19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:25 +0000
Subject: [PATCH 14/59] fix: the encoder can follow a distributor

---
 ebu_tt_live/node/encoder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ebu_tt_live/node/encoder.py b/ebu_tt_live/node/encoder.py
index 5091771..161b8d9 100644
--- a/ebu_tt_live/node/encoder.py
+++ b/ebu_tt_live/node/encoder.py
@@ -45,4 +45,6 @@ class EBUTTDEncoder(AbstractCombinedNode):
             # Hard coded to 'media' because that's all that's permitted in EBU-TT-D. Alternative
             # would be to extract it from the EBUTTDDocument but since it's the only permitted
             # value that would be an unnecessary overhead...
-            self.producer_carriage.emit_data(data=converted_doc, sequence_identifier='default', time_base='media', **kwargs)
+            # What the preceding node said about the document it sent does not override what is said about this one.
+            kwargs.update(dict(sequence_identifier='default', time_base='media'))
+            self.producer_carriage.emit_data(data=converted_doc, **kwargs)
-- 
2.43.0


From 599ee67ef4da737b76a7c2d6d1cd9771f9edc07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:25 +0000
Subject: [PATCH 15/59] fix: a document of a sequence is found by its number,
 not by its position

---
 ebu_tt_live/documents/ebutt3.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ebu_tt_live/documents/ebutt3.py b/ebu_tt_live/documents/ebutt3.py
index 3601b82..9f77810 100644
--- a/ebu_tt_live/documents/ebutt3.py
+++ b/ebu_tt_live/documents/ebutt3.py
@@ -910,7 +910,10 @@ class EBUTT3DocumentSequence(TimelineUtilMixin, CloningDocumentSequence):
             self._last_sequence_number = document.sequence_number
 
     def get_document(self, seq_id):
-        return self._documents[seq_id]
+        for document in self._documents:
+            if document.sequence_number == seq_id:
+                return document
+        raise KeyError(seq_id)
 
     def _find_resolved_begin_event(self, document):
         if document not in self._documents:
-- 
2.43.0


From e81dabbc5b11634cefbdab78ea2e72ed7a327c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:25 +0000
Subject: [PATCH 16/59] fix: documents with text beyond ASCII can be written to
 files

---
 ebu_tt_live/carriage/filesystem.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ebu_tt_live/carriage/filesystem.py b/ebu_tt_live/carriage/filesystem.py
index ef4db44..da9ad4c 100644
--- a/ebu_tt_live/carriage/filesystem.py
+++ b/ebu_tt_live/carriage/filesystem.py
@@ -154,6 +154,8 @@ class FilesystemProducerImpl(AbstractProducerCarriage):
         # if statements.
         filepath = os.path.join(self._dirpath, filename)
         with open(filepath, 'w') as destfile:
+            if isinstance(data, six.text_type):
+                data = data.encode('utf-8')
             destfile.write(data)
             destfile.flush()
                         
-- 
2.43.0


From 7ba468362f213788ec4b5aa60256837898f1701e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:25 +0000
Subject: [PATCH 17/59] fix: each sequence written to a folder has its own
 manifest

---
 ebu_tt_live/carriage/filesystem.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/ebu_tt_live/carriage/filesystem.py b/ebu_tt_live/carriage/filesystem.py
index da9ad4c..2da8e52 100644
--- a/ebu_tt_live/carriage/filesystem.py
+++ b/ebu_tt_live/carriage/filesystem.py
@@ -54,7 +54,6 @@ class FilesystemProducerImpl(AbstractProducerCarriage):
     and the current sequence is set to start from the next sequence number.
     """
 
-    _manifest_path = None
     _dirpath = None
     _file_name_pattern = None
     _message_file_name_pattern = None
@@ -190,17 +189,16 @@ class FilesystemProducerImpl(AbstractProducerCarriage):
             if delay is not None:
                 availability_time += timedelta(seconds=delay)
 
-            # Open the manifest filepath
-            if self._manifest_path is None :
-                manifest_filename = CFG_MANIFEST_FILENAME_PATTERN.format(
-                    sequence_identifier=sequence_identifier)
-                self._manifest_path = os.path.join(self._dirpath, manifest_filename)
-                
+            # Work out the manifest filepath: each sequence has its own manifest
+            manifest_filename = CFG_MANIFEST_FILENAME_PATTERN.format(
+                sequence_identifier=sequence_identifier)
+            manifest_path = os.path.join(self._dirpath, manifest_filename)
+
             # Write a new line to the manifest file
             new_manifest_line = CFG_MANIFEST_LINE_PATTERN.format(
                 availability_time=timedelta_to_str_manifest(availability_time), 
                 filename=filename)
-            with open(self._manifest_path, 'a') as f:
+            with open(manifest_path, 'a') as f:
                 f.write(new_manifest_line)
 
 
-- 
2.43.0


From 10fda2400e71692e383d6350d8f0d9b24ba0f3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:25 +0000
Subject: [PATCH 18/59] fix: a file name in a manifest may contain a comma

---
 ebu_tt_live/carriage/filesystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebu_tt_live/carriage/filesystem.py b/ebu_tt_live/carriage/filesystem.py
index 2da8e52..6a6a6d0 100644
--- a/ebu_tt_live/carriage/filesystem.py
+++ b/ebu_tt_live/carriage/filesystem.py
@@ -253,7 +253,7 @@ class FilesystemReader(object):
                         break
                 else:
                     # If CFG_MANIFEST_LINE_PATTERN changes, then the parsing below needs to change too.
-                    availability_time_str, xml_file_name = manifest_line.rstrip().split(',')
+                    availability_time_str, xml_file_name = manifest_line.rstrip().split(',', 1)
                     xml_file_path = os.path.join(self._dirpath, xml_file_name)
                     xml_content = None
                     with open(xml_file_path, 'r') as xml_file:
-- 
2.43.0


From 2439f31ff09469b160a0ad6aa496b996cafd8742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:26 +0000
Subject: [PATCH 19/59] fix: a file that cannot be deleted does not end the
 deletion of the others

---
 ebu_tt_live/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebu_tt_live/utils.py b/ebu_tt_live/utils.py
index 9ae3afc..d4732f4 100644
--- a/ebu_tt_live/utils.py
+++ b/ebu_tt_live/utils.py
@@ -140,7 +140,7 @@ class RotatingFileBuffer(RingBufferWithCallback):
                 # If not we do nothing. The loop discards the name
                 try:
                     os.remove(full_path)
-                except IOError:
+                except (IOError, OSError):
                     # Horrible! Quick, put it back... NEXT
                     failed_files.append(item)
 
-- 
2.43.0


From c844b18c7c109c3c5e6419dc69572fec33019c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:40 +0000
Subject: [PATCH 20/59] fix: of several referenced styles the last one takes
 precedence

---
 ebu_tt_live/bindings/__init__.py                | 3 ++-
 ebu_tt_live/bindings/validation/presentation.py | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/ebu_tt_live/bindings/__init__.py b/ebu_tt_live/bindings/__init__.py
index 5948a1b..010f8bd 100644
--- a/ebu_tt_live/bindings/__init__.py
+++ b/ebu_tt_live/bindings/__init__.py
@@ -153,7 +153,8 @@ class style_type(StyledElementMixin, IDMixin, SizingValidationMixin, SemanticVal
                 return self._ordered_styles
             ordered_styles = [self]
             if self.style is not None:
-                for style_id in self.style:
+                # A style named later in the list overrides the ones named before it.
+                for style_id in reversed(self.style):
                     try:
                         style_elem = dataset['tt_element'].get_element_by_id(elem_id=style_id, elem_type=style_type)
                         cascading_styles = style_elem.ordered_styles(dataset=dataset)
diff --git a/ebu_tt_live/bindings/validation/presentation.py b/ebu_tt_live/bindings/validation/presentation.py
index 94711e4..a8f6af8 100644
--- a/ebu_tt_live/bindings/validation/presentation.py
+++ b/ebu_tt_live/bindings/validation/presentation.py
@@ -64,8 +64,8 @@ class StyledElementMixin(object):
             extra_referenced_styles = []
 
         if self.style is not None:
-            # Styles cascade
-            for style_id in self.style:
+            # Styles cascade. A style named later in the list overrides the ones named before it.
+            for style_id in reversed(self.style):
                 try:
                     style = dataset['tt_element'].get_element_by_id(elem_id=style_id, elem_type=style_type)
                     for style_binding in style.ordered_styles(dataset=dataset):
-- 
2.43.0


From 8fca3569d6ff3fee7977c7bb7ca20720d1a48e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:40 +0000
Subject: [PATCH 21/59] fix: percentages of nested containers are relative to
 the font size of the region

---
 ebu_tt_live/bindings/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ebu_tt_live/bindings/__init__.py b/ebu_tt_live/bindings/__init__.py
index 010f8bd..7cbd151 100644
--- a/ebu_tt_live/bindings/__init__.py
+++ b/ebu_tt_live/bindings/__init__.py
@@ -225,6 +225,10 @@ class style_type(StyledElementMixin, IDMixin, SizingValidationMixin, SemanticVal
             if isinstance(spec_font_size, ebuttdt.PercentageFontSizeType):
                 if parent_computed_style is not None and parent_computed_style.fontSize is not None:
                     result_font_size = parent_computed_style.fontSize * spec_font_size
+                    if isinstance(result_font_size, ebuttdt.PercentageFontSizeType) \
+                            and region_computed_style is not None and region_computed_style.fontSize is not None:
+                        # The calculation of the parent was deferred and now the region is known
+                        result_font_size *= region_computed_style.fontSize
                 elif region_computed_style is not None and region_computed_style.fontSize is not None:
                     result_font_size = region_computed_style.fontSize * spec_font_size
                 else:
-- 
2.43.0


From cee270b509c03d0c645a61a5cd42faababe2de01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:40 +0000
Subject: [PATCH 22/59] fix: an inherited relative line height is computed from
 the font size of the element it is specified on

---
 ebu_tt_live/bindings/__init__.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/ebu_tt_live/bindings/__init__.py b/ebu_tt_live/bindings/__init__.py
index 7cbd151..4a05ac2 100644
--- a/ebu_tt_live/bindings/__init__.py
+++ b/ebu_tt_live/bindings/__init__.py
@@ -330,7 +330,8 @@ class style_type(StyledElementMixin, IDMixin, SizingValidationMixin, SemanticVal
         return None
 
     @classmethod
-    def compute_line_height(cls, specified_style, parent_computed_style, region_computed_style, dataset, font_size):
+    def compute_line_height(cls, specified_style, parent_computed_style, region_computed_style, dataset, font_size,
+                            defer=False):
         fallback_order = [specified_style, parent_computed_style, region_computed_style]
         for item in fallback_order:
             if item is not None and item.lineHeight is not None and 'lineHeight' not in item.default_attrs:
@@ -344,9 +345,20 @@ class style_type(StyledElementMixin, IDMixin, SizingValidationMixin, SemanticVal
                             dataset['tt_element'].cellResolution
                         )
                     )
-                elif isinstance(selected_value, ebuttdt.PercentageLineHeightType) and isinstance(font_size, ebuttdt.cellFontSizeType):
-                    # We only need to deal with this case if fontSize was not deferred
-                    selected_value *= font_size
+                elif isinstance(selected_value, ebuttdt.PercentageLineHeightType):
+                    if item is specified_style:
+                        if isinstance(font_size, ebuttdt.cellFontSizeType):
+                            selected_value *= font_size
+                        elif font_size is not None:
+                            # fontSize was deferred: the result is relative to the fontSize of the region to come
+                            selected_value = ebuttdt.PercentageLineHeightType(
+                                selected_value.vertical * font_size.vertical / 100
+                            )
+                    elif region_computed_style is not None and region_computed_style.fontSize is not None:
+                        # An ancestor deferred it and now the region is known
+                        selected_value *= region_computed_style.fontSize
+                    elif defer is False:
+                        selected_value *= ebuttdt.CellFontSizeType('1c')
 
                 return selected_value
         return None
@@ -382,7 +394,8 @@ class style_type(StyledElementMixin, IDMixin, SizingValidationMixin, SemanticVal
             parent_computed_style=parent_computed_style,
             region_computed_style=region_computed_style,
             dataset=dataset,
-            font_size=computed.fontSize
+            font_size=computed.fontSize,
+            defer=defer_font_size
         )
 
         if computed_line_height is None:
-- 
2.43.0


From 74207f7cbe199456ae9730041b920a9705314aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:26 +0000
Subject: [PATCH 23/59] fix: EBU-TT-D documents with a namespace prefix or
 non-ASCII text can be read

---
 ebu_tt_live/documents/ebuttd.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ebu_tt_live/documents/ebuttd.py b/ebu_tt_live/documents/ebuttd.py
index 7934799..e35c6e2 100644
--- a/ebu_tt_live/documents/ebuttd.py
+++ b/ebu_tt_live/documents/ebuttd.py
@@ -1,4 +1,5 @@
 import logging
+import six
 from xml.dom import minidom
 from .base import SubtitleDocument, TimeBase
 from ebu_tt_live import bindings
@@ -36,9 +37,12 @@ class EBUTTDDocument(SubtitleDocument):
     def create_from_xml(cls, xml):
         # NOTE: This is a workaround to make the bindings accept separate root element identities
         # for the same name. tt comes in but we rename it to ttd to make the xsd validate.
+        if isinstance(xml, six.text_type):
+            xml = xml.encode('utf-8')
         xml_dom = minidom.parseString(xml)
-        if xml_dom.documentElement.tagName == 'tt':
-            xml_dom.documentElement.tagName = 'ttd'
+        prefix, colon, local_name = xml_dom.documentElement.tagName.rpartition(':')
+        if local_name == 'tt':
+            xml_dom.documentElement.tagName = prefix + colon + 'ttd'
         instance = cls.create_from_raw_binding(
             binding=bindings.CreateFromDOM(
                 xml_dom
-- 
2.43.0


From 4f84f4f6f78e9f4b6e70dfd8b2ba4bba45483d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:26 +0000
Subject: [PATCH 24/59] fix: the adapter to EBU-TT-D converts the content of
 the document

---
 ebu_tt_live/adapters/document_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebu_tt_live/adapters/document_data.py b/ebu_tt_live/adapters/document_data.py
index b237ba8..e90ee06 100644
--- a/ebu_tt_live/adapters/document_data.py
+++ b/ebu_tt_live/adapters/document_data.py
@@ -106,7 +106,7 @@ class EBUTT3toEBUTTDAdapter(IDocumentDataAdapter):
         self._converter = EBUTT3EBUTTDConverter(media_clock=media_clock)
 
     def convert_data(self, data, **kwargs):
-        return EBUTTDDocument.create_from_raw_binding(self._converter.convert_document(data)), kwargs
+        return EBUTTDDocument.create_from_raw_binding(self._converter.convert_document(data.binding)), kwargs
 
 
 def get_document_data_adapter(expects, provides):
-- 
2.43.0


From de96f33263a64519995c71b99ed7bdd8c7ee6a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:26 +0000
Subject: [PATCH 25/59] fix: the encoder uses the default namespace when it is
 told to

---
 ebu_tt_live/node/encoder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ebu_tt_live/node/encoder.py b/ebu_tt_live/node/encoder.py
index 161b8d9..5e2fa82 100644
--- a/ebu_tt_live/node/encoder.py
+++ b/ebu_tt_live/node/encoder.py
@@ -41,6 +41,7 @@ class EBUTTDEncoder(AbstractCombinedNode):
             converted_doc = EBUTTDDocument.create_from_raw_binding(
                 self._ebuttd_converter.convert_document(document.binding)
             )
+            converted_doc.set_implicit_ns(self._default_ns)
             # Specify the time_base since the FilesystemProducerImpl can't derive it otherwise.
             # Hard coded to 'media' because that's all that's permitted in EBU-TT-D. Alternative
             # would be to extract it from the EBUTTDDocument but since it's the only permitted
-- 
2.43.0


From 2ee1d73671f89c0349b6fa87fa8b33ecc8ebc4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:26 +0000
Subject: [PATCH 26/59] fix: styles of the body, roles of divisions and
 multiRowAlign are kept in EBU-TT-D

---
 ebu_tt_live/bindings/converters/ebutt3_ebuttd.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ebu_tt_live/bindings/converters/ebutt3_ebuttd.py b/ebu_tt_live/bindings/converters/ebutt3_ebuttd.py
index 39bfabc..ce2fe14 100644
--- a/ebu_tt_live/bindings/converters/ebutt3_ebuttd.py
+++ b/ebu_tt_live/bindings/converters/ebutt3_ebuttd.py
@@ -234,6 +234,7 @@ class EBUTT3EBUTTDConverter(object):
             wrapOption=style_in.wrapOption,
             padding=style_in.padding,
             linePadding=style_in.linePadding,
+            multiRowAlign=style_in.multiRowAlign,
             _strict_keywords=False
         )
         return new_elem
@@ -243,6 +244,7 @@ class EBUTT3EBUTTDConverter(object):
             return None
         new_elem = d_body_type(
             *self.convert_children(body_in, dataset),
+            style=body_in.style,
             agent=body_in.agent,
             role=body_in.role
         )
@@ -254,7 +256,8 @@ class EBUTT3EBUTTDConverter(object):
             id=div_in.id,
             region=div_in.region,
             style=div_in.style,
-            agent=div_in.agent
+            agent=div_in.agent,
+            role=div_in.role
         )
         return new_elem
 
-- 
2.43.0


From 3e1ea8c043f986a1caf0e5294614381b5ee14519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:26 +0000
Subject: [PATCH 27/59] fix: styles referenced by styles are kept in EBU-TT-D

---
 .../bindings/converters/ebutt3_ebuttd.py      | 19 +++++++++++++------
 .../bindings/validation/presentation.py       | 10 ++++++++++
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/ebu_tt_live/bindings/converters/ebutt3_ebuttd.py b/ebu_tt_live/bindings/converters/ebutt3_ebuttd.py
index ce2fe14..8b4e38f 100644
--- a/ebu_tt_live/bindings/converters/ebutt3_ebuttd.py
+++ b/ebu_tt_live/bindings/converters/ebutt3_ebuttd.py
@@ -37,6 +37,14 @@ class EBUTT3EBUTTDConverter(object):
         if time_base == 'smpte':
             raise NotImplementedError()
 
+    def _flatten_styles(self, elem):
+        """
+        In EBU-TT-D a style cannot refer to other styles so the elements need to refer to all of them.
+        :param elem: the original instance
+        :return: style ids, where a later one overrides the ones before it
+        """
+        return [style.id for style in reversed(elem.referenced_styles)] or None
+
     def _adjusted_font_style_map(self):
         return self._semantic_dataset.setdefault(self._dataset_key_for_font_styles, {})
 
@@ -189,7 +197,7 @@ class EBUTT3EBUTTDConverter(object):
             id=region_in.id,
             origin=origin,
             extent=extent,
-            style=region_in.style,
+            style=self._flatten_styles(region_in),
             displayAlign=region_in.displayAlign,
             padding=region_in.padding,
             writingMode=region_in.writingMode,
@@ -219,7 +227,6 @@ class EBUTT3EBUTTDConverter(object):
         new_elem = d_style_type(
             *self.convert_children(style_in, dataset),
             id=style_in.id,
-            style=style_in.style,  # there is no ordering requirement in styling so too soon to deconflict here
             direction=style_in.direction,
             fontFamily=style_in.fontFamily,
             fontSize=None,  # This will be regenerated in separate style. This is necessary due to % fontSize conversions
@@ -244,7 +251,7 @@ class EBUTT3EBUTTDConverter(object):
             return None
         new_elem = d_body_type(
             *self.convert_children(body_in, dataset),
-            style=body_in.style,
+            style=self._flatten_styles(body_in),
             agent=body_in.agent,
             role=body_in.role
         )
@@ -255,7 +262,7 @@ class EBUTT3EBUTTDConverter(object):
             *self.convert_children(div_in, dataset),
             id=div_in.id,
             region=div_in.region,
-            style=div_in.style,
+            style=self._flatten_styles(div_in),
             agent=div_in.agent,
             role=div_in.role
         )
@@ -270,7 +277,7 @@ class EBUTT3EBUTTDConverter(object):
             lang=p_in.lang,
             id=p_in.id,
             region=p_in.region,
-            style=p_in.style,
+            style=self._flatten_styles(p_in),
             agent=p_in.agent,
             role=p_in.role
         )
@@ -284,7 +291,7 @@ class EBUTT3EBUTTDConverter(object):
             end=self._process_timing_type(span_in.end, dataset=dataset),
             lang=span_in.lang,
             id=span_in.id,
-            style=span_in.style,
+            style=self._flatten_styles(span_in),
             agent=span_in.agent,
             role=span_in.role
         )
diff --git a/ebu_tt_live/bindings/validation/presentation.py b/ebu_tt_live/bindings/validation/presentation.py
index a8f6af8..d1fccba 100644
--- a/ebu_tt_live/bindings/validation/presentation.py
+++ b/ebu_tt_live/bindings/validation/presentation.py
@@ -155,6 +155,16 @@ class StyledElementMixin(object):
             raise SemanticValidationError(ERR_SEMANTIC_VALIDATION_EXPECTED)
         return self._validated_styles
 
+    @property
+    def referenced_styles(self):
+        """
+        The styles this element refers to, directly or through other styles. An earlier one overrides a later one.
+        :return:
+        """
+        if self._referenced_styles is None:
+            raise SemanticValidationError(ERR_SEMANTIC_VALIDATION_EXPECTED)
+        return self._referenced_styles
+
     @property
     def inherited_region(self):
         return self._inherited_region
-- 
2.43.0


From 4e365f79e8176dd8652071f0530096eeb30b81c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:26 +0000
Subject: [PATCH 28/59] fix: elements of the same font size keep their own line
 heights in EBU-TT-D

---
 .../bindings/converters/ebutt3_ebuttd.py      | 48 +++++++++----------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/ebu_tt_live/bindings/converters/ebutt3_ebuttd.py b/ebu_tt_live/bindings/converters/ebutt3_ebuttd.py
index 8b4e38f..b1d15c8 100644
--- a/ebu_tt_live/bindings/converters/ebutt3_ebuttd.py
+++ b/ebu_tt_live/bindings/converters/ebutt3_ebuttd.py
@@ -48,14 +48,18 @@ class EBUTT3EBUTTDConverter(object):
     def _adjusted_font_style_map(self):
         return self._semantic_dataset.setdefault(self._dataset_key_for_font_styles, {})
 
-    def _get_font_size_style(self, vertical, dataset, horizontal=None):
+    def _get_font_size_style(self, vertical, dataset, horizontal=None, line_height=None):
         """
         This function either points us to an already generated version of this style or creates it on demand.
         :param vertical:
         :param horizontal:
+        :param line_height: percentage of the font size
         :return:
         """
         font_style_id = self._font_size_style_template.format(horizontal, vertical)
+        if line_height is not None:
+            # Elements of the same font size may have different line heights
+            font_style_id = '{}_{}'.format(font_style_id, line_height)
         adjusted_font_style_map = self._adjusted_font_style_map()
         if font_style_id in adjusted_font_style_map:
             instance = adjusted_font_style_map[font_style_id]
@@ -70,6 +74,8 @@ class EBUTT3EBUTTDConverter(object):
                 id=font_style_id,
                 fontSize=ebuttdt.PercentageFontSizeType(horizontal, vertical)
             )
+        if line_height is not None:
+            instance.lineHeight = ebuttdt.PercentageLineHeightType(line_height)
 
         adjusted_font_style_map[font_style_id] = instance
 
@@ -94,31 +100,25 @@ class EBUTT3EBUTTDConverter(object):
             if isinstance(elem, p_type):
                 # Since we eliminated all our fontSize attributes from the original styles here it is
                 # as simple as computing based on the default value. p does not recurse
-                default_font_size = ebuttdt.CellFontSizeType('1c')
-                if default_font_size == computed_font_size:
-                    return
-                else:
-                    relative_font_size = computed_font_size / default_font_size
-                    adjusted_style = self._get_font_size_style(
-                        vertical=relative_font_size.vertical,
-                        dataset=dataset
-                    )
-
-            elif isinstance(elem, span_type):
-                parent_computed_font_size = parent.computed_style.fontSize
-                if parent_computed_font_size == computed_font_size:
-                    return
-                else:
-                    relative_font_size = computed_font_size / parent_computed_font_size
-                    adjusted_style = self._get_font_size_style(
-                        vertical=relative_font_size.vertical,
-                        dataset=dataset
-                    )
+                reference_font_size = ebuttdt.CellFontSizeType('1c')
+                reference_line_height = None
+            else:
+                reference_font_size = parent.computed_style.fontSize
+                reference_line_height = parent.computed_style.lineHeight
 
+            line_height = None
             if isinstance(computed_line_height, ebuttdt.CellLineHeightType):
-                adjusted_style.lineHeight = ebuttdt.PercentageLineHeightType(
-                    computed_line_height.vertical / computed_font_size.vertical * 100
-                )
+                if computed_line_height != reference_line_height:
+                    line_height = computed_line_height.vertical / computed_font_size.vertical * 100
+
+            if reference_font_size == computed_font_size and line_height is None:
+                return
+
+            adjusted_style = self._get_font_size_style(
+                vertical=(computed_font_size / reference_font_size).vertical,
+                dataset=dataset,
+                line_height=line_height
+            )
             if celem.style is None:
                 celem.style = [
                     adjusted_style.id
-- 
2.43.0


From cc5cea81394d6b8dd8cc1b5c2825b362e0669e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:05 +0000
Subject: [PATCH 29/59] fix: EBU-TT-D documents with timing can be read

---
 ebu_tt_live/bindings/__init__.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ebu_tt_live/bindings/__init__.py b/ebu_tt_live/bindings/__init__.py
index 4a05ac2..1396995 100644
--- a/ebu_tt_live/bindings/__init__.py
+++ b/ebu_tt_live/bindings/__init__.py
@@ -1130,6 +1130,14 @@ raw.layout._SetSupersedingClass(layout)
 
 class d_tt_type(raw.d_tt_type):
 
+    def _setAttribute(self, attr_en, value):
+        au = super(d_tt_type, self)._setAttribute(attr_en, value)
+        context = get_xml_parsing_context()
+        if context is not None:
+            # This means we are in XML parsing mode and the timing types to come need to know the timeBase
+            context['timeBase'] = self.timeBase
+        return au
+
     @classmethod
     def __check_bds(cls, bds):
         if bds:
-- 
2.43.0


From 5b8dcf256419256de0957a23b0a7e41468844e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:28 +0000
Subject: [PATCH 30/59] fix: line breaks and indentation are not added to the
 text when a document is serialised

---
 ebu_tt_live/bindings/__init__.py   | 12 +++------
 ebu_tt_live/bindings/pyxb_utils.py | 39 ++++++++++++++++++++++++++++++
 2 files changed, 42 insertions(+), 9 deletions(-)

diff --git a/ebu_tt_live/bindings/__init__.py b/ebu_tt_live/bindings/__init__.py
index 1396995..7b69c80 100644
--- a/ebu_tt_live/bindings/__init__.py
+++ b/ebu_tt_live/bindings/__init__.py
@@ -11,7 +11,7 @@ from . import _ebutts as ebutts
 from . import _ttm as ttm
 from . import _ttp as ttp
 from . import _tts as tts
-from .pyxb_utils import xml_parsing_context, get_xml_parsing_context
+from .pyxb_utils import xml_parsing_context, get_xml_parsing_context, dom_to_pretty_xml
 from .validation.base import SemanticDocumentMixin, SemanticValidationMixin, IDMixin
 from ebu_tt_live.bindings.validation.presentation import SizingValidationMixin, StyledElementMixin, RegionedElementMixin
 from ebu_tt_live.bindings.validation.timing import TimingValidationMixin, BodyTimingValidationMixin
@@ -541,10 +541,7 @@ class tt_type(SemanticDocumentMixin, raw.tt_type):
         dom = self.toDOM(self.__check_bds(bds), element_name=element_name)
         if root_only:
             dom = dom.documentElement
-        return dom.toprettyxml(
-            encoding=encoding,
-            indent='  '
-        )
+        return dom_to_pretty_xml(dom, encoding=encoding)
 
     def _semantic_after_subtree_copy(self, copied_instance, dataset, element_content=None):
         # This one does not have another parent to link with but it can make itself an element
@@ -1166,10 +1163,7 @@ class d_tt_type(raw.d_tt_type):
         dom = self.toDOM(self.__check_bds(bds), element_name=element_name)
         if root_only:
             dom = dom.documentElement
-        return dom.toprettyxml(
-            encoding=encoding,
-            indent='  '
-        )
+        return dom_to_pretty_xml(dom, encoding=encoding)
 
     def _validateBinding_vx(self):
         if self.timeBase != 'media':
diff --git a/ebu_tt_live/bindings/pyxb_utils.py b/ebu_tt_live/bindings/pyxb_utils.py
index 2fcfba8..8877719 100644
--- a/ebu_tt_live/bindings/pyxb_utils.py
+++ b/ebu_tt_live/bindings/pyxb_utils.py
@@ -53,6 +53,45 @@ class xml_parsing_context(object):
         reset_xml_parsing_context()
 
 
+def dom_to_pretty_xml(dom, encoding=None):
+    """
+    Serialises the DOM with line breaks and indentation except where these would become part of the text, which is
+    inside the elements that contain text.
+    :param dom: a document or an element
+    :param encoding:
+    :return: xml
+    """
+    def is_mixed(element):
+        return element.localName == 'p' or any(
+            node.nodeType in (node.TEXT_NODE, node.CDATA_SECTION_NODE) and node.data.strip()
+            for node in element.childNodes
+        )
+
+    def write_inline(element):
+        write = element.writexml
+
+        def writexml(writer, indent='', addindent='', newl=''):
+            writer.write(indent)
+            write(writer)
+            writer.write(newl)
+
+        element.writexml = writexml
+
+    def visit(node):
+        for child in node.childNodes:
+            if child.nodeType == child.ELEMENT_NODE:
+                if is_mixed(child):
+                    write_inline(child)
+                else:
+                    visit(child)
+
+    visit(dom)
+    return dom.toprettyxml(
+        encoding=encoding,
+        indent='  '
+    )
+
+
 class RecursiveOperation(object):
     """
     A recursive operation can be a validation of the content model, a full- or partial copy of the document tree, the
-- 
2.43.0


From 3ba4ec7a8f65d73a18d7bcbf4f6c7883005ccb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:07 +0000
Subject: [PATCH 31/59] fix: documents with empty divisions can be converted to
 EBU-TT-D

---
 ebu_tt_live/bindings/converters/ebutt3_ebuttd.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ebu_tt_live/bindings/converters/ebutt3_ebuttd.py b/ebu_tt_live/bindings/converters/ebutt3_ebuttd.py
index b1d15c8..e131f72 100644
--- a/ebu_tt_live/bindings/converters/ebutt3_ebuttd.py
+++ b/ebu_tt_live/bindings/converters/ebutt3_ebuttd.py
@@ -247,10 +247,11 @@ class EBUTT3EBUTTDConverter(object):
         return new_elem
 
     def convert_body(self, body_in, dataset):
-        if len(body_in.div) == 0:
+        children = self.convert_children(body_in, dataset)
+        if not any(isinstance(item, d_div_type) for item in children):
             return None
         new_elem = d_body_type(
-            *self.convert_children(body_in, dataset),
+            *children,
             style=self._flatten_styles(body_in),
             agent=body_in.agent,
             role=body_in.role
@@ -258,8 +259,12 @@ class EBUTT3EBUTTDConverter(object):
         return new_elem
 
     def convert_div(self, div_in, dataset):
+        children = self.convert_children(div_in, dataset)
+        if not any(isinstance(item, d_p_type) for item in children):
+            # EBU-TT-D does not allow empty divisions
+            return None
         new_elem = d_div_type(
-            *self.convert_children(div_in, dataset),
+            *children,
             id=div_in.id,
             region=div_in.region,
             style=self._flatten_styles(div_in),
-- 
2.43.0


From 2610929aca6502cdf0ae17246fa743e535136dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:46 +0000
Subject: [PATCH 32/59] fix: a document with text inside its metadata can be
 segmented

---
 ebu_tt_live/documents/ebutt3_segmentation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ebu_tt_live/documents/ebutt3_segmentation.py b/ebu_tt_live/documents/ebutt3_segmentation.py
index e9cd65f..27bdc4c 100644
--- a/ebu_tt_live/documents/ebutt3_segmentation.py
+++ b/ebu_tt_live/documents/ebutt3_segmentation.py
@@ -6,7 +6,7 @@ from ebu_tt_live.bindings.validation.base import SemanticValidationMixin, IDMixi
 from ebu_tt_live.bindings.pyxb_utils import RecursiveOperation
 from ebu_tt_live.bindings.validation.presentation import StyledElementMixin
 from ebu_tt_live.bindings import style_type, region_type
-from ebu_tt_live.errors import DiscardElement
+from ebu_tt_live.errors import DiscardElement, StopBranchIteration
 from ebu_tt_live.bindings import ebuttdt
 
 # Splicer and segmentation
@@ -97,7 +97,8 @@ class EBUTT3Segmenter(RecursiveOperation):
                 element_content=element
             )
         else:
-            self._do_copy(value, dataset=self._semantic_dataset)
+            # Metadata is not part of segments
+            raise StopBranchIteration()
 
     def _after_element(self, value, element=None, parent_binding=None, **kwargs):
         if isinstance(value, SemanticValidationMixin):
-- 
2.43.0


From 976787f77933ca068e76d592a80bb62ce00d352b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:34 +0000
Subject: [PATCH 33/59] fix: segments keep the xml:space of their document

---
 ebu_tt_live/bindings/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ebu_tt_live/bindings/__init__.py b/ebu_tt_live/bindings/__init__.py
index 7b69c80..6f06b4a 100644
--- a/ebu_tt_live/bindings/__init__.py
+++ b/ebu_tt_live/bindings/__init__.py
@@ -479,6 +479,7 @@ class tt_type(SemanticDocumentMixin, raw.tt_type):
     def __copy__(self):
         copied_tt = tt_type(
             lang=self.lang,
+            space=self.space,
             extent=self.extent,
             timeBase=self.timeBase,
             frameRate=self.frameRate,
-- 
2.43.0


From 809bc1809bb526bfce70c8d2f402ba638a5cc9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:45 +0000
Subject: [PATCH 34/59] fix: sequence identifiers and ids do not have to be
 ASCII

---
 ebu_tt_live/adapters/document_data.py            | 2 +-
 ebu_tt_live/bindings/__init__.py                 | 6 +++---
 ebu_tt_live/bindings/converters/ebutt3_ebuttd.py | 2 +-
 ebu_tt_live/bindings/validation/base.py          | 2 +-
 ebu_tt_live/documents/ebutt3.py                  | 6 +++---
 ebu_tt_live/node/base.py                         | 2 +-
 ebu_tt_live/node/consumer.py                     | 4 ++--
 ebu_tt_live/node/delay.py                        | 2 +-
 ebu_tt_live/node/distributing.py                 | 2 +-
 ebu_tt_live/strings.py                           | 9 ++++++++-
 10 files changed, 22 insertions(+), 15 deletions(-)

diff --git a/ebu_tt_live/adapters/document_data.py b/ebu_tt_live/adapters/document_data.py
index e90ee06..1c9ed83 100644
--- a/ebu_tt_live/adapters/document_data.py
+++ b/ebu_tt_live/adapters/document_data.py
@@ -34,7 +34,7 @@ class XMLtoEBUTT3Adapter(IDocumentDataAdapter):
 
         if sequence_identifier is not None and sequence_identifier != doc.sequence_identifier:
             log.error(
-                'Sequence identifier mismatch found: {} != {}'.format(sequence_identifier, doc.sequence_identifier)
+                u'Sequence identifier mismatch found: {} != {}'.format(sequence_identifier, doc.sequence_identifier)
             )
             raise UnexpectedSequenceIdentifierError()
         kwargs.update(dict(
diff --git a/ebu_tt_live/bindings/__init__.py b/ebu_tt_live/bindings/__init__.py
index 6f06b4a..ee6f0ba 100644
--- a/ebu_tt_live/bindings/__init__.py
+++ b/ebu_tt_live/bindings/__init__.py
@@ -971,7 +971,7 @@ class body_type(LiveStyledElementMixin, BodyTimingValidationMixin, SemanticValid
                     if copied_elem.id is not None and copied_elem.id in ids:
                         next_try = copied_elem.id
                         while next_try in ids:
-                            next_try = '{}.1'.format(next_try)
+                            next_try = u'{}.1'.format(next_try)
                         copied_elem.id = next_try
                     ids.add(copied_elem.id)
                 output.append(copied_elem)
@@ -1034,7 +1034,7 @@ class styling(SemanticValidationMixin, raw.styling):
             for item in other_elem.orderedContent():
                 copied_style = copy.copy(item.value)
                 if item.value.id in style_ids:
-                    copied_style.id = '{}.1'.format(copied_style.id)
+                    copied_style.id = u'{}.1'.format(copied_style.id)
                 self.append(copied_style)
 
         return self
@@ -1115,7 +1115,7 @@ class layout(SemanticValidationMixin, raw.layout):
             for item in other_elem.orderedContent():
                 copied_region = copy.copy(item.value)
                 if copied_region.id in region_ids:
-                    copied_region.id = '{}.1'.format(copied_region.id)
+                    copied_region.id = u'{}.1'.format(copied_region.id)
                     region_ids.add(copied_region.id)
                 self.append(copied_region)
         return self
diff --git a/ebu_tt_live/bindings/converters/ebutt3_ebuttd.py b/ebu_tt_live/bindings/converters/ebutt3_ebuttd.py
index e131f72..12d70ae 100644
--- a/ebu_tt_live/bindings/converters/ebutt3_ebuttd.py
+++ b/ebu_tt_live/bindings/converters/ebutt3_ebuttd.py
@@ -59,7 +59,7 @@ class EBUTT3EBUTTDConverter(object):
         font_style_id = self._font_size_style_template.format(horizontal, vertical)
         if line_height is not None:
             # Elements of the same font size may have different line heights
-            font_style_id = '{}_{}'.format(font_style_id, line_height)
+            font_style_id = u'{}_{}'.format(font_style_id, line_height)
         adjusted_font_style_map = self._adjusted_font_style_map()
         if font_style_id in adjusted_font_style_map:
             instance = adjusted_font_style_map[font_style_id]
diff --git a/ebu_tt_live/bindings/validation/base.py b/ebu_tt_live/bindings/validation/base.py
index 7e23aec..79633c3 100644
--- a/ebu_tt_live/bindings/validation/base.py
+++ b/ebu_tt_live/bindings/validation/base.py
@@ -204,7 +204,7 @@ class IDMixin(object):
     """
 
     _re_ebu_id_deconflict = re.compile('SEQ([0-9]+)\.(.*)')
-    _tp_ebu_id_deconflict = 'SEQ{sequence_number}.{original_id}'
+    _tp_ebu_id_deconflict = u'SEQ{sequence_number}.{original_id}'
 
     def deconflict_id(self, seq_num):
         if self.id is not None:
diff --git a/ebu_tt_live/documents/ebutt3.py b/ebu_tt_live/documents/ebutt3.py
index 9f77810..2138a6a 100644
--- a/ebu_tt_live/documents/ebutt3.py
+++ b/ebu_tt_live/documents/ebutt3.py
@@ -684,7 +684,7 @@ class EBUTT3DocumentSequence(TimelineUtilMixin, CloningDocumentSequence):
                     # Set the one we currently have in the document except the empty string
                     self._authors_group_identifier = document.authors_group_identifier
 
-            log.debug('Sequence number: {} can be safely inserted into sequence: {}'.format(
+            log.debug(u'Sequence number: {} can be safely inserted into sequence: {}'.format(
                 document.sequence_number,
                 self.sequence_identifier
             ))
@@ -980,7 +980,7 @@ class EBUTT3DocumentSequence(TimelineUtilMixin, CloningDocumentSequence):
                 document_segments.append(doc_segment)
             except Exception as err:
                 log.error(
-                    'Error extracting document segment from {}__{}'.format(
+                    u'Error extracting document segment from {}__{}'.format(
                         doc.sequence_identifier, doc.sequence_number
                     )
                 )
@@ -996,7 +996,7 @@ class EBUTT3DocumentSequence(TimelineUtilMixin, CloningDocumentSequence):
             # comp_doc.set_end(end)
         else:
             splicer = EBUTT3Splicer(
-                sequence_identifier='{}_resegmented'.format(self.sequence_identifier),
+                sequence_identifier=u'{}_resegmented'.format(self.sequence_identifier),
                 sequence_number=current_sequence_number,
                 document_segments=document_segments
             )
diff --git a/ebu_tt_live/node/base.py b/ebu_tt_live/node/base.py
index 80835b2..40fa4b0 100644
--- a/ebu_tt_live/node/base.py
+++ b/ebu_tt_live/node/base.py
@@ -92,7 +92,7 @@ class AbstractConsumerNode(IConsumerNode, __AbstractNode):
 
         if self._first_input_document_sequence != document.sequence_identifier:
             log.error(
-                'Sequences limited to one: expecting: {}, received: {}'.format(self._first_input_document_sequence, document.sequence_identifier)
+                u'Sequences limited to one: expecting: {}, received: {}'.format(self._first_input_document_sequence, document.sequence_identifier)
             )
             raise UnexpectedSequenceIdentifierError('Rejecting new sequence identifier')
 
diff --git a/ebu_tt_live/node/consumer.py b/ebu_tt_live/node/consumer.py
index f57f046..e79b535 100644
--- a/ebu_tt_live/node/consumer.py
+++ b/ebu_tt_live/node/consumer.py
@@ -32,7 +32,7 @@ class SimpleConsumer(AbstractConsumerNode):
 
             if self._sequence is None:
                 # Create sequence from document
-                log.info('Creating document sequence from first document {}'.format(
+                log.info(u'Creating document sequence from first document {}'.format(
                     document
                 ))
                 self.create_sequence_from_document(document)
@@ -97,7 +97,7 @@ class ReSequencer(AbstractProducerNode, SimpleConsumer):
         
         if init_document is not None:
             # Create sequence from init document, in order to immediately start document output
-            log.info('Creating document sequence from init document {}'.format(
+            log.info(u'Creating document sequence from init document {}'.format(
                 init_document
             ))
             with open(init_document, 'r') as xml_file:
diff --git a/ebu_tt_live/node/delay.py b/ebu_tt_live/node/delay.py
index ab08cc0..dbb7963 100644
--- a/ebu_tt_live/node/delay.py
+++ b/ebu_tt_live/node/delay.py
@@ -71,7 +71,7 @@ class RetimingDelayNode(AbstractCombinedNode):
                 self.producer_carriage.emit_data(data=document, **kwargs)
             else:
                 log.warning(
-                    'Ignoring duplicate document: {}__{}'.format(
+                    u'Ignoring duplicate document: {}__{}'.format(
                         document.sequence_identifier,
                         document.sequence_number
                     )
diff --git a/ebu_tt_live/node/distributing.py b/ebu_tt_live/node/distributing.py
index 85acfb7..7ea70e8 100644
--- a/ebu_tt_live/node/distributing.py
+++ b/ebu_tt_live/node/distributing.py
@@ -41,7 +41,7 @@ class DistributingNode(AbstractCombinedNode):
                 )
             else:
                 log.warning(
-                    'Ignoring duplicate document: {}__{}'.format(
+                    u'Ignoring duplicate document: {}__{}'.format(
                         document.sequence_identifier,
                         document.sequence_number
                     )
diff --git a/ebu_tt_live/strings.py b/ebu_tt_live/strings.py
index e2fb6c1..d36fc4c 100644
--- a/ebu_tt_live/strings.py
+++ b/ebu_tt_live/strings.py
@@ -1,5 +1,12 @@
 
-from gettext import gettext
+from gettext import gettext as _gettext
+
+
+def gettext(message):
+    # The result has to be text because the values formatted into the messages are not always ASCII
+    translated = _gettext(message)
+    return translated.decode('utf-8') if isinstance(translated, bytes) else translated
+
 
 # ERRORS
 ERR_NO_SUCH_COMPONENT = gettext('No such component: {type_name}')
-- 
2.43.0


From 2b3e61c265a24db4601aa7b7c695a1ac10733cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:56 +0000
Subject: [PATCH 35/59] fix: line heights in pixels require the extent of the
 document

---
 ebu_tt_live/bindings/_ebuttdt.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ebu_tt_live/bindings/_ebuttdt.py b/ebu_tt_live/bindings/_ebuttdt.py
index 06e374d..eafff99 100644
--- a/ebu_tt_live/bindings/_ebuttdt.py
+++ b/ebu_tt_live/bindings/_ebuttdt.py
@@ -676,10 +676,15 @@ class PercentageLineHeightType(TwoDimSizingMixin, ebuttdt_raw.percentageLineHeig
 ebuttdt_raw.percentageLineHeightType._SetSupersedingClass(PercentageLineHeightType)
 
 
-class PixelLineHeightType(TwoDimSizingMixin, ebuttdt_raw.pixelLineHeightType):
+class PixelLineHeightType(TwoDimSizingMixin, SizingValidationMixin, ebuttdt_raw.pixelLineHeightType):
 
     _groups_regex = re.compile('(?P<first>\d*\.?\d+)px')
     _1dim_format = '{}px'
 
+    def _semantic_validate_sizing_context(self, dataset):
+        extent = dataset['tt_element'].extent
+        if extent is None:
+            raise ExtentMissingError(self)
+
 
 ebuttdt_raw.pixelLineHeightType._SetSupersedingClass(PixelLineHeightType)
-- 
2.43.0


From 61fe33c56ab55e855bd1a89ea8096ff9030cc511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:56 +0000
Subject: [PATCH 36/59] fix: documents can be created in a thread that has not
 parsed one before

---
 ebu_tt_live/bindings/pyxb_utils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ebu_tt_live/bindings/pyxb_utils.py b/ebu_tt_live/bindings/pyxb_utils.py
index 8877719..28dec92 100644
--- a/ebu_tt_live/bindings/pyxb_utils.py
+++ b/ebu_tt_live/bindings/pyxb_utils.py
@@ -11,8 +11,14 @@ from pyxb.exceptions_ import NotComplexContentError
 
 log = logging.getLogger(__name__)
 
-__xml_parsing_context = threading.local()
-__xml_parsing_context.parsing = False
+
+class _ThreadLocalParsingContext(threading.local):
+    # The defaults have to exist in every thread, not only in the one that imports this module
+    parsing = False
+    context = None
+
+
+__xml_parsing_context = _ThreadLocalParsingContext()
 
 
 def get_xml_parsing_context():
-- 
2.43.0


From 2db56f7f1eb3ff3d376c863aab34f11d866dc9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:56 +0000
Subject: [PATCH 37/59] fix: a time of less than a millisecond can be written
 as a count

---
 ebu_tt_live/bindings/_ebuttdt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebu_tt_live/bindings/_ebuttdt.py b/ebu_tt_live/bindings/_ebuttdt.py
index eafff99..89368a3 100644
--- a/ebu_tt_live/bindings/_ebuttdt.py
+++ b/ebu_tt_live/bindings/_ebuttdt.py
@@ -263,10 +263,10 @@ class TimecountTimingType(_TimedeltaBindingMixin, ebuttdt_raw.timecountTimingTyp
         :param instance:
         :return:
         """
+        hours, minutes, seconds, milliseconds = _get_time_members(instance)
         # Get the edge case out of the way even though validation will catch a 0 duration later
-        if not instance:
+        if not (hours or minutes or seconds or milliseconds):
             return '0s'
-        hours, minutes, seconds, milliseconds = _get_time_members(instance)
         multiplier = 1
         numerator = 0
         unit = None
-- 
2.43.0


From 5b8b7159704a2d1ff54106f8cf6dc1d11e0d8dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:56 +0000
Subject: [PATCH 38/59] fix: negative origins keep their sign

---
 ebu_tt_live/bindings/_ebuttdt.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ebu_tt_live/bindings/_ebuttdt.py b/ebu_tt_live/bindings/_ebuttdt.py
index 89368a3..78d212f 100644
--- a/ebu_tt_live/bindings/_ebuttdt.py
+++ b/ebu_tt_live/bindings/_ebuttdt.py
@@ -438,7 +438,7 @@ ebuttdt_raw.smpteTimingType._SetSupersedingClass(SMPTETimingType)
 
 class PixelOriginType(TwoDimSizingMixin, SizingValidationMixin, ebuttdt_raw.pixelOriginType):
 
-    _groups_regex = re.compile('(?:[+-]?(?P<first>\d*\.?\d+)(?:px))\s(?:[+-]?(?P<second>\d*\.?\d+)(?:px))')
+    _groups_regex = re.compile('(?:(?P<first>[+-]?\d*\.?\d+)(?:px))\s(?:(?P<second>[+-]?\d*\.?\d+)(?:px))')
     _2dim_format = '{}px {}px'
 
     def _semantic_validate_sizing_context(self, dataset):
@@ -451,7 +451,7 @@ ebuttdt_raw.pixelOriginType._SetSupersedingClass(PixelOriginType)
 
 class CellOriginType(TwoDimSizingMixin, ebuttdt_raw.cellOriginType):
 
-    _groups_regex = re.compile(r'(?:[+-]?(?P<first>\d*\.?\d+)(?:c))\s(?:[+-]?(?P<second>\d*\.?\d+)(?:c))')
+    _groups_regex = re.compile(r'(?:(?P<first>[+-]?\d*\.?\d+)(?:c))\s(?:(?P<second>[+-]?\d*\.?\d+)(?:c))')
     _2dim_format = '{}c {}c'
 
 ebuttdt_raw.cellOriginType._SetSupersedingClass(CellOriginType)
@@ -459,7 +459,7 @@ ebuttdt_raw.cellOriginType._SetSupersedingClass(CellOriginType)
 
 class PercentageOriginType(TwoDimSizingMixin, ebuttdt_raw.percentageOriginType):
 
-    _groups_regex = re.compile('(?:[+-]?(?P<first>\d*\.?\d+)(?:%))\s(?:[+-]?(?P<second>\d*\.?\d+)(?:%))')
+    _groups_regex = re.compile('(?:(?P<first>[+-]?\d*\.?\d+)(?:%))\s(?:(?P<second>[+-]?\d*\.?\d+)(?:%))')
     _2dim_format = '{}% {}%'
 
 ebuttdt_raw.percentageOriginType._SetSupersedingClass(PercentageOriginType)
-- 
2.43.0


From 0bf8a8de0d90edcb3b1b55aeceefff20ba74e805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:44 +0000
Subject: [PATCH 39/59] fix: the deduplicator compares attributes and accepts
 any characters in them

---
 ebu_tt_live/node/deduplicator.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ebu_tt_live/node/deduplicator.py b/ebu_tt_live/node/deduplicator.py
index 01b76fb..f281b52 100644
--- a/ebu_tt_live/node/deduplicator.py
+++ b/ebu_tt_live/node/deduplicator.py
@@ -56,7 +56,6 @@ class DeDuplicatorNode(AbstractCombinedNode):
 
         if document.binding.head.styling is not None:
             styles = document.binding.head.styling.style
-            print styles
             document.binding.head.styling.style = None
 
             self.CollateUniqueVals(styles, old_id_dict, new_id_dict, hash_dict)
@@ -143,15 +142,16 @@ class ComparableElement:
         concatenatedStyleString = u''
         for key,val in sortedDict:
             styleValue = ReplaceNone(val.value(value))
-            concatenatedStyleString += str(styleValue) + '%'
+            concatenatedStyleString += unicode(styleValue) + '%'
 
-        for key,val in value.wildcardAttributeMap().items():
+        for key,val in sorted(value.wildcardAttributeMap().items(), key=lambda t: t[0]):
             namespace = ReplaceNone(key.namespaceURI())
             localName = key.localName()
             wildcardValue = ReplaceNone(val)
-            concatenatedStyleString += namespace + '%' + localName + '%' + wildcardValue
+            concatenatedStyleString += namespace + '%' + localName + '%' + wildcardValue + '%'
 
-        self.my_hash = hash(concatenatedStyleString)
+        # The attributes themselves, not a number made of them, because different attributes can have the same hash
+        self.my_hash = concatenatedStyleString
 
     def __eq__(self, other):
         return other and self.my_hash == other.my_hash
@@ -160,7 +160,7 @@ class ComparableElement:
         return not self.__eq__(other)
 
     def __hash__(self):
-        return self.my_hash
+        return hash(self.my_hash)
 
 
 class ReplaceStylesAndRegions(RecursiveOperation):
-- 
2.43.0


From fed5a00e2341ef9be417070be3a893fd63a44559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:44 +0000
Subject: [PATCH 40/59] fix: the deduplicator keeps the precedence of style
 references

---
 ebu_tt_live/node/deduplicator.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/ebu_tt_live/node/deduplicator.py b/ebu_tt_live/node/deduplicator.py
index f281b52..125fd76 100644
--- a/ebu_tt_live/node/deduplicator.py
+++ b/ebu_tt_live/node/deduplicator.py
@@ -124,6 +124,19 @@ def ReplaceNone(attr_value):
         return attr_value
 
 
+def ReplaceStyleReferences(value, old_id_dict, new_id_dict):
+    """
+    Replaces the style references of an element. References that become the same are reduced to the last one because
+    a style overrides those referenced before it.
+    """
+    style_refs = []
+    for old_id in list(value.style)[::-1]:
+        new_id = new_id_dict.get(old_id_dict.get(old_id), old_id)
+        if new_id not in style_refs:
+            style_refs.insert(0, new_id)
+    value.style = style_refs
+
+
 class ComparableElement:
     """
     Takes all the attributes of an element and returns a hash value
@@ -194,19 +207,7 @@ class ReplaceStylesAndRegions(RecursiveOperation):
         # style attributes on other elements, so we have to avoid getting confused by them
         if hasattr(value, 'style') and value.style is not None and not \
         isinstance(value, bindings.styling):
-            id_to_index_dict = dict()
-            # Stepping backwards to preserve hierarchy of style attributes
-            for old_id_index in range(len(value.style)-1, -1, -1):
-                old_id_ref = self.old_id_dict.get(value.style[old_id_index])
-                new_id_ref = self.new_id_dict.get(old_id_ref)
-
-                # Next two lines remove in-line style duplication
-                if new_id_ref in id_to_index_dict:
-                    del value.style[id_to_index_dict[new_id_ref]]
-
-                id_to_index_dict[new_id_ref] = old_id_index
-
-                value.style[old_id_index] = new_id_ref
+            ReplaceStyleReferences(value, self.old_id_dict, self.new_id_dict)
         else:
             pass
 
-- 
2.43.0


From 53b21c317c098231c26861292cf3c46a17599721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:44 +0000
Subject: [PATCH 41/59] fix: the deduplicator keeps references from style to
 style

---
 ebu_tt_live/node/deduplicator.py | 51 ++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 19 deletions(-)

diff --git a/ebu_tt_live/node/deduplicator.py b/ebu_tt_live/node/deduplicator.py
index 125fd76..9af796b 100644
--- a/ebu_tt_live/node/deduplicator.py
+++ b/ebu_tt_live/node/deduplicator.py
@@ -81,22 +81,39 @@ class DeDuplicatorNode(AbstractCombinedNode):
         """
         Creates a `dict()` of all unique style/region names
         """
-        for value in element_list:
+        for value in self.OrderByReference(element_list):
             #deduplicating in-line style attributes
             if value.style is not None:
-                for old_id_index in range(len(value.style)):
-                    old_id_ref = old_id_dict.get(value.style[old_id_index])
-                    new_id_ref = new_id_dict.get(old_id_ref)
-
-                    value.style[old_id_index] = new_id_ref
+                ReplaceStyleReferences(value, old_id_dict, new_id_dict)
 
             #deduplicating elements
-            if value is not None:
-                unique_val = ComparableElement(value)
-                # stores references of original <xml:id> to <my_hash>
-                old_id_dict[value.id] = unique_val.my_hash
-                # stores references of <my_hash> to element
-                hash_dict[unique_val.my_hash] = value
+            unique_val = ComparableElement(value)
+            # stores references of original <xml:id> to <my_hash>
+            old_id_dict[value.id] = unique_val.my_hash
+            # stores references of <my_hash> to element
+            hash_dict.setdefault(unique_val.my_hash, value)
+            # stores references of <my_hash> to the <xml:id> that replaces the original ones
+            new_id_dict[unique_val.my_hash] = hash_dict[unique_val.my_hash].id
+
+    def OrderByReference(self, element_list):
+        """
+        Lists the elements so that those that are referenced by others come before these
+        """
+        elements_by_id = dict((element.id, element) for element in element_list)
+        visited = set()
+        ordered = []
+
+        def visit(element):
+            if element.id not in visited:
+                visited.add(element.id)
+                for style_id in element.style or []:
+                    if style_id in elements_by_id:
+                        visit(elements_by_id[style_id])
+                ordered.append(element)
+
+        for element in element_list:
+            visit(element)
+        return ordered
 
     def AppendNewElements(self, element_list, element_to_append_to, old_id_dict, \
                           new_id_dict, hash_dict):
@@ -104,13 +121,9 @@ class DeDuplicatorNode(AbstractCombinedNode):
         Replaces starting style and region elements with the unique ones identified in
         CollateUniqueVals
         """
-        for hash_val, new_id in hash_dict.iteritems():
-
-            for old_element in element_list:
-                if old_element.id is new_id.id:
-                    element_to_append_to.append(new_id)
-
-            new_id_dict[hash_val] = new_id.id
+        for old_element in element_list:
+            if hash_dict.get(old_id_dict.get(old_element.id)) is old_element:
+                element_to_append_to.append(old_element)
 
 def ReplaceNone(attr_value):
     """
-- 
2.43.0


From 9de32030742fd8136fe9dcfd95825d1aa01b1541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:51 +0000
Subject: [PATCH 42/59] fix: a refused WebSocket connection ends without an
 error

---
 ebu_tt_live/twisted/websocket.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ebu_tt_live/twisted/websocket.py b/ebu_tt_live/twisted/websocket.py
index 6abab4f..cf0bcd3 100644
--- a/ebu_tt_live/twisted/websocket.py
+++ b/ebu_tt_live/twisted/websocket.py
@@ -325,10 +325,10 @@ class BroadcastServerFactory(BroadcastFactoryCommon, WebSocketServerFactory):
                 self.consumer.register(client)
 
     def unregister(self, client):
-        if client.action == 'subscribe':
-            self._producer.unregister(client)
-        if client.action == 'publish':
-            self._consumer.unregister(client)
+        if client.action == 'subscribe' and self.producer:
+            self.producer.unregister(client)
+        elif client.action == 'publish' and self.consumer:
+            self.consumer.unregister(client)
 
     def stopFactory(self):
         self._stop_producer()
-- 
2.43.0


From a3fed4c7df44502ad45d37a78d5eb1a86cfd006d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:28 +0000
Subject: [PATCH 43/59] fix: a client that publishes closes the connection when
 it is sent data

---
 ebu_tt_live/twisted/websocket.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ebu_tt_live/twisted/websocket.py b/ebu_tt_live/twisted/websocket.py
index cf0bcd3..f145275 100644
--- a/ebu_tt_live/twisted/websocket.py
+++ b/ebu_tt_live/twisted/websocket.py
@@ -364,6 +364,7 @@ class BroadcastClientProtocol(EBUWebsocketProtocolMixin, WebSocketClientProtocol
                 self.dropConnection(abort=False)
         else:
             log.error(ERR_WS_RECEIVE_VIA_PRODUCER)
+            self.dropConnection(abort=True)
 
     def sendSequenceMessage(
             self, sequence_identifier, payload, isBinary=False, fragmentSize=None, sync=False, doNotCompress=False
-- 
2.43.0


From 38d6bc20e3c4419d7c0407f520ce5dbc350e70fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:44 +0000
Subject: [PATCH 44/59] fix: the deduplicator does not take characters of
 attributes for their separators

---
 ebu_tt_live/node/deduplicator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ebu_tt_live/node/deduplicator.py b/ebu_tt_live/node/deduplicator.py
index 9af796b..e6f5111 100644
--- a/ebu_tt_live/node/deduplicator.py
+++ b/ebu_tt_live/node/deduplicator.py
@@ -131,8 +131,8 @@ def ReplaceNone(attr_value):
     prevent 'collisions'
     """
     if attr_value is None:
-        return "|" # '|' is a non-legal character and this is used to prevent
-                   # collisions between similar attributes
+        return u"\x01" # a character that no XML document can contain is used to prevent
+                       # collisions between similar attributes
     else:
         return attr_value
 
@@ -168,13 +168,13 @@ class ComparableElement:
         concatenatedStyleString = u''
         for key,val in sortedDict:
             styleValue = ReplaceNone(val.value(value))
-            concatenatedStyleString += unicode(styleValue) + '%'
+            concatenatedStyleString += unicode(styleValue) + u'\x00'
 
         for key,val in sorted(value.wildcardAttributeMap().items(), key=lambda t: t[0]):
             namespace = ReplaceNone(key.namespaceURI())
             localName = key.localName()
             wildcardValue = ReplaceNone(val)
-            concatenatedStyleString += namespace + '%' + localName + '%' + wildcardValue + '%'
+            concatenatedStyleString += namespace + u'\x00' + localName + u'\x00' + wildcardValue + u'\x00'
 
         # The attributes themselves, not a number made of them, because different attributes can have the same hash
         self.my_hash = concatenatedStyleString
-- 
2.43.0


From bd6929e9cd356d98b65fa8a90c620b3d94ed89dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:40 +0000
Subject: [PATCH 45/59] fix: very small and very large sizes are written
 without an exponent

---
 ebu_tt_live/bindings/_ebuttdt.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/ebu_tt_live/bindings/_ebuttdt.py b/ebu_tt_live/bindings/_ebuttdt.py
index 78d212f..eb787ea 100644
--- a/ebu_tt_live/bindings/_ebuttdt.py
+++ b/ebu_tt_live/bindings/_ebuttdt.py
@@ -142,11 +142,21 @@ def named_color_to_rgba(named_color):
 
 def convert_cell_region_to_percentage(cells_in, cell_resolution):
     return '{}% {}%'.format(
-        (float(cells_in.horizontal) / float(cell_resolution.horizontal)) * 100,
-        (float(cells_in.vertical) / float(cell_resolution.vertical)) * 100
+        _format_size((float(cells_in.horizontal) / float(cell_resolution.horizontal)) * 100),
+        _format_size((float(cells_in.vertical) / float(cell_resolution.vertical)) * 100)
     )
 
 
+def _format_size(value):
+    """
+    Sizes have no exponent in XML, however small or large they are.
+    """
+    text = '{}'.format(value)
+    if 'e' in text:
+        text = '{:.12f}'.format(value).rstrip('0').rstrip('.')
+    return text
+
+
 class TwoDimSizingMixin(object):
 
     _groups_regex = None
@@ -170,13 +180,13 @@ class TwoDimSizingMixin(object):
                 raise SimpleTypeValueError(cls, ERR_1DIM_ONLY.format(
                     type=cls
                 ))
-            return cls._2dim_format.format(*instance)
+            return cls._2dim_format.format(*[_format_size(item) for item in instance])
         else:
             if cls._1dim_format is None:
                 raise SimpleTypeValueError(cls, ERR_2DIM_ONLY.format(
                     type=cls
                 ))
-            return cls._1dim_format.format(*instance)
+            return cls._1dim_format.format(*[_format_size(item) for item in instance])
 
     @property
     def horizontal(self):
-- 
2.43.0


From 01c5dcea70a25638e0d00ca1aabc96323777d7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:42 +0000
Subject: [PATCH 46/59] fix: nodes are found by their number, and node8 and
 node9 are not ignored

---
 ebu_tt_live/config/__init__.py |  3 +--
 ebu_tt_live/config/node.py     | 17 ++++++-----------
 2 files changed, 7 insertions(+), 13 deletions(-)

diff --git a/ebu_tt_live/config/__init__.py b/ebu_tt_live/config/__init__.py
index f5aebd6..6914ef5 100644
--- a/ebu_tt_live/config/__init__.py
+++ b/ebu_tt_live/config/__init__.py
@@ -66,9 +66,8 @@ class AppConfig(RequiredConfig):
         current_app = self
 
     def get_node(self, node_id):
-        # TODO: This is horrible. Replace it with a dictionary
         node_num = int(node_id.replace('node', ''))
-        return self._nodes._nodes[node_num - 1]
+        return self._nodes._nodes[node_num]
 
     def start(self):
 
diff --git a/ebu_tt_live/config/node.py b/ebu_tt_live/config/node.py
index ff335c2..7654e58 100644
--- a/ebu_tt_live/config/node.py
+++ b/ebu_tt_live/config/node.py
@@ -375,6 +375,8 @@ class UniversalNodeList(ConfigurableComponent):
     required_config.node5 = node5 = UniversalNode.get_required_config()
     required_config.node6 = node6 = UniversalNode.get_required_config()
     required_config.node7 = node7 = UniversalNode.get_required_config()
+    required_config.node8 = node8 = UniversalNode.get_required_config()
+    required_config.node9 = node9 = UniversalNode.get_required_config()
 
     _nodes = None
 
@@ -382,18 +384,11 @@ class UniversalNodeList(ConfigurableComponent):
     def configure_component(cls, config, local_config, **kwargs):
         instance = cls(config=config, local_config=local_config)
 
-        instance._nodes = []
-        for item in [
-            instance.config.node1,
-            instance.config.node2,
-            instance.config.node3,
-            instance.config.node4,
-            instance.config.node5,
-            instance.config.node6,
-            instance.config.node7
-        ]:
+        instance._nodes = {}
+        for number in range(1, 10):
+            item = instance.config['node{}'.format(number)]
             if item.type is not None:
-                instance._nodes.append(item.type.configure_component(config, item))
+                instance._nodes[number] = item.type.configure_component(config, item)
 
         return instance
 
-- 
2.43.0


From d34de63e5d8d46f5809bed6617182656f3bff301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:42 +0000
Subject: [PATCH 47/59] fix: the configuration of a re-sequencer and a
 de-duplicator is JSON and connects its nodes

---
 .../config/resequencer_deduplicator_consumer_fs.json      | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ebu_tt_live/examples/config/resequencer_deduplicator_consumer_fs.json b/ebu_tt_live/examples/config/resequencer_deduplicator_consumer_fs.json
index 778655d..a8ea7e2 100644
--- a/ebu_tt_live/examples/config/resequencer_deduplicator_consumer_fs.json
+++ b/ebu_tt_live/examples/config/resequencer_deduplicator_consumer_fs.json
@@ -28,9 +28,15 @@
       "input": {
         "carriage": {
           "type": "filesystem",
-            "manifest_file": "export/manifest_ReSequenced2.txt",
+            "manifest_file": "export/manifest_ReSequenced1.txt",
             "tail": "true"
         }
+      },
+      "output": {
+        "carriage": {
+          "type": "filesystem"
+        }
+      }
     },
     "node3": {
       "id": "consumer1",
-- 
2.43.0


From 47ea3b9c14c2ce85ede627e6058d5d2fae9b8f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:18 +0000
Subject: [PATCH 48/59] fix: an authors group control request keeps the
 availability time it is read with

---
 ebu_tt_live/documents/ebutt3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebu_tt_live/documents/ebutt3.py b/ebu_tt_live/documents/ebutt3.py
index 2138a6a..b8e0950 100644
--- a/ebu_tt_live/documents/ebutt3.py
+++ b/ebu_tt_live/documents/ebutt3.py
@@ -251,8 +251,9 @@ class EBUTTAuthorsGroupControlRequest(EBUTTLiveMessage):
             sequence_identifier=binding.sequenceIdentifier,
             sender=binding.header.sender,
             recipient=binding.header.recipient,
-            payload=binding.payload.orderedContent()[0].value  # anyType is considered complex type
+            payload=binding.payload.orderedContent()[0].value,  # anyType is considered complex type
             # so orderedContent is needed and indexing the first component.
+            availability_time=availability_time
         )
 
 # Register the class in the base class
-- 
2.43.0


From b4ff8a4bff8e9e07714fb116caa6b339e2be5800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:56 +0000
Subject: [PATCH 49/59] fix: the user input producer escapes what the user
 types

---
 .../template/user_input_producer_template.xml                 | 2 +-
 ebu_tt_live/ui/user_input_producer/uip.js                     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ebu_tt_live/ui/user_input_producer/template/user_input_producer_template.xml b/ebu_tt_live/ui/user_input_producer/template/user_input_producer_template.xml
index 1e25407..bd8d737 100644
--- a/ebu_tt_live/ui/user_input_producer/template/user_input_producer_template.xml
+++ b/ebu_tt_live/ui/user_input_producer/template/user_input_producer_template.xml
@@ -50,7 +50,7 @@
   {% endif %}
   >
     <tt:div region="bottomRegion">
-      <tt:p xml:id="p1" style="styleP"><tt:span style="styleSpan">{{body_content}}</tt:span></tt:p>
+      <tt:p xml:id="p1" style="styleP"><tt:span style="styleSpan">{{body_content | safe}}</tt:span></tt:p>
     </tt:div>
   </tt:body>
 </tt:tt>
diff --git a/ebu_tt_live/ui/user_input_producer/uip.js b/ebu_tt_live/ui/user_input_producer/uip.js
index 13a7659..e4b4078 100644
--- a/ebu_tt_live/ui/user_input_producer/uip.js
+++ b/ebu_tt_live/ui/user_input_producer/uip.js
@@ -467,7 +467,7 @@ $(document).ready(function() {
     });
 
     nunjucks.configure({
-        autoescape: false
+        autoescape: true
     });
 
     function createTemplateDict() {
@@ -497,7 +497,7 @@ $(document).ready(function() {
         if (authors_group_control_token) {
             template_data["authors_group_control_token"] = authors_group_control_token;
         }
-        template_data["body_content"] = $("#subtitle-content-textarea").val().replace(/\r?\n|\r/g, "<tt:br/>");
+        template_data["body_content"] = nunjucks.lib.escape($("#subtitle-content-textarea").val()).replace(/\r?\n|\r/g, "<tt:br/>");
         template_data["body_begin"] = $("#body-begin-input").val();
         template_data["body_end"] = $("#body-end-input").val();
         template_data["dur"] = $("#dur-input").val();
-- 
2.43.0


From 1fd83d30f80f61d620d3ad448bdda1ee94f34539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:56 +0000
Subject: [PATCH 50/59] fix: the running clock of the user input producer does
 not start ever more timers

---
 ebu_tt_live/ui/user_input_producer/uip.js | 2 --
 1 file changed, 2 deletions(-)

diff --git a/ebu_tt_live/ui/user_input_producer/uip.js b/ebu_tt_live/ui/user_input_producer/uip.js
index e4b4078..e06ffa0 100644
--- a/ebu_tt_live/ui/user_input_producer/uip.js
+++ b/ebu_tt_live/ui/user_input_producer/uip.js
@@ -123,14 +123,12 @@ $(document).ready(function() {
       var offset = moment(diff).format('HH:mm:ss');
 
       $('#running-clock-media').html(offset);
-      setTimeout(updateRunningClockMedia, 500);
     }
 
     function updateRunningClockLocal() {
       var time = moment().format('HH:mm:ss');
 
       $('#running-clock').html(time);
-      setTimeout(updateRunningClockLocal, 500);
     }
 
     /************************************************** Helper functions ******************************************/
-- 
2.43.0


From 8f55cec8769505788919ab11fb4e75c1db3bdba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:56 +0000
Subject: [PATCH 51/59] fix: the running media clock does not depend on the
 time zone

---
 ebu_tt_live/ui/user_input_producer/uip.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebu_tt_live/ui/user_input_producer/uip.js b/ebu_tt_live/ui/user_input_producer/uip.js
index e06ffa0..e32c197 100644
--- a/ebu_tt_live/ui/user_input_producer/uip.js
+++ b/ebu_tt_live/ui/user_input_producer/uip.js
@@ -120,7 +120,7 @@ $(document).ready(function() {
 
     function updateRunningClockMedia() {
       var diff = moment().diff(scheduled_send_media_clock_offset);
-      var offset = moment(diff).format('HH:mm:ss');
+      var offset = moment.utc(diff).format('HH:mm:ss');
 
       $('#running-clock-media').html(offset);
     }
-- 
2.43.0


From 33e147196888f36e042d7ca3d15d2f9b4b6becf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:56 +0000
Subject: [PATCH 52/59] fix: messages without sender are listed as received

---
 ebu_tt_live/ui/user_input_producer/uip.js | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/ebu_tt_live/ui/user_input_producer/uip.js b/ebu_tt_live/ui/user_input_producer/uip.js
index e32c197..be8ce42 100644
--- a/ebu_tt_live/ui/user_input_producer/uip.js
+++ b/ebu_tt_live/ui/user_input_producer/uip.js
@@ -169,17 +169,13 @@ $(document).ready(function() {
 
     function createMessageListItem(message) {
         var clonedElement = $('#result-list .message-item-template').clone();
-        clonedElement.find('.sender-value').text(
-            message.getElementsByTagNameNS(
-                'urn:ebu:tt:livemessage', 'header'
-            )[0].getElementsByTagNameNS(
-                'urn:ebu:tt:livemessage', 'sender'
-            )[0].firstChild.nodeValue
-        );
+        // The sender is optional
+        var sender = message.getElementsByTagNameNS('urn:ebu:tt:livemessage', 'sender')[0];
+        clonedElement.find('.sender-value').text(sender ? sender.textContent : '');
         clonedElement.find('.payload').text(
           message.getElementsByTagNameNS(
             'urn:ebu:tt:livemessage', 'payload'
-          )[0].firstChild.nodeValue
+          )[0].textContent
         );
 
         clonedElement.removeClass('message-item-template');
-- 
2.43.0


From bb69e3c369a50ebc6a5b0e1972ee9f26b8833750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:56 +0000
Subject: [PATCH 53/59] fix: without a sequence nobody is on air

---
 ebu_tt_live/ui/user_input_producer/uip.js | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ebu_tt_live/ui/user_input_producer/uip.js b/ebu_tt_live/ui/user_input_producer/uip.js
index be8ce42..555123e 100644
--- a/ebu_tt_live/ui/user_input_producer/uip.js
+++ b/ebu_tt_live/ui/user_input_producer/uip.js
@@ -203,9 +203,10 @@ $(document).ready(function() {
     }
 
     function checkOnAir(tt) {
-        if(tt.getAttributeNS(
+        var sequence_identifier = $("#sequence-selector").val();
+        if(sequence_identifier && tt.getAttributeNS(
             'urn:ebu:tt:metadata', 'authorsGroupSelectedSequenceIdentifier'
-        ) == $("#sequence-selector").val()) {
+        ) == sequence_identifier) {
             $('#on-air-span').addClass('selected');
         } else {
             $('#on-air-span').removeClass('selected');
-- 
2.43.0


From bf1e32637ac3d0b7be7980beb38fce55c8aa4932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:56 +0000
Subject: [PATCH 54/59] fix: creating a sequence again does not start its
 numbers again

---
 ebu_tt_live/ui/user_input_producer/uip.js | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ebu_tt_live/ui/user_input_producer/uip.js b/ebu_tt_live/ui/user_input_producer/uip.js
index 555123e..75831ff 100644
--- a/ebu_tt_live/ui/user_input_producer/uip.js
+++ b/ebu_tt_live/ui/user_input_producer/uip.js
@@ -333,6 +333,8 @@ $(document).ready(function() {
     $("#validate-new-sequence-button").click(function() {
         if ($("#new-sequence-identifier-input").val() == "") {
             notifyError($("#new-sequence-notification-span"), "The sequence identifier cannot be empty", false);
+        } else if (all_sequences.hasOwnProperty($("#new-sequence-identifier-input").val())) {
+            notifyError($("#new-sequence-notification-span"), "A sequence with this identifier exists already", false);
         } else {
             var sequence = {};
             var sequence_identifier = $("#new-sequence-identifier-input").val();
-- 
2.43.0


From 2e1ce9462c1baffea9a14cce1e5e6792097f55ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:37 +0000
Subject: [PATCH 55/59] fix: the button to schedule a document schedules it

---
 ebu_tt_live/ui/user_input_producer/uip.js | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ebu_tt_live/ui/user_input_producer/uip.js b/ebu_tt_live/ui/user_input_producer/uip.js
index 75831ff..4bfcd76 100644
--- a/ebu_tt_live/ui/user_input_producer/uip.js
+++ b/ebu_tt_live/ui/user_input_producer/uip.js
@@ -625,6 +625,8 @@ $(document).ready(function() {
 
     $("#submit-subtitle-button").click(sendDocument);
 
+    $("#schedule-subtitle-button").click(sendDocument);
+
 
     // keyboard shortcut: Enter, space and escape send a document, escape also clears the text box.
     // Enter, space and escape send a document only in "Send button" mode.
-- 
2.43.0


From 06d7ef83369100173c1ccd5e5777df4e10dc1f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:37 +0000
Subject: [PATCH 56/59] fix: a document is sent at the second it is scheduled
 for, not up to a second later

---
 ebu_tt_live/ui/user_input_producer/uip.js | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ebu_tt_live/ui/user_input_producer/uip.js b/ebu_tt_live/ui/user_input_producer/uip.js
index 4bfcd76..4f6b578 100644
--- a/ebu_tt_live/ui/user_input_producer/uip.js
+++ b/ebu_tt_live/ui/user_input_producer/uip.js
@@ -541,6 +541,7 @@ $(document).ready(function() {
               scheduled_time.setHours(scheduled_time_parsed[1]);
               scheduled_time.setMinutes(scheduled_time_parsed[2]);
               scheduled_time.setSeconds(scheduled_time_parsed[3]);
+              scheduled_time.setMilliseconds(0);
               timeout = scheduled_time.getTime() - Date.now();
             }
         } else { // media offset is not null
-- 
2.43.0


From d38b9595713d75967f2c76c0538dbfe8dd4f61db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:22 +0000
Subject: [PATCH 57/59] fix: serialising a document leaves no generators behind
 that delay its release

---
 ebu_tt_live/bindings/pyxb_utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ebu_tt_live/bindings/pyxb_utils.py b/ebu_tt_live/bindings/pyxb_utils.py
index 28dec92..f614c2f 100644
--- a/ebu_tt_live/bindings/pyxb_utils.py
+++ b/ebu_tt_live/bindings/pyxb_utils.py
@@ -68,10 +68,12 @@ def dom_to_pretty_xml(dom, encoding=None):
     :return: xml
     """
     def is_mixed(element):
-        return element.localName == 'p' or any(
-            node.nodeType in (node.TEXT_NODE, node.CDATA_SECTION_NODE) and node.data.strip()
-            for node in element.childNodes
-        )
+        if element.localName == 'p':
+            return True
+        for node in element.childNodes:
+            if node.nodeType in (node.TEXT_NODE, node.CDATA_SECTION_NODE) and node.data.strip():
+                return True
+        return False
 
     def write_inline(element):
         write = element.writexml
-- 
2.43.0


From bf8cd7584211032f2f666a284bdf0ee22de25306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:22 +0000
Subject: [PATCH 58/59] Leave the example configurations as they were

---
 .../config/resequencer_deduplicator_consumer_fs.json      | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/ebu_tt_live/examples/config/resequencer_deduplicator_consumer_fs.json b/ebu_tt_live/examples/config/resequencer_deduplicator_consumer_fs.json
index a8ea7e2..778655d 100644
--- a/ebu_tt_live/examples/config/resequencer_deduplicator_consumer_fs.json
+++ b/ebu_tt_live/examples/config/resequencer_deduplicator_consumer_fs.json
@@ -28,15 +28,9 @@
       "input": {
         "carriage": {
           "type": "filesystem",
-            "manifest_file": "export/manifest_ReSequenced1.txt",
+            "manifest_file": "export/manifest_ReSequenced2.txt",
             "tail": "true"
         }
-      },
-      "output": {
-        "carriage": {
-          "type": "filesystem"
-        }
-      }
     },
     "node3": {
       "id": "consumer1",
-- 
2.43.0


From d7a3ec0d3e1a3c7a0ff9b28e0bd90b507083f6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:02 +0000
Subject: [PATCH 59/59] fix: A media clock goes on at midnight

It interpolates from the time of the day of the machine, which begins again
at midnight, so the media time jumped back by a day. It is counted from the
midnight of the day of the reference time now.
---
 ebu_tt_live/clocks/media.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ebu_tt_live/clocks/media.py b/ebu_tt_live/clocks/media.py
index 8ee08c7..42a5c25 100644
--- a/ebu_tt_live/clocks/media.py
+++ b/ebu_tt_live/clocks/media.py
@@ -1,4 +1,4 @@
-from datetime import datetime, timedelta
+from datetime import datetime, time, timedelta
 from collections import namedtuple
 from ebu_tt_live.errors import TimeFormatError
 from ebu_tt_live.strings import ERR_TIME_WRONG_FORMAT
@@ -14,6 +14,7 @@ class MediaClock(Clock):
     from the last adjusted reference time.
     """
     _reference_mapping = None
+    _reference_midnight = None  # Of the day the local part of the mapping is a time of
     _time_base = 'media'
 
     def __init__(self):
@@ -28,7 +29,9 @@ class MediaClock(Clock):
         return self._reference_mapping.remote + (real_clock_timedelta - self._reference_mapping.local)
 
     def get_real_clock_time(self):
-        return self._reference_mapping.remote + (self.get_machine_time() - self._reference_mapping.local)
+        # The time of the day would begin again at midnight, so it is counted from the midnight of the reference time
+        local_time = datetime.now() - self._reference_midnight
+        return self._reference_mapping.remote + (local_time - self._reference_mapping.local)
 
     def adjust_time(self, current_time, local_time=None):
         """
@@ -39,8 +42,10 @@ class MediaClock(Clock):
         """
         if not isinstance(current_time, timedelta) or local_time is not None and not isinstance(local_time, timedelta):
             raise TimeFormatError(ERR_TIME_WRONG_FORMAT)
+        now = datetime.now()
+        self._reference_midnight = datetime.combine(now.date(), time())
         if local_time is None:
-            local_time = self.get_machine_time()
+            local_time = now - self._reference_midnight
         self._reference_mapping = ReferenceTime(local_time, current_time)
 
 # NOTE: Some of the code below includes handling of SMPTE time base, which was removed from version 1.0 of the specification.
-- 
2.43.0

