From 8a56ef7c06604d66693cab09559b50cde7ab8209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:00 +0000
Subject: [PATCH 1/5] fix: CoordinationSystem commit_start must let the journal
 record its in-flight image

The step required CrashTolerantJournal::next(pre.journal, pre.journal, CommitStartLabel),
but the journal's commit_start moves in_flight from None to Some(frozen), so the step was
never enabled and no sync of a write could ever complete. Take the journal's next state as
a step parameter and install it, as commit_complete does and as the Dafny model does.
---
 .../abstract_system/AbstractCrashAwareSystemRefinement_v.rs   | 2 +-
 Splinter/src/abstract_system/AbstractCrashAwareSystem_v.rs    | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/Splinter/src/abstract_system/AbstractCrashAwareSystemRefinement_v.rs b/Splinter/src/abstract_system/AbstractCrashAwareSystemRefinement_v.rs
index 5a66632..04fd89e 100644
--- a/Splinter/src/abstract_system/AbstractCrashAwareSystemRefinement_v.rs
+++ b/Splinter/src/abstract_system/AbstractCrashAwareSystemRefinement_v.rs
@@ -723,7 +723,7 @@ verus! {
             v.inv(),
             CoordinationSystem::State::next(v, vp, label),
             CoordinationSystem::State::next_by(v, vp, label, step),
-            matches!(step, CoordinationSystem::Step::commit_start(_)),
+            matches!(step, CoordinationSystem::Step::commit_start(_, _)),
         ensures
             vp.inv()
     {
diff --git a/Splinter/src/abstract_system/AbstractCrashAwareSystem_v.rs b/Splinter/src/abstract_system/AbstractCrashAwareSystem_v.rs
index c1f7e24..afdb4cd 100644
--- a/Splinter/src/abstract_system/AbstractCrashAwareSystem_v.rs
+++ b/Splinter/src/abstract_system/AbstractCrashAwareSystem_v.rs
@@ -527,6 +527,7 @@ state_machine!{ CoordinationSystem {
     commit_start(
       label: Label,
       new_boundary_lsn: LSN,
+      new_journal: CrashTolerantJournal::State,
     ) {
       require pre.ephemeral is Some;
       let pre_ephemeral = pre.ephemeral.get_Some_0();
@@ -536,7 +537,7 @@ state_machine!{ CoordinationSystem {
 
       require CrashTolerantJournal::State::next(
         pre.journal,
-        pre.journal,
+        new_journal,
         CrashTolerantJournal::Label::CommitStartLabel {
           new_boundary_lsn: new_boundary_lsn,
           max_lsn: pre_ephemeral.map_lsn,
@@ -551,6 +552,7 @@ state_machine!{ CoordinationSystem {
         }
       );
 
+      update journal = new_journal;
       update superblock_in_flight = true;
 
       // ephemeral unchanged
-- 
2.43.0


From 05075c0ba59f263f997fc2521210b19f076dd6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:27 +0000
Subject: [PATCH 2/5] fix: parsing a sequence with a corrupt length field no
 longer reserves room for that many elements

---
 Splinter/src/marshalling/ResizableUniformSizedSeq_v.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Splinter/src/marshalling/ResizableUniformSizedSeq_v.rs b/Splinter/src/marshalling/ResizableUniformSizedSeq_v.rs
index 87f6ff5..1931390 100644
--- a/Splinter/src/marshalling/ResizableUniformSizedSeq_v.rs
+++ b/Splinter/src/marshalling/ResizableUniformSizedSeq_v.rs
@@ -529,7 +529,8 @@ impl<EltFormat: Marshal + UniformSized, LenType: IntFormattable>
             None => { None },
             Some(len) => {
                 let mut i: usize = 0;
-                let mut result:Vec<EltFormat::U> = Vec::with_capacity(len);
+                // len comes from the data; don't reserve room for more elements than can be there.
+                let mut result:Vec<EltFormat::U> = Vec::with_capacity(if len <= self.max_length { len } else { self.max_length });
                 while i < len
                 invariant
                     i <= len,
-- 
2.43.0


From 7471d428de1095ef5bbf40e7a9475749e2e7d75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:51 +0000
Subject: [PATCH 3/5] fix: a branch contains a key when its query is not the
 no-op message

BranchNode::linked_contains was true exactly for the keys that are not in the
branch, so a compaction could lose or replace the messages of its input.
---
 Splinter/src/allocation_layer/AllocationBranch_v.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Splinter/src/allocation_layer/AllocationBranch_v.rs b/Splinter/src/allocation_layer/AllocationBranch_v.rs
index 840468a..0b95192 100644
--- a/Splinter/src/allocation_layer/AllocationBranch_v.rs
+++ b/Splinter/src/allocation_layer/AllocationBranch_v.rs
@@ -28,7 +28,7 @@ pub type BranchNode = Node<Summary>;
 impl Buffer for BranchNode {
     open spec fn linked_contains(self, dv: BufferDisk<Self>, addr: Address, key: Key) -> bool 
     {
-        self.linked_query(dv, addr, key) == Message::Update{ delta: nop_delta() }
+        self.linked_query(dv, addr, key) != Message::Update{ delta: nop_delta() }
     }
 
     open spec fn linked_query(self, dv: BufferDisk<Self>, addr: Address, key: Key) -> Message 
-- 
2.43.0


From 369e5df0b24c7438f3a8cb3baf7026f6aa089fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:29 +0000
Subject: [PATCH 4/5] fix: Cache writeback_initiate must not issue two writes
 for one page

---
 Splinter/src/implementation/Cache_v.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Splinter/src/implementation/Cache_v.rs b/Splinter/src/implementation/Cache_v.rs
index 0b7121e..f75e7db 100644
--- a/Splinter/src/implementation/Cache_v.rs
+++ b/Splinter/src/implementation/Cache_v.rs
@@ -214,6 +214,8 @@ state_machine!{ Cache {
         require !requests.is_empty();
         require responses == empty_responses();
 
+        // at most one outstanding write per page
+        require requests.is_injective();
         require requests.dom().disjoint(pre.outstanding_reqs.dom());
         require pre.valid_writeback_requests(requests);
 
-- 
2.43.0


From b3a6d19828b84bb51005b57f023de6b7be26f880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:55 +0000
Subject: [PATCH 5/5] fix: JournalCoordinationSystem put must append the
 messages to the journal

---
 .../implementation/JournalCoordinationSystem_v.rs  | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/Splinter/src/implementation/JournalCoordinationSystem_v.rs b/Splinter/src/implementation/JournalCoordinationSystem_v.rs
index 8df8b14..d064001 100644
--- a/Splinter/src/implementation/JournalCoordinationSystem_v.rs
+++ b/Splinter/src/implementation/JournalCoordinationSystem_v.rs
@@ -187,10 +187,11 @@ state_machine!{ JournalCoordinationSystem{
         require CachedJournal::State::next(pre.journal, pre.journal, journal_lbl);
     }}
 
-    transition!{ put(lbl: Label) {
+    transition!{ put(lbl: Label, new_journal: CachedJournal::State) {
         require let Label::Put{messages} = lbl;
         let journal_lbl = CachedJournal::Label::Put{messages};
-        require CachedJournal::State::next(pre.journal, pre.journal, journal_lbl);
+        require CachedJournal::State::next(pre.journal, new_journal, journal_lbl);
+        update journal = new_journal;
     }}
 
     transition!{ discard_old(lbl: Label, new_journal: CachedJournal::State, discard_addrs: Set<Address>) {
@@ -363,7 +364,14 @@ state_machine!{ JournalCoordinationSystem{
     fn query_end_lsn_inductive(pre: Self, post: Self, lbl: Label) { }
    
     #[inductive(put)]
-    fn put_inductive(pre: Self, post: Self, lbl: Label) { }
+    fn put_inductive(pre: Self, post: Self, lbl: Label, new_journal: CachedJournal::State)
+    {
+        reveal(CachedJournal::State::next);
+        reveal(CachedJournal::State::next_by);
+
+        assert(post.ephemeral_tj() == pre.ephemeral_tj());
+        assert(post.inv());
+    }
    
     #[inductive(discard_old)]
     fn discard_old_inductive(pre: Self, post: Self, lbl: Label, new_journal: CachedJournal::State, discard_addrs: Set<Address>) 
-- 
2.43.0

